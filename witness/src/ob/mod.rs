macro_rules! gated {
    ($($c:ident $m:ident;)*) => {$( #[cfg(any($c, p_all))] pub mod $m; )*};
}
#[cfg(any(p_c01, p_c02, p_c03, p_c04, p_c05, p_c06, p_c07, p_c14, p_c16, p_c17, p_c20, p_c21, p_all))]
pub mod vals;
gated! { p_c01 c01; p_c02 c02; p_c03 c03; p_c04 c04; p_c05 c05; p_c06 c06; p_c07 c07; p_c08 c08; p_c09 c09; p_c10 c10; p_c11 c11; p_c12 c12; p_c13 c13; p_c14 c14; p_c15 c15; p_c16 c16; p_c17 c17; p_c19 c19; p_c20 c20; }
#[cfg(any(p_c01, p_c08))]
pub mod rep;
#[cfg(p_c21)]
pub mod c21;
#[cfg(all(feature = "ser", any(p_c18, p_all)))]
pub mod c18;
#[cfg(all(feature = "ser", any(p_c30, p_all)))]
pub mod c30;
#[cfg(all(crowd, feature = "hash"))]
pub mod crowd;
#[cfg(p_c29)]
pub mod c29;
