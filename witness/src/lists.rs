//! Shape lists shared by the properties.
/// Every shape small enough for work quadratic in its size and path-heavy.
#[macro_export]
macro_rules! each {
    ($($m:ident: $f:ident [$($s:ident),* $(,)?] $(hash [$($hs:ident),*])?;)*) => {$(
        #[allow(non_snake_case)]
        pub mod $m {
            $(pub fn $s() { super::$f::<$crate::shapes::$s>() })*
            $($(#[cfg(feature = "hash")] pub fn $hs() { super::$f::<$crate::shapes::$hs>() })*)?
        }
    )*};
}
/// All small fixed shapes and the hashed ones.
#[macro_export]
macro_rules! each_small {
    ($($m:ident: $f:ident + [$($s:ident),* $(,)?];)*) => {
        #[cfg(thorough)]
        pub mod each_small_more {
            $(pub mod $m {
                $crate::more! { $f [U4, U6, U7, U9, B2, B4, B6, B7] }
            })*
        }
        $crate::each! {$(
            $m: $f [U0, U1, U2, U3, U5, Disc, DiscPerm, DiscPart, DiscMix, B0, B1, B3, B5, DiscBit, DiscBitPerm, DiscBitPart, Bool, Unit, OptBool, OptUnit, OptU2, OptOptBool, OptOptUnit, OptMix, OptEmpty,
                OptBit, Mix, Ends, Solo, SoloBool, SoloUnit, Twice, TwiceEnum, Deep, Holes, BitIn, $($s),*]
                hash [Num, OptNum, Hash1, Hash2, HashIn, SoloHash];
        )*}
    };
}
/// Small fixed shapes for work cubic in their size.
#[macro_export]
macro_rules! each_fixed {
    ($($m:ident: $f:ident + [$($s:ident),* $(,)?];)*) => {
        #[cfg(thorough)]
        pub mod each_fixed_more {
            $(pub mod $m {
                $crate::more! { $f [U4, U6, B2, B4, B6, Disc, DiscPerm, DiscMix, OptMix, Deep, Mix, Ends] }
            })*
        }
        $crate::each! {$(
            $m: $f [U0, U1, U2, U3, B0, B1, B3, DiscBit, Bool, Unit, OptBool, OptUnit, OptU2, OptOptBool, OptOptUnit, OptEmpty,
                OptBit, Solo, SoloBool, SoloUnit, Twice, TwiceEnum, Holes, BitIn, $($s),*];
        )*}
    };
}
/// The same and small hashed ones.
#[macro_export]
macro_rules! each_tiny {
    ($($m:ident: $f:ident + [$($s:ident),* $(,)?];)*) => {
        #[cfg(thorough)]
        pub mod each_tiny_more {
            $(pub mod $m {
                $crate::more! { $f [U4, U6, B2, B4, B6, Disc, DiscPerm, DiscMix, OptMix, Deep, Mix, Ends] }
            })*
        }
        $crate::each! {$(
            $m: $f [U0, U1, U2, U3, B0, B1, B3, DiscBit, Bool, Unit, OptBool, OptUnit, OptU2, OptOptBool, OptOptUnit, OptEmpty,
                OptBit, Solo, SoloBool, SoloUnit, Twice, TwiceEnum, Holes, BitIn, $($s),*] hash [Num, OptNum, Hash1, SoloHash];
        )*}
    };
}
#[macro_export]
macro_rules! more {
    ($f:ident [$($s:ident),*]) => { $(pub fn $s() { super::super::$f::<$crate::shapes::$s>() })* };
}
