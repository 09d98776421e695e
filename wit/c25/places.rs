//! Keys declared anywhere, with any visibility.
#![allow(dead_code)]
mod a {
    pub mod b {
        use fixed_map::Key;
        #[derive(Clone, Copy, Key)]
        pub(super) enum P { A, B }
        #[derive(Clone, Copy, Key)]
        #[key(bitset)]
        pub(in crate::a) enum Q { A, B }
        #[derive(Clone, Copy, Key)]
        pub(crate) enum R { A(P), B(Q), C(S) }
        #[derive(Clone, Copy, Key)]
        pub(self) enum S { A }
        #[derive(Clone, Copy, Key)]
        pub enum T { A(R) }
        #[derive(Clone, Copy, Key)]
        enum U { A(self::P), B(super::b::Q), C(crate::a::b::R), D(<u8 as ::core::ops::Add>::Output), E((((P)))) }
    }
}
fn local<X>(_: X) {
    use fixed_map::{Key, Map};
    #[derive(Clone, Copy, Key)]
    enum L { A, B(bool) }
    {
        #[derive(Clone, Copy, Key)]
        enum M { A(L) }
        let mut m: Map<M, u8> = Map::new();
        m.insert(M::A(L::B(true)), 1);
    }
    let f = || {
        #[derive(Clone, Copy, Key)]
        #[key(bitset)]
        enum N { A, B }
        N::A
    };
    f();
}
struct W;
impl W {
    const C: usize = {
        #[derive(Clone, Copy, ::fixed_map::Key)]
        enum L { A }
        L::A as usize
    };
}
macro_rules! mk {
    ($v:vis $n:ident { $($x:ident),* }) => {
        #[derive(Clone, Copy, ::fixed_map::Key)]
        $v enum $n { $($x),*, Own }
    };
    (comp $n:ident $t:ty) => {
        #[derive(Clone, Copy, ::fixed_map::Key)]
        enum $n { Own($t), Other }
    };
}
mk!(pub FromMacro { A, B });
mk!(FromMacro2 { A, B });
mk!(comp FromMacro3 FromMacro2);
mk!(comp FromMacro4 Option<bool>);
fn main() {}
