//! Attributes, comments, discriminants and odd spellings of what is supported.
#![allow(dead_code)]
use fixed_map::{Key, Map, Set};
/// Docs.
#[derive(Clone, Copy, Key)]
#[repr(i8)]
enum Unit {
    /// Docs.
    A = -3,
    #[doc(hidden)]
    B = 7,
    #[cfg(any())]
    Gone,
    #[cfg(all())]
    C,
}
#[derive(Key)]
#[derive(Clone, Copy)]
#[key(bitset)]
#[repr(u64)]
enum Bits { A = 1 << 40, B = 3, #[cfg(any())] Gone, C = 0 }
#[derive(Clone, Copy, Key, Debug, PartialEq, Eq, PartialOrd, Ord, Hash, Default)]
#[must_use]
enum Comp {
    /// Docs.
    #[default]
    A,
    /// Docs.
    B(
        /// Docs.
        bool,
    ),
    C(#[allow(unused)] Option<bool>,),
    D(#[doc(hidden)] #[cfg(all())] Option<::core::option::Option<()>>),
    #[cfg(any())]
    Gone(Nothing),
    E(<u8 as ::core::ops::Add<u8>>::Output),
    F(&'static str),
    G((())),
    H(self::Alias),
}
type Alias = Option<char>;
#[derive(Clone, Copy, Key)]
#[repr(C)]
enum r#fn { r#A(r#bool), r#loop, r#static(r#Alias) }
#[derive(Clone, Copy, Key)]
enum One { Only }
#[derive(Clone, Copy, Key)]
enum OneOf { Only(One) }
#[derive(Clone, Copy, Key)]
#[key()]
enum Nothing {}
#[derive(Clone, Copy, Key)]
#[key(bitset)]
#[key(bitset)]
enum Twice { A }
#[derive(Clone, Copy, Key)]
#[key(bitset,)]
enum Trailing { A, B, }
#[derive(Clone, Copy, Key)]
enum Ünïcode { Größe(bool), 数 }
fn used() {
    let mut m: Map<Comp, u8> = Map::new();
    m.insert(Comp::B(true), 1);
    m.insert(Comp::D(None), 1);
    m.insert(Comp::F("x"), 1);
    let mut n: Map<r#fn, u8> = Map::new();
    n.insert(r#fn::r#loop, 2);
    n.insert(r#fn::A(true), 2);
    let mut s: Set<Ünïcode> = Set::new();
    s.insert(Ünïcode::数);
}
