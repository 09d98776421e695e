//! Attributes where there are none, and bitsets of what has no bits.
#![allow(dead_code)]
use fixed_map::Key;
#[derive(Clone, Copy, Key)]
enum A {
    #[key(bitset)] //~ *
    A,
    #[key(foo)] //~ *
    B,
    #[key] //~ *
    C,
}
#[derive(Clone, Copy, Key)]
enum B {
    #[key(bitset)] //~ *
    A(bool),
    B(
        #[key(bitset)] //~ *
        bool
    ),
    #[key = 1] //~ *
    C,
}
#[derive(Clone, Copy, Key)]
#[key(bitset)] //~ *
enum C { A, B(bool) }
#[derive(Clone, Copy, Key)]
#[key(bitset)] //~ *
enum D { A(D0) }
#[derive(Clone, Copy, Key)]
#[key(bitset)]
enum D0 { A }
