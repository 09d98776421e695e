//! Attributes which mean nothing.
#![allow(dead_code)]
use fixed_map::Key;
macro_rules! both { ($($t:tt)*) => { $($t)* }; }
#[derive(Clone, Copy, Key)]
#[key(foo)] //~ *
enum A { A, B }
#[derive(Clone, Copy, Key)]
#[key(bitsets)] //~ *
enum B { A, B }
#[derive(Clone, Copy, Key)]
#[key] //~ *
enum C { A, B }
#[derive(Clone, Copy, Key)]
#[key = "bitset"] //~ *
enum D { A, B }
#[derive(Clone, Copy, Key)]
#[key(bitset = 3)] //~ *
enum E { A, B }
#[derive(Clone, Copy, Key)]
#[key("bitset")] //~ *
enum F { A, B }
#[derive(Clone, Copy, Key)]
#[key(bitset, foo)] //~ *
enum G { A, B }
#[derive(Clone, Copy, Key)]
#[key(foo, bitset)] //~ *
enum H { A, B }
#[derive(Clone, Copy, Key)]
#[key(bitset)]
#[key(foo)] //~ *
enum I { A, B }
#[derive(Clone, Copy, Key)]
#[key(foo)] //~ *
#[key(bitset)]
enum J { A, B }
#[derive(Clone, Copy, Key)]
#[key(foo)] //~ *
enum K { A, B(bool) }
#[derive(Clone, Copy, Key)]
#[key(foo)] //~ *
enum L {}
#[derive(Clone, Copy, Key)]
#[key(bitset(8))] //~ *
enum M { A }
#[derive(Clone, Copy, Key)]
#[key(1)] //~ *
enum N { A }
#[derive(Clone, Copy, Key)]
#[key(bitset bitset)] //~ *
enum O { A }
#[derive(Clone, Copy, Key)]
#[key(Bitset)] //~ *
enum P { A }
#[derive(Clone, Copy, Key)]
#[key(bitset::u8)] //~ *
enum Q { A }
#[derive(Clone, Copy, Key)]
#[key(::bitset)] //~ *
enum R { A }
#[derive(Clone, Copy, Key)]
#[doc = "between"]
#[key(map)] //~ *
#[doc = "others"]
enum S { A(bool) }
#[derive(Clone, Copy, Key)]
#[key(crate = foo)] //~ *
enum T { A(bool), B }
#[derive(Clone, Copy, Key)]
#[key(,)] //~ *
enum U { A }
