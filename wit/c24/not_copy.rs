//! Keys are copied.
#![allow(dead_code)]
use fixed_map::Key;
#[derive(Key)] enum A { A, B } //~ E0277
#[derive(Clone, Key)] enum B { A(bool) } //~ E0277
#[derive(Key)] #[key(bitset)] enum C { A } //~ E0277
#[derive(Key)] enum D {} //~ E0277
