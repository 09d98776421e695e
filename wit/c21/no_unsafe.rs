// A derived key needs no unsafe code of its user.
#![forbid(unsafe_code)]
#![allow(dead_code)]
use fixed_map::Key;
#[derive(Clone, Copy, Key)] pub enum U0 {}
#[derive(Clone, Copy, Key)] pub enum U3 { A, B, C }
#[derive(Clone, Copy, Key)] #[key(bitset)] pub enum B3 { A, B, C }
#[derive(Clone, Copy, Key)] pub enum Mix { A, B(bool), C(U3), D(Option<B3>), E(()), F(u32) }
