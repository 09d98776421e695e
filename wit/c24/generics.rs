//! Generic enums.
#![allow(dead_code)]
use fixed_map::Key;
#[derive(Clone, Copy, Key)] enum A<T> { A(T) } //~ *
#[derive(Clone, Copy, Key)] enum C<'a> { A(&'a str) } //~ *
#[derive(Clone, Copy, Key)] enum D<const N: usize> { A, B } //~ *
#[derive(Clone, Copy, Key)] enum E<T: Copy> { A(Option<T>), B } //~ *
