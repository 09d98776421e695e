//! Items which are not enums.
#![allow(dead_code)]
use fixed_map::Key;
#[derive(Clone, Copy, Key)] struct A; //~ *
#[derive(Clone, Copy, Key)] struct B(bool); //~ *
#[derive(Clone, Copy, Key)] struct C { a: bool } //~ *
#[derive(Clone, Copy, Key)] struct D(); //~ *
#[derive(Clone, Copy, Key)] struct E {} //~ *
#[derive(Clone, Copy, Key)] union F { a: u8, b: bool } //~ *
#[derive(Clone, Copy, Key)] struct G<T>(T); //~ *
