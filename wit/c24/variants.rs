//! Variants which cannot be part of a key, on their own and among others.
#![allow(dead_code)]
use fixed_map::Key;
#[derive(Clone, Copy)]
#[derive(Key)]
enum A {
    Y(), //~ *
}
#[derive(Clone, Copy)]
#[derive(Key)]
enum B {
    Y(bool, bool), //~ *
}
#[derive(Clone, Copy)]
#[derive(Key)]
enum C {
    Y { a: bool }, //~ *
}
#[derive(Clone, Copy)]
#[derive(Key)]
enum D {
    Y {}, //~ *
}
#[derive(Clone, Copy)]
#[derive(Key)]
enum E {
    A,
    B(bool),
    Y(), //~ *
    C(Option<bool>),
    Z(bool, Option<()>), //~ *
    D,
    W { a: () }, //~ *
    V {}, //~ *
    X(bool, bool, bool), //~ *
}
#[derive(Clone, Copy)]
#[derive(Key)]
enum F {
    A,
    Y(), //~ *
}
#[derive(Clone, Copy)]
#[derive(Key)]
enum G {
    Y(bool, bool), //~ *
    A(bool),
}
#[derive(Clone, Copy)]
#[derive(Key)]
enum H {
    A,
    Y { bool: bool }, //~ *
    B,
}
#[derive(Clone, Copy)]
#[derive(Key)]
enum I {
    Y(bool, bool, bool, bool, bool, bool, bool, bool, bool), //~ *
}
