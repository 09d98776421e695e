//! Enums whose shape is supported but which are not keys for another reason.
#![allow(dead_code)]
use fixed_map::Key;
#[derive(Clone, Copy)]
struct NotKey;
#[derive(Clone, Copy, Key)] enum A { A(NotKey) } //~ E0277
#[derive(Clone, Copy, Key)] enum B { A, B(NotKey), C(bool) } //~ E0277
#[derive(Clone, Copy, Key)] enum C { A(Option<NotKey>) } //~ E0277
#[derive(Clone, Copy, Key)] enum D { A(f32) } //~ E0277
#[derive(Clone, Copy, Key)] enum E { A((bool, bool)) } //~ E0277
#[derive(Clone, Copy, Key)] enum F { A([u8; 4]) } //~ E0277
#[derive(Clone, Copy, Key)] enum G { A(&'static u8) } //~ E0277
