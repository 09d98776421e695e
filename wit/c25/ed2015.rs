//! In the 2015 edition.
//@ edition: 2015
#![allow(dead_code)]
extern crate fixed_map; use fixed_map::Key;
#[derive(Clone, Copy, Key)]
pub enum Unit { A, B }
#[derive(Clone, Copy, Key)]
#[key(bitset)]
pub enum Bits { A, B }
#[derive(Clone, Copy, Key)]
pub enum Comp { A(Unit), B(Bits), C, D(Option<bool>), E(()) }
fn main() {}
