//! In the 2018 edition.
//@ edition: 2018
#![allow(dead_code)]
use fixed_map::Key;
#[derive(Clone, Copy, Key)]
pub enum Unit { A, B }
#[derive(Clone, Copy, Key)]
#[key(bitset)]
pub enum Bits { A, B }
#[derive(Clone, Copy, Key)]
pub enum Comp { A(Unit), B(Bits), C, D(Option<bool>), E(()) }
fn main() {}
