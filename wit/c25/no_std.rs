//! In a crate without the standard library.
#![no_std]
#![allow(dead_code)]
#[derive(Clone, Copy, ::fixed_map::Key)]
pub enum Unit { A, B }
#[derive(Clone, Copy, ::fixed_map::Key)]
#[key(bitset)]
pub enum Bits { A, B }
#[derive(Clone, Copy, ::fixed_map::Key)]
pub enum Comp { A(Unit), B(Bits), C, D(Option<bool>), E(()) }
