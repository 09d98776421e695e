//! No prelude at all where the key is declared.
#![no_implicit_prelude]
#[derive(::core::clone::Clone, ::core::marker::Copy, ::fixed_map::Key)]
enum Unit { A, B, C }
#[derive(::core::clone::Clone, ::core::marker::Copy, ::fixed_map::Key)]
#[key(bitset)]
enum Bits { A, B, C }
#[derive(::core::clone::Clone, ::core::marker::Copy, ::fixed_map::Key)]
enum Mixed { A, B(bool), C(Unit), D(()), E(::core::option::Option<bool>), F(Bits), G(u32) }
#[derive(::core::clone::Clone, ::core::marker::Copy, ::fixed_map::Key)]
enum Empty {}
#[derive(::core::clone::Clone, ::core::marker::Copy, ::fixed_map::Key)]
#[key(bitset)]
enum EmptyBits {}
