//! Modules called core, std, alloc and fixed_map in the scope of the key.
#![allow(dead_code)]
mod scope {
    pub mod core {}
    pub mod std {}
    pub mod alloc {}
    pub mod fixed_map {}
    #[derive(Clone, Copy, ::fixed_map::Key)]
    pub enum Unit { A, B }
    #[derive(Clone, Copy, ::fixed_map::Key)]
    #[key(bitset)]
    pub enum Bits { A, B }
    #[derive(Clone, Copy, ::fixed_map::Key)]
    pub enum Comp { A(Unit), B(Bits), C, D(Option<bool>), E(()) }
}
fn main() {}
