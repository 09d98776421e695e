//! Deprecated enums and variants: whoever declares them is not warned by the derive.
#![deny(warnings)]
#![deny(deprecated)]
//! Docs.
#[deprecated]
#[derive(Clone, Copy, fixed_map::Key)]
pub enum Old { A, B }
#[deprecated]
#[derive(Clone, Copy, fixed_map::Key)]
#[key(bitset)]
pub enum OldBits { A, B }
#[deprecated]
#[derive(Clone, Copy, fixed_map::Key)]
pub enum OldMixed { A, B(bool) }
#[derive(Clone, Copy, fixed_map::Key)]
pub enum Unit { #[deprecated] A, B }
#[derive(Clone, Copy, fixed_map::Key)]
#[key(bitset)]
pub enum Bits { #[deprecated] A, B }
#[derive(Clone, Copy, fixed_map::Key)]
pub enum Mixed { #[deprecated] A, #[deprecated] B(bool), C(Unit), #[deprecated] D(Option<Bits>) }
