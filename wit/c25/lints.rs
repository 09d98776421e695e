//! Nothing generated trips a lint.
#![deny(warnings)]
#![forbid(unsafe_code)]
#![deny(
    future_incompatible, nonstandard_style, rust_2018_idioms, unused, missing_docs, missing_debug_implementations, missing_copy_implementations,
    unreachable_pub, unused_qualifications, unused_results, trivial_casts, trivial_numeric_casts, single_use_lifetimes, unused_lifetimes,
    explicit_outlives_requirements, elided_lifetimes_in_paths, let_underscore_drop, redundant_lifetimes, unit_bindings,
    absolute_paths_not_starting_with_crate, non_ascii_idents, unnameable_types, meta_variable_misuse, unused_import_braces, macro_use_extern_crate,
    deprecated, non_camel_case_types, non_snake_case, dead_code, unreachable_code, unreachable_patterns, unused_variables, unused_mut, unused_parens,
    unused_braces, unused_imports, private_interfaces, private_bounds, non_local_definitions, clippy::all, clippy::pedantic
)]
//! Docs.
/// Unit variants.
#[derive(Debug, Clone, Copy, fixed_map::Key)]
pub enum Unit {
    /// A.
    A,
    /// B.
    #[deprecated]
    B,
}
/// As bits.
#[derive(Debug, Clone, Copy, fixed_map::Key)]
#[key(bitset)]
pub enum Bits {
    /// A.
    A,
    /// B.
    #[deprecated]
    B,
}
/// Old.
#[derive(Debug, Clone, Copy, fixed_map::Key)]
pub enum Old {
    /// A.
    A,
}
/// Composite.
#[derive(Debug, Clone, Copy, fixed_map::Key)]
#[non_exhaustive]
pub enum Mixed {
    /// A.
    A,
    /// B.
    #[deprecated]
    B(bool),
    /// C.
    C(Unit),
    /// D.
    D(Option<Bits>),
    /// E.
    E(()),
    /// F.
    F(u32),
    /// G.
    #[allow(deprecated)]
    G(Old),
}
/// Nothing.
#[derive(Debug, Clone, Copy, fixed_map::Key)]
pub enum Empty {}
mod private {
    #[derive(Debug, Clone, Copy, fixed_map::Key)]
    pub(crate) enum Inner { A, B }
    #[derive(Debug, Clone, Copy, fixed_map::Key)]
    pub(crate) enum Outer { A(Inner), B }
    pub(crate) fn all() -> [Outer; 3] { [Outer::A(Inner::A), Outer::A(Inner::B), Outer::B] }
}
/// Uses them.
#[must_use]
pub fn all() -> usize { private::all().len() }
