//! The variants themselves are imported where the key is declared.
#![allow(dead_code, non_camel_case_types, unused_imports)]
use fixed_map::{Key, Map, Set};
mod a {
    use self::E::*;
    use fixed_map::Key;
    #[derive(Clone, Copy, Key)]
    pub enum E { None, Some, Ok, Err, V, Option, Clone_, Iterator, Default, bool, usize }
}
mod b {
    use self::E::*;
    use fixed_map::Key;
    #[derive(Clone, Copy, Key)]
    #[key(bitset)]
    pub enum E { None, Some, Ok, Err, V, Option, Clone_, Iterator, Default, bool, usize, u8, u16 }
}
mod c {
    use self::E::*;
    #[derive(::core::clone::Clone, ::core::marker::Copy, ::fixed_map::Key)]
    pub enum E { None(::core::primitive::bool), Some, Ok(super::a::E), Err, V, Option, Iterator, Default, bool, usize }
}
fn main() {}
