//! Every prelude name is something else in the scope of the key.
#![allow(non_camel_case_types, dead_code, unused)]
mod scope {
    pub struct Option;
    pub struct Some;
    pub struct None;
    pub struct Result;
    pub struct Ok;
    pub struct Err;
    pub struct Vec;
    pub struct String;
    pub struct Box;
    pub struct bool;
    pub struct usize;
    pub struct u8;
    pub struct u16;
    pub struct u32;
    pub struct u64;
    pub struct u128;
    pub struct Clone;
    pub struct Copy;
    pub struct Send;
    pub struct Sync;
    pub struct Sized;
    pub struct Drop;
    pub struct Default;
    pub struct Iterator;
    pub struct IntoIterator;
    pub struct DoubleEndedIterator;
    pub struct ExactSizeIterator;
    pub struct Extend;
    pub struct PartialEq;
    pub struct Eq;
    pub struct PartialOrd;
    pub struct Ord;
    pub struct AsRef;
    pub struct AsMut;
    pub struct Into;
    pub struct From;
    pub struct Fn;
    pub struct FnMut;
    pub struct FnOnce;
    pub struct ToOwned;
    pub struct Map;
    pub struct Set;
    pub struct MapStorage;
    pub struct SetStorage;
    pub struct RawStorage;
    pub struct Entry;
    pub struct OccupiedEntry;
    pub struct VacantEntry;
    pub struct Occupied;
    pub struct Vacant;
    pub struct Iter;
    pub struct Keys;
    pub struct Values;
    pub struct IntoIter;
    pub struct Ordering;
    pub struct Hash;
    pub struct Hasher;
    pub struct Debug;
    #[derive(::core::clone::Clone, ::core::marker::Copy, ::fixed_map::Key)]
    enum Unit { A, B, C }
    #[derive(::core::clone::Clone, ::core::marker::Copy, ::fixed_map::Key)]
    #[key(bitset)]
    enum Bits { A, B, C, D, E, F, G, H, I }
    #[derive(::core::clone::Clone, ::core::marker::Copy, ::fixed_map::Key)]
    enum Mixed { A, B(::core::primitive::bool), C(Unit), D(()), E(::core::option::Option<::core::primitive::bool>), F(Bits), G(::core::primitive::u32) }
    #[derive(::core::clone::Clone, ::core::marker::Copy, ::fixed_map::Key)]
    enum Empty {}
}
