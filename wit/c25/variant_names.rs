//! Variants may have any name.
#![allow(non_camel_case_types, dead_code)]
use fixed_map::{Key, Map, Set};
#[derive(Clone, Copy, Key)]
enum Unit { None, Some, Ok, Err, Option, V, K, T, F, Key, Map, Set, Storage, Self_, __MapStorage, __SetStorage, MapStorage, Iter, data, key, value, v, _0, _1, this, r#type, r#fn, r#match, r#struct, Occupied, Vacant, Entry, Item, Output, Raw, true_, u8, bool, usize, A0, É }
#[derive(Clone, Copy, Key)]
#[key(bitset)]
enum Bits { None, Some, Ok, Err, Option, V, K, T, F, Key, Map, Set, Storage, Self_, __MapStorage, __SetStorage, MapStorage, Iter, data, key, value, v, _0, _1, this, r#type, r#fn, r#match, r#struct, Occupied, Vacant, Entry, Item, Output, Raw, true_, u8, bool, usize, A0, É }
#[derive(Clone, Copy, Key)]
enum Comp { None(Unit), Some, Ok(Bits), Err(bool), Option(Option<bool>), V(()), K, T, F(Option<()>), Key, Map, Set, Storage, Self_, __MapStorage, __SetStorage, MapStorage, Iter, data, key, value(bool), v(bool), _0, _1(bool), this, r#type(bool), r#fn, r#match(Option<Unit>), r#struct, Occupied, Vacant, Entry, Item, Raw, u8, bool, usize(u32), Output }
fn main() {
    let mut m: Map<Comp, u8> = Map::new();
    m.insert(Comp::r#type(true), 1);
    m.insert(Comp::None(Unit::None), 1);
    let mut s: Set<Bits> = Set::new();
    s.insert(Bits::None);
    let mut s: Set<Comp> = Set::new();
    s.insert(Comp::Option(Some(true)));
}
