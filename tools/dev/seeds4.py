U = 'fixed-map-derive/src/unit_variants.rs'
A = 'fixed-map-derive/src/any_variants.rs'
PRE = '''#![allow(dead_code, unused)]
use fixed_map::{Key, Map, Set};
#[derive(Debug, Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Key)]
enum U { A, B, C }
#[derive(Debug, Clone, Copy, PartialEq, Eq, Key)]
enum Mix { P, Q(bool), R, S(Option<U>), T(()) }
'''
CLOCK = '''
use std::hint::black_box;
use std::time::{Duration, Instant};
fn best(mut f: impl FnMut()) -> Duration {
    let mut b = Duration::from_secs(9);
    for _ in 0..400 {
        let t = Instant::now();
        for _ in 0..2000 { f(); }
        b = b.min(t.elapsed());
    }
    b
}
'''
BIG = "enum Big { %s }" % ", ".join("V%d" % i for i in range(128))
BIGQ = "enum Big { Q(bool), %s }" % ", ".join("V%d" % i for i in range(200))
SERDE = ', features = ["serde"]'
DEPS = 'serde = { version = "1", features = ["derive"] }\nbincode = "1"'
SEEDS = [
 dict(id="c29-set-walk", property="C29",
  edits=[(U, "                self.data & to_bits(value) != 0\n", '''                let mask = to_bits(value);
                let mut rest = self.data;

                while rest != 0 {
                    let next = rest & rest.wrapping_neg();

                    if next == mask {
                        return true;
                    }

                    rest &= !next;
                }

                false
''')],
  needs="a bitset with many values in it, asked for one of the later ones",
  breaks="the set is walked through to find a value",
  demo='tell main.rs "" run --release\n',
  files={"main.rs": PRE + CLOCK + '''#[derive(Debug, Clone, Copy, PartialEq, Eq, Key)]
#[key(bitset)]
''' + BIG + '''
fn main() {
    let mut few: Set<Big> = Set::new();
    few.insert(Big::V127);
    let mut many: Set<Big> = Set::from_raw(u128::MAX);
    let a = best(|| { black_box(black_box(&few).contains(black_box(Big::V127))); });
    let b = best(|| { black_box(black_box(&many).contains(black_box(Big::V127))); });
    println!("{a:?} {b:?}");
    assert!(b < a * 8, "{a:?} {b:?}");
}
'''}),
 dict(id="c29-composite-remove", property="C29",
  edits=[(A, '''            fn remove(&mut self, value: #ident) -> #option<V> {
                match value {''', '''            fn remove(&mut self, value: #ident) -> #option<V> {
                // Nothing to do.
                if <Self as #map_storage_t<#ident, V>>::is_empty(self) {
                    return #option::None;
                }

                match value {''')],
  needs="removing from a map over a composite key with many composite variants none of which is stored",
  breaks="every slot before the first entry is looked at",
  main=PRE + '''
use fixed_map::map::{Entry, MapStorage};
use std::cell::Cell;
thread_local!(static N: Cell<u32> = Cell::new(0));
/// A key like bool whose storage counts how often it is looked at.
#[derive(Debug, Clone, Copy, PartialEq, Eq)]
struct Seen(bool);
type B<V> = <bool as Key>::MapStorage<V>;
struct Counting<V>(B<V>);
impl<V: Clone> Clone for Counting<V> { fn clone(&self) -> Self { Counting(self.0.clone()) } }
impl<V: Copy> Copy for Counting<V> {}
impl<V: PartialEq> PartialEq for Counting<V> { fn eq(&self, o: &Self) -> bool { self.0 == o.0 } }
impl<V: Eq> Eq for Counting<V> {}
impl<V> MapStorage<Seen, V> for Counting<V> {
    type Iter<'a> = std::iter::Map<<B<V> as MapStorage<bool, V>>::Iter<'a>, fn((bool, &'a V)) -> (Seen, &'a V)> where V: 'a;
    type Keys<'a> = std::iter::Map<<B<V> as MapStorage<bool, V>>::Keys<'a>, fn(bool) -> Seen> where V: 'a;
    type Values<'a> = <B<V> as MapStorage<bool, V>>::Values<'a> where V: 'a;
    type IterMut<'a> = std::iter::Map<<B<V> as MapStorage<bool, V>>::IterMut<'a>, fn((bool, &'a mut V)) -> (Seen, &'a mut V)> where V: 'a;
    type ValuesMut<'a> = <B<V> as MapStorage<bool, V>>::ValuesMut<'a> where V: 'a;
    type IntoIter = std::iter::Map<<B<V> as MapStorage<bool, V>>::IntoIter, fn((bool, V)) -> (Seen, V)>;
    type Occupied<'a> = O<'a, V> where V: 'a;
    type Vacant<'a> = W<'a, V> where V: 'a;
    fn empty() -> Self { Counting(B::<V>::empty()) }
    fn len(&self) -> usize { N.with(|n| n.set(n.get() + 1)); self.0.len() }
    fn is_empty(&self) -> bool { N.with(|n| n.set(n.get() + 1)); self.0.is_empty() }
    fn insert(&mut self, k: Seen, v: V) -> Option<V> { self.0.insert(k.0, v) }
    fn contains_key(&self, k: Seen) -> bool { N.with(|n| n.set(n.get() + 1)); self.0.contains_key(k.0) }
    fn get(&self, k: Seen) -> Option<&V> { N.with(|n| n.set(n.get() + 1)); self.0.get(k.0) }
    fn get_mut(&mut self, k: Seen) -> Option<&mut V> { self.0.get_mut(k.0) }
    fn remove(&mut self, k: Seen) -> Option<V> { self.0.remove(k.0) }
    fn retain<F: FnMut(Seen, &mut V) -> bool>(&mut self, mut f: F) { self.0.retain(|k, v| f(Seen(k), v)) }
    fn clear(&mut self) { self.0.clear() }
    fn iter(&self) -> Self::Iter<'_> { N.with(|n| n.set(n.get() + 1)); self.0.iter().map(|(k, v)| (Seen(k), v)) }
    fn keys(&self) -> Self::Keys<'_> { self.0.keys().map(|k| Seen(k)) }
    fn values(&self) -> Self::Values<'_> { self.0.values() }
    fn iter_mut(&mut self) -> Self::IterMut<'_> { self.0.iter_mut().map(|(k, v)| (Seen(k), v)) }
    fn values_mut(&mut self) -> Self::ValuesMut<'_> { self.0.values_mut() }
    fn into_iter(self) -> Self::IntoIter { MapStorage::into_iter(self.0).map(|(k, v)| (Seen(k), v)) }
    fn entry(&mut self, k: Seen) -> Entry<'_, Self, Seen, V> {
        match self.0.entry(k.0) { Entry::Occupied(e) => Entry::Occupied(O(e)), Entry::Vacant(e) => Entry::Vacant(W(e)) }
    }
}
struct O<'a, V: 'a>(<B<V> as MapStorage<bool, V>>::Occupied<'a>);
struct W<'a, V: 'a>(<B<V> as MapStorage<bool, V>>::Vacant<'a>);
use fixed_map::map::{OccupiedEntry, VacantEntry};
impl<'a, V> OccupiedEntry<'a, Seen, V> for O<'a, V> {
    fn key(&self) -> Seen { Seen(self.0.key()) }
    fn get(&self) -> &V { self.0.get() }
    fn get_mut(&mut self) -> &mut V { self.0.get_mut() }
    fn into_mut(self) -> &'a mut V { self.0.into_mut() }
    fn insert(&mut self, v: V) -> V { self.0.insert(v) }
    fn remove(self) -> V { self.0.remove() }
}
impl<'a, V> VacantEntry<'a, Seen, V> for W<'a, V> {
    fn key(&self) -> Seen { Seen(self.0.key()) }
    fn insert(self, v: V) -> &'a mut V { self.0.insert(v) }
}
impl Key for Seen {
    type MapStorage<V> = Counting<V>;
    type SetStorage = Never;
}
#[derive(Clone, Copy, PartialEq, Eq)]
struct Never;
impl fixed_map::set::SetStorage<Seen> for Never {
    type Iter<'a> = std::iter::Empty<Seen>;
    type IntoIter = std::iter::Empty<Seen>;
    fn empty() -> Self { Never }
    fn len(&self) -> usize { 0 }
    fn is_empty(&self) -> bool { true }
    fn insert(&mut self, _: Seen) -> bool { false }
    fn contains(&self, _: Seen) -> bool { false }
    fn remove(&mut self, _: Seen) -> bool { false }
    fn retain<F: FnMut(Seen) -> bool>(&mut self, _: F) {}
    fn clear(&mut self) {}
    fn iter(&self) -> Self::Iter<'_> { std::iter::empty() }
    fn into_iter(self) -> Self::IntoIter { std::iter::empty() }
}
#[derive(Clone, Copy, Key)]
enum Many { A(Seen), B(Seen), C(Seen), D(Seen), E(Seen), F(Seen), Last }
fn looks(k: Many) -> u32 {
    let mut m: Map<Many, u32> = Map::new();
    m.insert(k, 1);
    N.with(|n| n.set(0));
    m.remove(Many::Last);
    N.with(|n| n.get())
}
fn main() {
    assert_eq!(looks(Many::Last), looks(Many::A(Seen(true))));
}
'''),
 dict(id="c29-entry-count", property="C29",
  edits=[("src/map/storage/option.rs", '''            None => match OptionBucket::new(&mut self.none) {
                OptionBucket::Some(some)''', '''            None if self.some.len() == usize::MAX => unreachable!(),
            None => match OptionBucket::new(&mut self.none) {
                OptionBucket::Some(some)''')],
  needs="the entry of None in a map over Option of a big key",
  breaks="the other entries are counted on the way",
  demo='tell main.rs "" run --release\n',
  skip=True,
  files={"main.rs": ""}),
 dict(id="c30-any", property="C30",
  edits=[("src/map.rs", "        deserializer.deserialize_map(MapVisitor(core::marker::PhantomData))", "        deserializer.deserialize_any(MapVisitor(core::marker::PhantomData))")],
  needs="a format that does not describe itself",
  breaks="a map can be written but not read back",
  features=SERDE, deps=DEPS,
  main=PRE + '''fn main() {
    let mut m: Map<Option<bool>, u32> = Map::new();
    m.insert(None, 1);
    m.insert(Some(true), 2);
    let b = bincode::serialize(&m).unwrap();
    let n: Map<Option<bool>, u32> = bincode::deserialize(&b).unwrap();
    assert!(m == n);
}
'''),
 dict(id="c30-empty-len", property="C30",
  edits=[("src/set.rs", "let mut seq = serializer.serialize_seq(Some(self.len()))?;", "let mut seq = serializer.serialize_seq(self.iter().next().map(|_| self.len()))?;")],
  needs="an empty set and a format that writes lengths",
  breaks="an empty set cannot be written",
  features=SERDE, deps=DEPS,
  main=PRE + '''fn main() {
    let mut m: Set<Option<bool>> = Set::new();
    let b = bincode::serialize(&m).unwrap();
    let n: Set<Option<bool>> = bincode::deserialize(&b).unwrap();
    assert!(m == n);
}
'''),
 dict(id="c30-early-end", property="C30",
  edits=[("src/map.rs", '''                while let Some((key, value)) = visitor.next_entry()? {
                    map.insert(key, value);
                }

                Ok(map)''', '''                let end = visitor.size_hint();

                while end != Some(map.len()) {
                    let Some((key, value)) = visitor.next_entry()? else {
                        break;
                    };

                    map.insert(key, value);
                }

                Ok(map)''')],
  needs="a format whose size hint counts the end marker or is too small",
  breaks="entries after the hinted number are lost",
  features=SERDE, deps=DEPS,
  main=PRE + '''
use serde::de::{value::{Error, MapDeserializer, U32Deserializer}, *};
struct Low<'a>(std::slice::Iter<'a, (bool, u32)>, Option<u32>);
impl<'de, 'a> MapAccess<'de> for Low<'a> {
    type Error = Error;
    fn next_key_seed<K: DeserializeSeed<'de>>(&mut self, seed: K) -> Result<Option<K::Value>, Error> {
        match self.0.next() {
            None => Ok(None),
            Some((k, v)) => { self.1 = Some(*v); seed.deserialize(k.into_deserializer()).map(Some) }
        }
    }
    fn next_value_seed<V: DeserializeSeed<'de>>(&mut self, seed: V) -> Result<V::Value, Error> {
        seed.deserialize(self.1.take().unwrap().into_deserializer())
    }
    fn size_hint(&self) -> Option<usize> { Some(1) }
}
struct D<'a>(&'a [(bool, u32)]);
impl<'de, 'a> Deserializer<'de> for D<'a> {
    type Error = Error;
    fn deserialize_any<V: Visitor<'de>>(self, v: V) -> Result<V::Value, Error> { v.visit_map(Low(self.0.iter(), None)) }
    serde::forward_to_deserialize_any! { bool i8 i16 i32 i64 u8 u16 u32 u64 f32 f64 char str string bytes byte_buf option unit unit_struct newtype_struct seq tuple tuple_struct map struct enum identifier ignored_any }
}
fn main() {
    let m: Map<bool, u32> = Map::deserialize(D(&[(true, 1), (false, 2)])).unwrap();
    assert_eq!(m.len(), 2);
}
use serde::Deserialize;
'''),
 dict(id="c17-from-first", property="C17",
  edits=[("src/map.rs", '''        let mut map = Self::new();
        for (k, v) in iter {
            map.insert(k, v);
        }
        map
    }
}

#[cfg(feature = "serde")]''', '''        let mut map = Self::new();
        for (k, v) in iter {
            *map.entry(k).or_insert(v) = v;
        }
        map
    }
}

#[cfg(feature = "serde")]''')],
  skip=True, needs="", breaks=""),
 dict(id="c12-empty-mask", property="C12",
  edits=[(U, "    let (ty, _) = determine_bits(cx, en)?;\n", "    let (ty, bits) = determine_bits(cx, en)?;\n    let spare = (bits - en.variants.len()) as u32;\n"),
         (U, "                #set_storage { data: data & (0 #(| #numbers)*) }", "                #set_storage { data: data & <#ty>::wrapping_shr(<#ty>::MAX, #spare) }")],
  needs="a bitset over a key enum without variants, made from a raw value that is not zero",
  breaks="the shift wraps and the set claims to have values",
  main=PRE + '''
#[derive(Debug, Clone, Copy, PartialEq, Eq, Key)]
#[key(bitset)]
enum Never {}
#[derive(Debug, Clone, Copy, PartialEq, Eq, Key)]
#[key(bitset)]
enum Three { A, B, C }
fn main() {
    assert_eq!(Set::<Three>::from_raw(0xff).as_raw(), 7);
    let s = Set::<Never>::from_raw(0xff);
    assert!(s.is_empty());
    assert_eq!(s.len(), 0);
}
'''),
 dict(id="c04-composite-hint", property="C04",
  edits=[(A, '''            type Item = (#ident, V);

            #[inline]
            fn next(&mut self) -> Option<Self::Item> {
                #step_forward
                #option::None
            }
''', '''            type Item = (#ident, V);

            #[inline]
            fn next(&mut self) -> Option<Self::Item> {
                #step_forward
                #option::None
            }

            #[inline]
            fn size_hint(&self) -> (usize, #option<usize>) {
                (0, #option::Some(self.end.wrapping_sub(self.start)))
            }
''')],
  needs="the size hint of a map over a composite key taken apart, with several entries under one variant",
  breaks="more entries come than the hint allows",
  main=PRE + '''fn main() {
    let mut m: Map<Mix, u32> = Map::new();
    for k in [Mix::P, Mix::Q(true), Mix::Q(false), Mix::R, Mix::S(None), Mix::S(Some(U::A)), Mix::T(())] { m.insert(k, 1); }
    let i = m.into_iter();
    let (_, hi) = i.size_hint();
    assert!(hi.map_or(true, |h| i.count() <= h));
}
'''),
 dict(id="c18-strict-dup", property="C18",
  edits=[("src/map.rs", '''                while let Some((key, value)) = visitor.next_entry()? {
                    map.insert(key, value);
                }
''', '''                while let Some((key, value)) = visitor.next_entry()? {
                    if map.insert(key, value).is_some() {
                        return Err(serde::de::Error::custom("key given twice"));
                    }
                }
''')],
  needs="input with a key given twice",
  breaks="such input is refused instead of the last entry counting",
  features=SERDE, deps='serde = "1"\nserde_json = "1"',
  main=PRE + '''
use serde::de::{value::{Error, MapDeserializer}, *};
use serde::Deserialize;
fn main() {
    let v = vec![(true, 1u32), (false, 2), (true, 3)];
    let d: MapDeserializer<'_, _, Error> = MapDeserializer::new(v.into_iter());
    let m: Map<bool, u32> = Map::deserialize(d).unwrap();
    assert_eq!(m.get(true), Some(&3));
}
'''),
 dict(id="c05-wide-retain", property="C05",
  edits=[(U, '''                #(if let #option::Some(val) = #option::as_mut(#names) {
                    if !func(#ident::#variants, val) {
                        *#names = None;
                    }
                })*
''', '''                // Ask first, and let go of what is not wanted when nothing can
                // go wrong any longer.
                let mut gone = 0u64;

                #(if let #option::Some(val) = #option::as_mut(#names) {
                    if !func(#ident::#variants, val) {
                        gone |= u64::wrapping_shl(1, #ident::#variants as u32);
                    }
                })*

                #(if gone & u64::wrapping_shl(1, #ident::#variants as u32) != 0 {
                    *#names = None;
                })*
''')],
  needs="a unit key enum with discriminants 64 apart, or more than 64 variants",
  breaks="an entry goes because another one was not wanted",
  main=PRE + '''
#[derive(Debug, Clone, Copy, PartialEq, Eq, Key)]
enum W { A = 1, B = 65, C = 2 }
fn main() {
    let mut m: Map<W, u32> = Map::new();
    m.insert(W::A, 1);
    m.insert(W::B, 2);
    m.insert(W::C, 3);
    m.retain(|k, _| k != W::A);
    assert_eq!(m.len(), 2);
    assert!(m.contains_key(W::B));
}
'''),
 dict(id="c26-option-tag", property="C26",
  edits=[("src/set/storage/option.rs", '''    some: T::SetStorage,
    none: bool,
}

impl<T> Clone''', '''    some: T::SetStorage,
    none: bool,
    // Keeps the flag in a word of its own.
    _align: [u32; 0],
}

impl<T> Clone''')],
  multi=False, skip=True, needs="", breaks=""),
 dict(id="c13-smaller", property="C13",
  edits=[], skip=True, needs="", breaks=""),
 dict(id="c25-const-pattern", property="C25",
  edits=[(U, 'names.push(format_ident!("_{}", index));', 'names.push(format_ident!("V{}", index));')],
  needs="deriving where constants with plain names such as V0 are in scope",
  breaks="the generated patterns mean the constants, and do not compile",
  demo='tell main.rs "" build\n',
  files={"main.rs": PRE + '''const V0: u32 = 1;
const V1: u32 = 2;
static V2: u32 = 2;
#[derive(Debug, Clone, Copy, PartialEq, Eq, Key)]
enum X { A, B, C }
fn main() {
    let mut m: Map<X, u32> = Map::new();
    m.insert(X::A, V0 + V1 + V2);
}
'''}),
 dict(id="c20-clear-forget", property="C20",
  edits=[(U, '''            fn clear(&mut self) {
                self.data = [#(#init),*];
            }

            #[inline]
            fn iter(&self) -> Self::Iter<'_> {
                let [#(#names),*] = &self.data;
                #iterator_t::flat_map(''', '''            fn clear(&mut self) {
                // Values are let go of one by one, in order.
                let [#(#names),*] = &mut self.data;
                #(if let #option::Some(value) = #mem::take(#names) {
                    if !#mem::needs_drop::<#option<V>>() || #mem::size_of::<V>() == 0 {
                        #mem::forget(value);
                    }
                })*
            }

            #[inline]
            fn iter(&self) -> Self::Iter<'_> {
                let [#(#names),*] = &self.data;
                #iterator_t::flat_map(''')],
  needs="clearing a map whose values take no room but do something when dropped",
  breaks="such values are never dropped",
  main=PRE + '''
use std::cell::Cell;
thread_local!(static N: Cell<u32> = Cell::new(0));
struct Z;
impl Drop for Z { fn drop(&mut self) { N.with(|n| n.set(n.get() + 1)); } }
fn main() {
    let mut m: Map<U, Z> = Map::new();
    m.insert(U::A, Z);
    m.insert(U::C, Z);
    m.clear();
    assert_eq!(N.with(|n| n.get()), 2);
}
'''),
 dict(id="c16-clone-from-skip", property="C16",
  edits=[("src/map/storage/option.rs", '''            some: self.some.clone(),
            none: self.none.clone(),
        }
    }
''', '''            some: self.some.clone(),
            none: self.none.clone(),
        }
    }

    #[inline]
    fn clone_from(&mut self, source: &Self) {
        self.some.clone_from(&source.some);

        match (&mut self.none, &source.none) {
            (Some(value), Some(source)) => value.clone_from(source),
            (none, source) => {
                if source.is_some() {
                    *none = source.clone();
                }
            }
        }
    }
''')],
  needs="clone_from of an Option-keyed storage without None into one which has it",
  breaks="None stays",
  main=PRE + '''
type S = <Option<U> as Key>::MapStorage<u32>;
use fixed_map::map::MapStorage;
fn main() {
    let mut a: S = MapStorage::empty();
    let mut b: S = MapStorage::empty();
    a.insert(None, 1);
    a.insert(Some(U::A), 1);
    b.insert(Some(U::B), 2);
    a.clone_from(&b);
    assert_eq!(MapStorage::get(&a, None), None);
    assert_eq!(MapStorage::len(&a), 1);
}
'''),
 dict(id="c28-storage-copy", property="C28",
  edits=[(A, "impl<V> #copy_t for", "impl<V> #copy_t for")], skip=True, needs="", breaks=""),
]
SEEDS = [s for s in SEEDS if not s.get("skip")]
