//! C14: equality and hashing.
use crate::fm;
use crate::h::*;
use core::hash::{Hash, Hasher};
use fixed_map::map::MapStorage;
use fixed_map::set::SetStorage;
use fixed_map::{Map, Set};

/// A second map: own keys, and values that may differ from the first one's.
fn other<S: Shape>() -> Map<S, u32> {
    let mut b = Map::new();
    let mut i = 0;
    while i < S::N {
        if atc::<S>(i, 1) {
            let v = val(i) + if atc::<S>(i, 2) { 1000 } else { 0 };
            b.insert(S::key(i), v);
            gs::<S>(B, i, v);
        }
        i += 1;
    }
    b
}
fn same<S: Shape>() -> bool {
    let mut r = true;
    let mut i = 0;
    while i < S::N {
        r = r & (g::<S>(A, i) == g::<S>(B, i));
        i += 1;
    }
    r
}
fn map_eq<S: Shape>()
where
    S::MapStorage<u32>: PartialEq,
{
    let a = map::<S>(A, 0);
    let b = other::<S>();
    let w = same::<S>();
    ck((a == b) == w, "maps are equal exactly when their content is");
    ck((b == a) == w, "equality is symmetric");
    ck((a != b) != w, "!= is the opposite of ==");
    ck(a == a, "a map equals itself");
    agrees(&a, A, "comparing changes neither map");
    agrees(&b, B, "comparing changes neither map");
}
fn set_eq<S: Shape>()
where
    S::SetStorage: PartialEq,
{
    let a = set::<S>(A, 0);
    let b = set::<S>(B, 1);
    let w = same::<S>();
    ck((a == b) == w, "sets are equal exactly when their content is");
    ck((b == a) == w, "equality is symmetric");
    ck((a != b) != w, "!= is the opposite of ==");
    ck(a == a, "a set equals itself");
    set_agrees(&a, A, "comparing changes neither set");
    set_agrees(&b, B, "comparing changes neither set");
}
/// Bring a map into the content of region A the long way round.
fn detour<S: Shape>() -> Map<S, u32> {
    let mut m = Map::new();
    if at(0, 7) {
        let mut i = 0;
        while i < S::N {
            m.insert(S::key(i), 7u32);
            i += 1;
        }
        m.clear();
    }
    let mut n = S::N;
    while n > 0 {
        let i = n - 1;
        if atc::<S>(i, 3) {
            m.insert(S::key(i), 7);
        }
        n -= 1;
    }
    if at(1, 7) {
        m.retain(|k, _| !atc::<S>(k.idx(), 4));
    }
    let mut i = 0;
    while i < S::N {
        if g::<S>(A, i) != 0 {
            match m.get_mut(S::key(i)) {
                Some(v) => *v = g::<S>(A, i),
                None => {
                    m.insert(S::key(i), g::<S>(A, i));
                }
            }
        } else {
            m.remove(S::key(i));
        }
        i += 1;
    }
    m
}
fn set_detour<S: Shape>() -> Set<S> {
    let mut m = Set::new();
    if at(0, 7) {
        let mut i = 0;
        while i < S::N {
            m.insert(S::key(i));
            i += 1;
        }
        m.clear();
    }
    let mut n = S::N;
    while n > 0 {
        let i = n - 1;
        if atc::<S>(i, 3) {
            m.insert(S::key(i));
        }
        n -= 1;
    }
    if at(1, 7) {
        m.retain(|k| !atc::<S>(k.idx(), 4));
    }
    let mut i = 0;
    while i < S::N {
        if g::<S>(A, i) != 0 {
            m.insert(S::key(i));
        } else {
            m.remove(S::key(i));
        }
        i += 1;
    }
    m
}
fn map_history<S: Shape>()
where
    S::MapStorage<u32>: PartialEq,
{
    let a = map::<S>(A, 0);
    let b = detour::<S>();
    ck(a == b, "maps with equal content are equal however they came about");
    ck(!(a != b), "maps with equal content are equal however they came about");
}
fn set_history<S: Shape>()
where
    S::SetStorage: PartialEq,
{
    let a = set::<S>(A, 0);
    let b = set_detour::<S>();
    ck(a == b, "sets with equal content are equal however they came about");
    ck(!(a != b), "sets with equal content are equal however they came about");
}
/// A value with an equality of its own.
pub struct E(u32);
impl PartialEq for E {
    fn eq(&self, o: &E) -> bool {
        ck(self.0 == o.0, "values are compared with the same key's value only");
        at(self.0 as usize, 6)
    }
}
fn own_eq<S: Shape>()
where
    S::MapStorage<E>: PartialEq,
{
    let (mut a, mut b) = (Map::<S, E>::new(), Map::<S, E>::new());
    let mut w = true;
    let mut i = 0;
    while i < S::N {
        let (ha, hb) = (at(i, 0), at(i, 1));
        if ha {
            a.insert(S::key(i), E(i as u32));
        }
        if hb {
            b.insert(S::key(i), E(i as u32));
        }
        w = w & (ha == hb) & (!ha | at(i, 6));
        i += 1;
    }
    ck((a == b) == w, "values are compared by their own equality");
    ck((a != b) != w, "values are compared by their own equality");
    let mut w = true;
    let mut i = 0;
    while i < S::N {
        w = w & (!at(i, 0) | at(i, 6));
        i += 1;
    }
    ck((a == a) == w, "values are compared by their own equality, with a map itself too");
    ck((a != a) != w, "values are compared by their own equality, with a map itself too");
}

// ---- the storages themselves, which are as public ------------------------------
fn storage_eq<S: Shape>()
where
    S::MapStorage<u32>: PartialEq,
{
    let mut a = <S::MapStorage<u32> as MapStorage<S, u32>>::empty();
    let mut b = <S::MapStorage<u32> as MapStorage<S, u32>>::empty();
    let mut i = 0;
    while i < S::N {
        if at(i, 0) {
            a.insert(S::key(i), val(i));
            gs::<S>(A, i, val(i));
        }
        if at(i, 1) {
            let v = val(i) + if at(i, 2) { 1000 } else { 0 };
            b.insert(S::key(i), v);
            gs::<S>(B, i, v);
        }
        i += 1;
    }
    let w = same::<S>();
    ck((a == b) == w, "storages are equal exactly when their content is");
    ck((a != b) != w, "!= is the opposite of ==");
}
fn set_storage_eq<S: Shape>()
where
    S::SetStorage: PartialEq,
{
    let mut a = <S::SetStorage as SetStorage<S>>::empty();
    let mut b = <S::SetStorage as SetStorage<S>>::empty();
    let mut i = 0;
    while i < S::N {
        if at(i, 0) {
            a.insert(S::key(i));
            gs::<S>(A, i, 1);
        }
        if at(i, 1) {
            b.insert(S::key(i));
            gs::<S>(B, i, 1);
        }
        i += 1;
    }
    let w = same::<S>();
    ck((a == b) == w, "storages are equal exactly when their content is");
    ck((a != b) != w, "!= is the opposite of ==");
}

// ---- hashing ----------------------------------------------------------------
const ROOM: usize = 160;
/// Logs every write with its kind.
struct Log {
    base: usize,
    n: usize,
}
impl Log {
    fn put(&mut self, v: u32) {
        if self.n >= ROOM {
            fm::undecided();
        }
        fm::ghost_set(self.base + self.n, v);
        self.n += 1;
    }
}
impl Hasher for Log {
    fn finish(&self) -> u64 {
        0
    }
    fn write(&mut self, b: &[u8]) {
        self.put(1);
        let mut i = 0;
        while i < b.len() {
            self.put(256 + b[i] as u32);
            i += 1;
        }
    }
    fn write_u8(&mut self, i: u8) {
        self.put(2);
        self.put(i as u32);
    }
    fn write_u16(&mut self, i: u16) {
        self.put(3);
        self.put(i as u32);
    }
    fn write_u32(&mut self, i: u32) {
        self.put(4);
        self.put(i);
    }
    fn write_u64(&mut self, i: u64) {
        self.put(5);
        self.put(i as u32);
        self.put((i >> 32) as u32);
    }
    fn write_u128(&mut self, i: u128) {
        self.put(6);
        self.put(i as u32);
        self.put((i >> 32) as u32);
        self.put((i >> 64) as u32);
        self.put((i >> 96) as u32);
    }
    fn write_usize(&mut self, i: usize) {
        self.put(7);
        self.put(i as u32);
    }
    fn write_isize(&mut self, i: isize) {
        self.put(8);
        self.put(i as u32);
    }
}
fn logs<T: Hash>(a: &T, b: &T, base: usize) -> bool {
    let mut x = Log { base, n: 0 };
    let mut y = Log { base: base + ROOM, n: 0 };
    a.hash(&mut x);
    b.hash(&mut y);
    let mut r = x.n == y.n;
    let mut i = 0;
    while i < ROOM {
        // past the end a log is all zero
        r = r & (fm::ghost_get(base + i) == fm::ghost_get(base + ROOM + i));
        i += 1;
    }
    r
}
fn same_keys<S: Shape>() -> bool {
    let mut r = true;
    let mut i = 0;
    while i < S::N {
        r = r & ((g::<S>(A, i) != 0) == (g::<S>(B, i) != 0));
        i += 1;
    }
    r
}
fn map_hash<S: Shape>()
where
    S::MapStorage<u32>: Hash,
{
    let a = map::<S>(A, 0);
    let b = other::<S>();
    let e = logs(&a, &b, 8 * S::N);
    ck(!same::<S>() | e, "equal maps feed identical data to the hasher");
    ck(same_keys::<S>() | !e, "maps with different keys feed different data");
}
/// As above where all values look the same: which keys there are still shows.
fn map_hash_alike<S: Shape, V: Hash + Copy>(v: V)
where
    S::MapStorage<V>: Hash,
{
    let (mut a, mut b) = (Map::<S, V>::new(), Map::<S, V>::new());
    let mut i = 0;
    while i < S::N {
        if at(i, 0) {
            a.insert(S::key(i), v);
            gs::<S>(A, i, 1);
        }
        if at(i, 1) {
            b.insert(S::key(i), v);
            gs::<S>(B, i, 1);
        }
        i += 1;
    }
    let e = logs(&a, &b, 8 * S::N);
    ck(same::<S>() == e, "maps of like values feed identical data exactly when they have the same keys");
}
fn map_hash_const<S: Shape>()
where
    S::MapStorage<u32>: Hash,
{
    map_hash_alike::<S, u32>(0);
}
fn map_hash_unit<S: Shape>()
where
    S::MapStorage<()>: Hash,
{
    map_hash_alike::<S, ()>(());
}
fn set_hash<S: Shape>()
where
    S::SetStorage: Hash,
{
    let a = set::<S>(A, 0);
    let b = set::<S>(B, 1);
    let e = logs(&a, &b, 8 * S::N);
    ck(same::<S>() == e, "sets feed identical data exactly when they are equal");
}
fn map_hash_history<S: Shape>()
where
    S::MapStorage<u32>: Hash,
{
    let a = map::<S>(A, 0);
    let b = detour::<S>();
    ck(logs(&a, &b, 8 * S::N), "equal maps feed identical data to the hasher");
}
fn set_hash_history<S: Shape>()
where
    S::SetStorage: Hash,
{
    let a = set::<S>(A, 0);
    let b = set_detour::<S>();
    ck(logs(&a, &b, 8 * S::N), "equal sets feed identical data to the hasher");
}
each_small! {
    map_eq_: map_eq + [U8, U16, U33, B9];
    set_eq_: set_eq + [U8, U16, U33, B4, B6, B7, B8, B9, B16, B17, B33, B64, B65, B128];
}
each_tiny! {
    storage_eq_: storage_eq + [];
    set_storage_eq_: set_storage_eq + [B8, B9];
}
each_fixed! {
    own_eq_: own_eq + [U5, U8];
    map_history_: map_history + [U5, Mix, Ends, Deep];
    set_history_: set_history + [U5, B4, B5, B6, B7, B8, B9, Mix, Ends, Deep];
}
each! {
    histh: map_history [] hash [Num, OptNum, Hash1, SoloHash];
    sethisth: set_history [] hash [Num, OptNum, Hash1, SoloHash];
    ownh: own_eq [] hash [Num, OptNum, Hash1, SoloHash];
    map_hash_const_: map_hash_const [U0, U1, U2, U3, U4, Disc, B3];
    map_hash_unit_: map_hash_unit [U0, U1, U2, U3, U4, Disc, B3];
    map_hash_: map_hash [U0, U1, U2, U3, U4, Disc, B3];
    set_hash_: set_hash [U0, U1, U2, U3, U4, U5, U6, Disc, Unit, B0, B1, B2, B3, B4, B5, B6, B7, B8, B9, B16, B17, B33, B65, B128, DiscBit];
    map_hash_history_: map_hash_history [U0, U1, U2, U3, Disc, B3];
    set_hash_history_: set_hash_history [U0, U1, U2, U3, U4, U5, Disc, Unit, B0, B1, B2, B3, B4, B5, B6, B7, B8, B9, DiscBit];
}
#[cfg(all(crowd, thorough))]
each! {
    map_eq_crowd: map_eq [] hash [Crowd];
    set_eq_crowd: set_eq [] hash [Crowd];
}
