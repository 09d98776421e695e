//! A model of the part of hashbrown's interface fixed-map is built on: an
//! unordered finite map/set with room for four keys, told apart by their
//! hash (the identity on small integers).  It stands in for the real crate
//! while fixed-map is analysed; hashbrown itself is trusted (see DESIGN.md).
#![no_std]
#![allow(clippy::all)]

use core::hash::{BuildHasher, Hash, Hasher};

/// Four keys, or (for maps with a crowd of keys in them) a few hundred.
pub const CAP: usize = if option_env!("FM_CROWD").is_some() { 320 } else { 4 };

/// The analysis cannot decide what happens past this point.
#[inline(never)]
pub fn undecided() -> ! {
    loop {}
}

#[derive(Clone, Copy, Default)]
pub struct Builder;
pub struct Ident(u64);
impl Hasher for Ident {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, _: &[u8]) {
        undecided()
    }
    fn write_u8(&mut self, i: u8) {
        self.0 += i as u64;
    }
    fn write_u32(&mut self, i: u32) {
        self.0 += i as u64;
    }
    fn write_u64(&mut self, i: u64) {
        self.0 += i;
    }
    fn write_usize(&mut self, i: usize) {
        self.0 += i as u64;
    }
    fn write_isize(&mut self, i: isize) {
        self.0 += i as u64;
    }
}
impl BuildHasher for Builder {
    type Hasher = Ident;
    fn build_hasher(&self) -> Ident {
        Ident(0)
    }
}
fn slot<K: Hash>(k: &K) -> usize {
    let mut h = Ident(0);
    k.hash(&mut h);
    // A fixed scramble, so that nothing can rely on the order.
    let s = h.0 as usize;
    if CAP > 4 {
        if s >= CAP {
            undecided()
        }
        // (seven has no divisor in common with the room there is)
        return (s * 7 + 2) % CAP;
    }
    if s == 0 {
        2
    } else if s == 1 {
        0
    } else if s == 2 {
        3
    } else if s == 3 {
        1
    } else {
        undecided()
    }
}

pub mod hash_map {
    use super::*;
    pub type DefaultHashBuilder = super::Builder;
    pub use super::map::*;
}
pub mod hash_set {
    pub use super::set::*;
}
pub use self::hash_map::HashMap;
pub use self::hash_set::HashSet;

mod map {
    use super::*;
    use core::marker::PhantomData;

    pub struct HashMap<K, V, S = Builder> {
        slots: [Option<(K, V)>; CAP],
        marker: PhantomData<S>,
    }
    impl<K: Clone, V: Clone, S> Clone for HashMap<K, V, S> {
        fn clone(&self) -> Self {
            HashMap { slots: self.slots.clone(), marker: PhantomData }
        }
    }
    impl<K, V, S> Default for HashMap<K, V, S> {
        fn default() -> Self {
            HashMap { slots: [const { None }; CAP], marker: PhantomData }
        }
    }
    impl<K: Eq + Hash, V: PartialEq, S> PartialEq for HashMap<K, V, S> {
        fn eq(&self, other: &Self) -> bool {
            if self.len() != other.len() {
                return false;
            }
            let mut i = 0;
            while i < CAP {
                if let Some((k, v)) = &self.slots[i] {
                    match other.get(k) {
                        Some(w) => {
                            if !(*v == *w) {
                                return false;
                            }
                        }
                        None => return false,
                    }
                }
                i += 1;
            }
            true
        }
    }
    impl<K: Eq + Hash, V: Eq, S> Eq for HashMap<K, V, S> {}
    impl<K: core::fmt::Debug, V: core::fmt::Debug, S> core::fmt::Debug for HashMap<K, V, S> {
        fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result {
            f.debug_map().entries(self.iter()).finish()
        }
    }
    impl<K, V> HashMap<K, V, Builder> {
        pub const fn new() -> Self {
            HashMap { slots: [const { None }; CAP], marker: PhantomData }
        }
        pub fn with_capacity(_: usize) -> Self {
            Self::new()
        }
    }
    impl<K, V, S> HashMap<K, V, S> {
        pub fn len(&self) -> usize {
            let mut n = 0;
            let mut i = 0;
            while i < CAP {
                n += self.slots[i].is_some() as usize;
                i += 1;
            }
            n
        }
        pub fn capacity(&self) -> usize {
            CAP
        }
        pub fn is_empty(&self) -> bool {
            self.len() == 0
        }
        pub fn clear(&mut self) {
            let mut i = 0;
            while i < CAP {
                self.slots[i] = None;
                i += 1;
            }
        }
        pub fn iter(&self) -> Iter<'_, K, V> {
            Iter { slots: &self.slots, at: 0, left: self.len() }
        }
        pub fn iter_mut(&mut self) -> IterMut<'_, K, V> {
            let left = self.len();
            IterMut { slots: self.slots.iter_mut(), left }
        }
        pub fn keys(&self) -> Keys<'_, K, V> {
            Keys { inner: self.iter() }
        }
        pub fn values(&self) -> Values<'_, K, V> {
            Values { inner: self.iter() }
        }
        pub fn values_mut(&mut self) -> ValuesMut<'_, K, V> {
            ValuesMut { inner: self.iter_mut() }
        }
        pub fn into_keys(self) -> IntoKeys<K, V> {
            IntoKeys { inner: self.into_iter() }
        }
        pub fn into_values(self) -> IntoValues<K, V> {
            IntoValues { inner: self.into_iter() }
        }
        pub const fn with_hasher(_: S) -> Self
        where
            S: Copy,
        {
            HashMap { slots: [const { None }; CAP], marker: PhantomData }
        }
        pub fn with_capacity_and_hasher(_: usize, _: S) -> Self {
            Self::default()
        }
        pub fn retain<F>(&mut self, mut f: F)
        where
            F: FnMut(&K, &mut V) -> bool,
        {
            let mut i = 0;
            while i < CAP {
                let keep = match &mut self.slots[i] {
                    Some((k, v)) => f(k, v),
                    None => true,
                };
                if !keep {
                    self.slots[i] = None;
                }
                i += 1;
            }
        }
        pub fn drain(&mut self) -> Drain<'_, K, V> {
            Drain { inner: core::mem::take(self).into_iter(), marker: PhantomData }
        }
    }
    impl<K: Eq + Hash, V, S> HashMap<K, V, S> {
        fn find(&self, k: &K) -> usize {
            let i = slot(k);
            if let Some((q, _)) = &self.slots[i] {
                if !(*q == *k) {
                    undecided()
                }
            }
            i
        }
        pub fn reserve(&mut self, _: usize) {}
        pub fn shrink_to_fit(&mut self) {}
        pub fn shrink_to(&mut self, _: usize) {}
        pub fn get_key_value_mut(&mut self, k: &K) -> Option<(&K, &mut V)> {
            let i = self.find(k);
            match &mut self.slots[i] {
                Some((k, v)) => Some((k, v)),
                None => None,
            }
        }
        pub fn entry_ref(&mut self, k: &K) -> Entry<'_, K, V, S>
        where
            K: Clone,
        {
            self.entry(k.clone())
        }
        pub fn insert_unique_unchecked(&mut self, k: K, v: V) -> (&K, &mut V) {
            let i = self.find(&k);
            match &self.slots[i] {
                Some(_) => undecided(),
                None => {
                    self.slots[i] = Some((k, v));
                    match &mut self.slots[i] {
                        Some((k, v)) => (k, v),
                        None => undecided(),
                    }
                }
            }
        }
        pub fn insert(&mut self, k: K, v: V) -> Option<V> {
            let i = self.find(&k);
            match &mut self.slots[i] {
                Some((_, w)) => Some(core::mem::replace(w, v)),
                s => {
                    *s = Some((k, v));
                    None
                }
            }
        }
        pub fn contains_key(&self, k: &K) -> bool {
            let i = self.find(k);
            self.slots[i].is_some()
        }
        pub fn get(&self, k: &K) -> Option<&V> {
            let i = self.find(k);
            match &self.slots[i] {
                Some((_, v)) => Some(v),
                None => None,
            }
        }
        pub fn get_key_value(&self, k: &K) -> Option<(&K, &V)> {
            let i = self.find(k);
            match &self.slots[i] {
                Some((k, v)) => Some((k, v)),
                None => None,
            }
        }
        pub fn get_mut(&mut self, k: &K) -> Option<&mut V> {
            let i = self.find(k);
            match &mut self.slots[i] {
                Some((_, v)) => Some(v),
                None => None,
            }
        }
        pub fn remove(&mut self, k: &K) -> Option<V> {
            match self.remove_entry(k) {
                Some((_, v)) => Some(v),
                None => None,
            }
        }
        pub fn remove_entry(&mut self, k: &K) -> Option<(K, V)> {
            let i = self.find(k);
            self.slots[i].take()
        }
        pub fn entry(&mut self, k: K) -> Entry<'_, K, V, S> {
            let i = self.find(&k);
            let s = &mut self.slots[i];
            if s.is_some() {
                Entry::Occupied(OccupiedEntry { slot: s, marker: PhantomData })
            } else {
                Entry::Vacant(VacantEntry { slot: s, key: k, marker: PhantomData })
            }
        }
    }
    impl<'a, K: Eq + Hash + Copy, V: Copy, S> Extend<(&'a K, &'a V)> for HashMap<K, V, S> {
        fn extend<I: IntoIterator<Item = (&'a K, &'a V)>>(&mut self, it: I) {
            for (k, v) in it {
                self.insert(*k, *v);
            }
        }
    }
    impl<K: Eq + Hash, V, S> core::ops::Index<&K> for HashMap<K, V, S> {
        type Output = V;
        fn index(&self, k: &K) -> &V {
            self.get(k).expect("no entry found for key")
        }
    }
    impl<K: Eq + Hash, V, S> Extend<(K, V)> for HashMap<K, V, S> {
        fn extend<I: IntoIterator<Item = (K, V)>>(&mut self, it: I) {
            for (k, v) in it {
                self.insert(k, v);
            }
        }
    }
    impl<K: Eq + Hash, V> FromIterator<(K, V)> for HashMap<K, V, Builder> {
        fn from_iter<I: IntoIterator<Item = (K, V)>>(it: I) -> Self {
            let mut m = HashMap::new();
            m.extend(it);
            m
        }
    }
    impl<K, V, S> IntoIterator for HashMap<K, V, S> {
        type Item = (K, V);
        type IntoIter = IntoIter<K, V>;
        fn into_iter(self) -> IntoIter<K, V> {
            let left = self.len();
            IntoIter { slots: self.slots, at: 0, left }
        }
    }
    impl<'a, K, V, S> IntoIterator for &'a HashMap<K, V, S> {
        type Item = (&'a K, &'a V);
        type IntoIter = Iter<'a, K, V>;
        fn into_iter(self) -> Iter<'a, K, V> {
            self.iter()
        }
    }
    impl<'a, K, V, S> IntoIterator for &'a mut HashMap<K, V, S> {
        type Item = (&'a K, &'a mut V);
        type IntoIter = IterMut<'a, K, V>;
        fn into_iter(self) -> IterMut<'a, K, V> {
            self.iter_mut()
        }
    }

    pub struct Iter<'a, K, V> {
        slots: &'a [Option<(K, V)>; CAP],
        at: usize,
        left: usize,
    }
    impl<K, V> Clone for Iter<'_, K, V> {
        fn clone(&self) -> Self {
            Iter { slots: self.slots, at: self.at, left: self.left }
        }
    }
    impl<'a, K, V> Iterator for Iter<'a, K, V> {
        type Item = (&'a K, &'a V);
        fn next(&mut self) -> Option<(&'a K, &'a V)> {
            while self.at < CAP {
                let i = self.at;
                self.at += 1;
                if let Some((k, v)) = &self.slots[i] {
                    self.left -= 1;
                    return Some((k, v));
                }
            }
            None
        }
        fn size_hint(&self) -> (usize, Option<usize>) {
            (self.left, Some(self.left))
        }
    }
    impl<K, V> ExactSizeIterator for Iter<'_, K, V> {}
    impl<K, V> core::iter::FusedIterator for Iter<'_, K, V> {}

    pub struct IterMut<'a, K, V> {
        slots: core::slice::IterMut<'a, Option<(K, V)>>,
        left: usize,
    }
    impl<'a, K, V> Iterator for IterMut<'a, K, V> {
        type Item = (&'a K, &'a mut V);
        fn next(&mut self) -> Option<(&'a K, &'a mut V)> {
            while let Some(s) = self.slots.next() {
                if let Some((k, v)) = s {
                    self.left -= 1;
                    return Some((k, v));
                }
            }
            None
        }
        fn size_hint(&self) -> (usize, Option<usize>) {
            (self.left, Some(self.left))
        }
    }
    impl<K, V> ExactSizeIterator for IterMut<'_, K, V> {}
    impl<K, V> core::iter::FusedIterator for IterMut<'_, K, V> {}

    pub struct Keys<'a, K, V> {
        inner: Iter<'a, K, V>,
    }
    impl<K, V> Clone for Keys<'_, K, V> {
        fn clone(&self) -> Self {
            Keys { inner: self.inner.clone() }
        }
    }
    impl<'a, K, V> Iterator for Keys<'a, K, V> {
        type Item = &'a K;
        fn next(&mut self) -> Option<&'a K> {
            match self.inner.next() {
                Some((k, _)) => Some(k),
                None => None,
            }
        }
        fn size_hint(&self) -> (usize, Option<usize>) {
            self.inner.size_hint()
        }
    }
    impl<K, V> ExactSizeIterator for Keys<'_, K, V> {}
    impl<K, V> core::iter::FusedIterator for Keys<'_, K, V> {}

    pub struct Values<'a, K, V> {
        inner: Iter<'a, K, V>,
    }
    impl<K, V> Clone for Values<'_, K, V> {
        fn clone(&self) -> Self {
            Values { inner: self.inner.clone() }
        }
    }
    impl<'a, K, V> Iterator for Values<'a, K, V> {
        type Item = &'a V;
        fn next(&mut self) -> Option<&'a V> {
            match self.inner.next() {
                Some((_, v)) => Some(v),
                None => None,
            }
        }
        fn size_hint(&self) -> (usize, Option<usize>) {
            self.inner.size_hint()
        }
    }
    impl<K, V> ExactSizeIterator for Values<'_, K, V> {}
    impl<K, V> core::iter::FusedIterator for Values<'_, K, V> {}

    pub struct ValuesMut<'a, K, V> {
        inner: IterMut<'a, K, V>,
    }
    impl<'a, K, V> Iterator for ValuesMut<'a, K, V> {
        type Item = &'a mut V;
        fn next(&mut self) -> Option<&'a mut V> {
            match self.inner.next() {
                Some((_, v)) => Some(v),
                None => None,
            }
        }
        fn size_hint(&self) -> (usize, Option<usize>) {
            self.inner.size_hint()
        }
    }
    impl<K, V> ExactSizeIterator for ValuesMut<'_, K, V> {}
    impl<K, V> core::iter::FusedIterator for ValuesMut<'_, K, V> {}

    pub struct IntoIter<K, V> {
        slots: [Option<(K, V)>; CAP],
        at: usize,
        left: usize,
    }
    impl<K, V> Iterator for IntoIter<K, V> {
        type Item = (K, V);
        fn next(&mut self) -> Option<(K, V)> {
            while self.at < CAP {
                let i = self.at;
                self.at += 1;
                if let Some(kv) = self.slots[i].take() {
                    self.left -= 1;
                    return Some(kv);
                }
            }
            None
        }
        fn size_hint(&self) -> (usize, Option<usize>) {
            (self.left, Some(self.left))
        }
    }
    impl<K, V> ExactSizeIterator for IntoIter<K, V> {}
    impl<K, V> core::iter::FusedIterator for IntoIter<K, V> {}

    macro_rules! wrap {
        ($n:ident $o:ty, $p:pat => $e:expr) => {
            pub struct $n<K, V> {
                inner: IntoIter<K, V>,
            }
            impl<K, V> Iterator for $n<K, V> {
                type Item = $o;
                fn next(&mut self) -> Option<$o> {
                    match self.inner.next() {
                        Some($p) => Some($e),
                        None => None,
                    }
                }
                fn size_hint(&self) -> (usize, Option<usize>) {
                    self.inner.size_hint()
                }
            }
            impl<K, V> ExactSizeIterator for $n<K, V> {}
            impl<K, V> core::iter::FusedIterator for $n<K, V> {}
        };
    }
    wrap!(IntoKeys K, (k, _) => k);
    wrap!(IntoValues V, (_, v) => v);
    pub struct Drain<'a, K, V> {
        inner: IntoIter<K, V>,
        marker: PhantomData<&'a mut (K, V)>,
    }
    impl<K, V> Iterator for Drain<'_, K, V> {
        type Item = (K, V);
        fn next(&mut self) -> Option<(K, V)> {
            self.inner.next()
        }
        fn size_hint(&self) -> (usize, Option<usize>) {
            self.inner.size_hint()
        }
    }
    impl<K, V> ExactSizeIterator for Drain<'_, K, V> {}
    impl<K, V> core::iter::FusedIterator for Drain<'_, K, V> {}

    impl<'a, K, V, S> Entry<'a, K, V, S> {
        pub fn insert(self, value: V) -> OccupiedEntry<'a, K, V, S>
        where
            K: Hash,
        {
            match self {
                Entry::Occupied(mut e) => {
                    e.insert(value);
                    e
                }
                Entry::Vacant(e) => e.insert_entry(value),
            }
        }
        pub fn or_insert(self, default: V) -> &'a mut V
        where
            K: Hash,
        {
            match self {
                Entry::Occupied(e) => e.into_mut(),
                Entry::Vacant(e) => e.insert(default),
            }
        }
        pub fn or_insert_with<F: FnOnce() -> V>(self, f: F) -> &'a mut V
        where
            K: Hash,
        {
            match self {
                Entry::Occupied(e) => e.into_mut(),
                Entry::Vacant(e) => e.insert(f()),
            }
        }
        pub fn or_insert_with_key<F: FnOnce(&K) -> V>(self, f: F) -> &'a mut V
        where
            K: Hash,
        {
            match self {
                Entry::Occupied(e) => e.into_mut(),
                Entry::Vacant(e) => {
                    let v = f(e.key());
                    e.insert(v)
                }
            }
        }
        pub fn or_default(self) -> &'a mut V
        where
            K: Hash,
            V: Default,
        {
            self.or_insert_with(V::default)
        }
        pub fn key(&self) -> &K {
            match self {
                Entry::Occupied(e) => e.key(),
                Entry::Vacant(e) => e.key(),
            }
        }
        pub fn and_modify<F: FnOnce(&mut V)>(self, f: F) -> Self {
            match self {
                Entry::Occupied(mut e) => {
                    f(e.get_mut());
                    Entry::Occupied(e)
                }
                e => e,
            }
        }
    }
    pub enum Entry<'a, K, V, S = Builder> {
        Occupied(OccupiedEntry<'a, K, V, S>),
        Vacant(VacantEntry<'a, K, V, S>),
    }
    pub struct OccupiedEntry<'a, K, V, S = Builder> {
        slot: &'a mut Option<(K, V)>,
        marker: PhantomData<S>,
    }
    pub struct VacantEntry<'a, K, V, S = Builder> {
        slot: &'a mut Option<(K, V)>,
        key: K,
        marker: PhantomData<S>,
    }
    impl<'a, K, V, S> OccupiedEntry<'a, K, V, S> {
        pub fn key(&self) -> &K {
            match &*self.slot {
                Some((k, _)) => k,
                None => undecided(),
            }
        }
        pub fn get(&self) -> &V {
            match &*self.slot {
                Some((_, v)) => v,
                None => undecided(),
            }
        }
        pub fn get_mut(&mut self) -> &mut V {
            match &mut *self.slot {
                Some((_, v)) => v,
                None => undecided(),
            }
        }
        pub fn into_mut(self) -> &'a mut V {
            match self.slot {
                Some((_, v)) => v,
                None => undecided(),
            }
        }
        pub fn insert(&mut self, value: V) -> V {
            core::mem::replace(self.get_mut(), value)
        }
        pub fn remove(self) -> V {
            self.remove_entry().1
        }
        pub fn remove_entry(self) -> (K, V) {
            match self.slot.take() {
                Some(kv) => kv,
                None => undecided(),
            }
        }
    }
    impl<'a, K, V, S> VacantEntry<'a, K, V, S> {
        pub fn key(&self) -> &K {
            &self.key
        }
        pub fn into_key(self) -> K {
            self.key
        }
        pub fn insert_entry(self, value: V) -> OccupiedEntry<'a, K, V, S>
        where
            K: Hash,
        {
            *self.slot = Some((self.key, value));
            OccupiedEntry { slot: self.slot, marker: PhantomData }
        }
        pub fn insert(self, value: V) -> &'a mut V
        where
            K: Hash,
        {
            *self.slot = Some((self.key, value));
            match self.slot {
                Some((_, v)) => v,
                None => undecided(),
            }
        }
    }
}

mod set {
    use super::*;
    pub struct HashSet<T, S = Builder> {
        map: super::map::HashMap<T, (), S>,
    }
    impl<T: Clone, S> Clone for HashSet<T, S> {
        fn clone(&self) -> Self {
            HashSet { map: self.map.clone() }
        }
    }
    impl<T, S> Default for HashSet<T, S> {
        fn default() -> Self {
            HashSet { map: super::map::HashMap::default() }
        }
    }
    impl<T: Eq + Hash, S> PartialEq for HashSet<T, S> {
        fn eq(&self, other: &Self) -> bool {
            self.map == other.map
        }
    }
    impl<T: Eq + Hash, S> Eq for HashSet<T, S> {}
    impl<T: core::fmt::Debug, S> core::fmt::Debug for HashSet<T, S> {
        fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result {
            f.debug_set().entries(self.iter()).finish()
        }
    }
    impl<T> HashSet<T, Builder> {
        pub fn new() -> Self {
            HashSet { map: super::map::HashMap::new() }
        }
        pub fn with_capacity(_: usize) -> Self {
            Self::new()
        }
    }
    impl<T, S> HashSet<T, S> {
        pub fn len(&self) -> usize {
            self.map.len()
        }
        pub fn is_empty(&self) -> bool {
            self.map.is_empty()
        }
        pub fn clear(&mut self) {
            self.map.clear()
        }
        pub fn iter(&self) -> Iter<'_, T> {
            Iter { inner: self.map.iter() }
        }
        pub fn retain<F>(&mut self, mut f: F)
        where
            F: FnMut(&T) -> bool,
        {
            self.map.retain(|k, _| f(k));
        }
        pub fn drain(&mut self) -> Drain<'_, T> {
            Drain { inner: self.map.drain() }
        }
        pub fn capacity(&self) -> usize {
            CAP
        }
        pub fn with_capacity_and_hasher(_: usize, _: S) -> Self {
            Self::default()
        }
        pub const fn with_hasher(s: S) -> Self
        where
            S: Copy,
        {
            HashSet { map: super::map::HashMap::with_hasher(s) }
        }
    }
    impl<T: Eq + Hash, S> HashSet<T, S> {
        pub fn reserve(&mut self, _: usize) {}
        pub fn insert(&mut self, value: T) -> bool {
            self.map.insert(value, ()).is_none()
        }
        pub fn replace(&mut self, value: T) -> Option<T> {
            let old = self.take(&value);
            self.insert(value);
            old
        }
        pub fn contains(&self, value: &T) -> bool {
            self.map.contains_key(value)
        }
        pub fn get(&self, value: &T) -> Option<&T> {
            match self.map.get_key_value(value) {
                Some((k, _)) => Some(k),
                None => None,
            }
        }
        pub fn remove(&mut self, value: &T) -> bool {
            self.map.remove(value).is_some()
        }
        pub fn shrink_to_fit(&mut self) {}
        pub fn get_or_insert(&mut self, value: T) -> &T
        where
            T: Copy,
        {
            if !self.contains(&value) {
                self.insert(value);
            }
            match self.get(&value) {
                Some(v) => v,
                None => undecided(),
            }
        }
        pub fn is_subset(&self, other: &Self) -> bool {
            self.iter().all(|v| other.contains(v))
        }
        pub fn is_superset(&self, other: &Self) -> bool {
            other.is_subset(self)
        }
        pub fn is_disjoint(&self, other: &Self) -> bool {
            !self.iter().any(|v| other.contains(v))
        }
        pub fn intersection<'a>(&'a self, other: &'a Self) -> impl Iterator<Item = &'a T> {
            self.iter().filter(move |v| other.contains(v))
        }
        pub fn difference<'a>(&'a self, other: &'a Self) -> impl Iterator<Item = &'a T> {
            self.iter().filter(move |v| !other.contains(v))
        }
        pub fn union<'a>(&'a self, other: &'a Self) -> impl Iterator<Item = &'a T> {
            self.iter().chain(other.difference(self))
        }
        pub fn symmetric_difference<'a>(&'a self, other: &'a Self) -> impl Iterator<Item = &'a T> {
            self.difference(other).chain(other.difference(self))
        }
        pub fn take(&mut self, value: &T) -> Option<T> {
            match self.map.remove_entry(value) {
                Some((k, _)) => Some(k),
                None => None,
            }
        }
    }
    impl<T: Eq + Hash, S> Extend<T> for HashSet<T, S> {
        fn extend<I: IntoIterator<Item = T>>(&mut self, it: I) {
            for v in it {
                self.insert(v);
            }
        }
    }
    impl<'a, T: Eq + Hash + Copy, S> Extend<&'a T> for HashSet<T, S> {
        fn extend<I: IntoIterator<Item = &'a T>>(&mut self, it: I) {
            for v in it {
                self.insert(*v);
            }
        }
    }
    impl<T: Eq + Hash> FromIterator<T> for HashSet<T, Builder> {
        fn from_iter<I: IntoIterator<Item = T>>(it: I) -> Self {
            let mut s = HashSet::new();
            s.extend(it);
            s
        }
    }
    pub struct Drain<'a, T> {
        inner: super::map::Drain<'a, T, ()>,
    }
    impl<T> Iterator for Drain<'_, T> {
        type Item = T;
        fn next(&mut self) -> Option<T> {
            match self.inner.next() {
                Some((k, _)) => Some(k),
                None => None,
            }
        }
        fn size_hint(&self) -> (usize, Option<usize>) {
            self.inner.size_hint()
        }
    }
    impl<T, S> IntoIterator for HashSet<T, S> {
        type Item = T;
        type IntoIter = IntoIter<T>;
        fn into_iter(self) -> IntoIter<T> {
            IntoIter { inner: self.map.into_iter() }
        }
    }
    impl<'a, T, S> IntoIterator for &'a HashSet<T, S> {
        type Item = &'a T;
        type IntoIter = Iter<'a, T>;
        fn into_iter(self) -> Iter<'a, T> {
            self.iter()
        }
    }
    pub struct Iter<'a, T> {
        inner: super::map::Iter<'a, T, ()>,
    }
    impl<T> Clone for Iter<'_, T> {
        fn clone(&self) -> Self {
            Iter { inner: self.inner.clone() }
        }
    }
    impl<'a, T> Iterator for Iter<'a, T> {
        type Item = &'a T;
        fn next(&mut self) -> Option<&'a T> {
            match self.inner.next() {
                Some((k, _)) => Some(k),
                None => None,
            }
        }
        fn size_hint(&self) -> (usize, Option<usize>) {
            self.inner.size_hint()
        }
    }
    impl<T> ExactSizeIterator for Iter<'_, T> {}
    impl<T> core::iter::FusedIterator for Iter<'_, T> {}
    pub struct IntoIter<T> {
        inner: super::map::IntoIter<T, ()>,
    }
    impl<T> Iterator for IntoIter<T> {
        type Item = T;
        fn next(&mut self) -> Option<T> {
            match self.inner.next() {
                Some((k, _)) => Some(k),
                None => None,
            }
        }
        fn size_hint(&self) -> (usize, Option<usize>) {
            self.inner.size_hint()
        }
    }
    impl<T> ExactSizeIterator for IntoIter<T> {}
    impl<T> core::iter::FusedIterator for IntoIter<T> {}
}
