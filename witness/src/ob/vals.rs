//! The map properties again, for values of every size class: nothing a map
//! does may depend on how large its values are, whether they have a niche, or
//! whether they need dropping.
use crate::h::*;
use fixed_map::map::{Entry, OccupiedEntry, VacantEntry};
use fixed_map::Map;

pub trait Vt: Sized + Clone + PartialEq {
    fn mk(n: u32) -> Self;
    fn is(&self, n: u32) -> bool;
}
impl Vt for () {
    fn mk(_: u32) {}
    fn is(&self, _: u32) -> bool {
        true
    }
}
impl Vt for u8 {
    fn mk(n: u32) -> u8 {
        (n % 256) as u8
    }
    fn is(&self, n: u32) -> bool {
        *self == (n % 256) as u8
    }
}
impl Vt for bool {
    fn mk(n: u32) -> bool {
        n % 2 == 1
    }
    fn is(&self, n: u32) -> bool {
        *self == (n % 2 == 1)
    }
}
impl Vt for u64 {
    fn mk(n: u32) -> u64 {
        n as u64 | 1 << 40
    }
    fn is(&self, n: u32) -> bool {
        *self == (n as u64 | 1 << 40)
    }
}
/// A value which itself has an absent form.
pub type Opt = Option<u32>;
impl Vt for Opt {
    fn mk(n: u32) -> Opt {
        if n % 2 == 0 {
            None
        } else {
            Some(n)
        }
    }
    fn is(&self, n: u32) -> bool {
        match self {
            None => n % 2 == 0,
            Some(v) => (n % 2 == 1) & (*v == n),
        }
    }
}
/// 48 bytes.
pub type Big = (u32, [u64; 4], u8);
impl Vt for Big {
    fn mk(n: u32) -> Big {
        (n, [n as u64 + 1, n as u64 + 2, n as u64 + 3, n as u64 + 4], 9)
    }
    fn is(&self, n: u32) -> bool {
        let m = n as u64;
        (self.0 == n) & (self.1[0] == m + 1) & (self.1[1] == m + 2) & (self.1[2] == m + 3) & (self.1[3] == m + 4) & (self.2 == 9)
    }
}
/// 64 bytes, over-aligned.
#[derive(Clone, PartialEq)]
#[repr(align(64))]
pub struct Wide(u32);
impl Vt for Wide {
    fn mk(n: u32) -> Wide {
        Wide(n)
    }
    fn is(&self, n: u32) -> bool {
        self.0 == n
    }
}
/// Needs dropping.
#[derive(Clone, PartialEq)]
pub struct Dr(u32);
impl Drop for Dr {
    fn drop(&mut self) {
        ck(self.0 != 0, "a value is dropped once");
        self.0 = 0;
    }
}
impl Vt for Dr {
    fn mk(n: u32) -> Dr {
        Dr(n)
    }
    fn is(&self, n: u32) -> bool {
        self.0 == n
    }
}
/// Large and needs dropping.
#[derive(Clone, PartialEq)]
pub struct DrBig(Dr, [u64; 5]);
impl Vt for DrBig {
    fn mk(n: u32) -> DrBig {
        DrBig(Dr(n), [n as u64; 5])
    }
    fn is(&self, n: u32) -> bool {
        (self.0 .0 == n) & (self.1[4] == n as u64)
    }
}

fn mapv<S: Shape, V: Vt>(r: usize, k: usize) -> Map<S, V> {
    let mut m = Map::new();
    let mut i = 0;
    while i < S::N {
        if at(i, k) {
            m.insert(S::key(i), V::mk(val(i)));
            gs::<S>(r, i, val(i));
        }
        i += 1;
    }
    m
}
fn eqv<V: Vt>(o: Option<&V>, c: u32) -> bool {
    match o {
        Some(v) => (c != 0) & v.is(c),
        None => c == 0,
    }
}
fn eqo<V: Vt>(o: Option<V>, c: u32) -> bool {
    let r = match &o {
        Some(v) => (c != 0) & v.is(c),
        None => c == 0,
    };
    r
}
fn holds<S: Shape, V: Vt>(m: &Map<S, V>, r: usize, w: &'static str) {
    let mut i = 0;
    while i < S::N {
        ck(eqv(m.get(S::key(i)), g::<S>(r, i)), w);
        i += 1;
    }
    ck(m.len() == count::<S>(r), w);
}
macro_rules! types {
    ($f:ident, $($s:ident)*; $($h:ident)*) => {
        pub mod $f {
            $(pub mod $s {
                types!(@ $f, $s; unit (), byte u8, flag bool, word u64, opt Opt, big Big, wide Wide, dr Dr, drbig DrBig);
            })*
            $(#[cfg(feature = "hash")] #[allow(unused)] pub mod $h {
                types!(@ $f, $h; unit (), byte u8, big Big, dr Dr);
            })*
        }
    };
    (@ $f:ident, $s:ident; $($n:ident $t:ty),*) => {
        use super::super::super::*;
        $(pub fn $n() { $f::<$crate::shapes::$s, $t>() })*
    };
}
#[allow(unused_macros)]
macro_rules! over_ordered {
    ($($f:ident)*) => {
        #[allow(non_snake_case)]
        pub mod each {
            $(types!($f, ; U3 OptU2 Bool Unit OptOptBool Twice);)*
        }
    };
}
macro_rules! over {
    ($($f:ident)*) => {
        #[allow(non_snake_case)]
        pub mod each {
            $(types!($f, U3 OptU2 Bool Unit OptOptBool Mix Twice; Num OptNum);)*
        }
    };
}

#[cfg(any(p_c01, p_all))]
pub mod c01 {
    use super::*;
    pub fn history<S: Shape, V: Vt>() {
        let mut m = mapv::<S, V>(A, 0);
        holds(&m, A, "get gives the value last stored");
        let mut i = 0;
        while i < S::N {
            let (key, old) = (S::key(i), g::<S>(A, i));
            let new = 1001 + 3 * i as u32;
            if at(i, 2) {
                ck(eqo(m.insert(key, V::mk(new)), old), "insert returns the value it replaced");
                gs::<S>(A, i, new);
            } else if at(i, 3) {
                ck(eqo(m.remove(key), old), "remove returns the value it took out");
                gs::<S>(A, i, 0);
            } else {
                match m.get_mut(key) {
                    Some(v) => {
                        ck((old != 0) & v.is(old), "get_mut gives the stored value");
                        *v = V::mk(new + 100);
                        gs::<S>(A, i, new + 100);
                    }
                    None => ck(old == 0, "get_mut finds a stored key"),
                }
            }
            i += 1;
        }
        holds(&m, A, "get gives the value last stored");
    }
    over! { history }
}
#[cfg(any(p_c02, p_all))]
pub mod c02 {
    use super::*;
    pub fn sizes<S: Shape, V: Vt>() {
        let mut m = mapv::<S, V>(A, 0);
        ck(m.len() == count::<S>(A), "len is the number of stored keys");
        ck(m.is_empty() == (count::<S>(A) == 0), "is_empty is true exactly when nothing is stored");
        m.clear();
        clear::<S>(A);
        ck(m.is_empty(), "is_empty is true exactly when nothing is stored");
        holds(&m, A, "clear removes every entry");
        m.insert(S::key(0), V::mk(5));
        gs::<S>(A, 0, 5);
        ck(!m.is_empty(), "is_empty is true exactly when nothing is stored");
        holds(&m, A, "a cleared map works like a new one");
    }
    over! { sizes }
}
fn walk<S: Shape, V: Vt, X>(mut it: impl Iterator<Item = X>, f: impl Fn(&X) -> (Option<usize>, &V)) {
    clear::<S>(SEEN);
    let mut last = 0;
    let mut n = 0;
    loop {
        let x = it.next();
        match &x {
            Some(x) => {
                let (i, v) = f(x);
                n += 1;
                match i {
                    Some(i) => {
                        ck(i < S::N, "only stored entries are yielded");
                        ck(g::<S>(A, i) != 0, "only stored entries are yielded");
                        ck(v.is(val(i)), "a key is yielded with its own value");
                        ck(g::<S>(SEEN, i) == 0, "no entry is yielded twice");
                        ck(S::rank(i) + 1 > last, "entries come in declaration order");
                        gs::<S>(SEEN, i, 1);
                        last = S::rank(i);
                    }
                    None => {}
                }
            }
            None => break,
        }
    }
    ck(n == count::<S>(A), "every stored entry is yielded");
}
#[cfg(any(p_c03, p_all))]
pub mod c03 {
    use super::*;
    pub fn shared<S: Shape, V: Vt>() {
        let m = mapv::<S, V>(A, 0);
        walk::<S, V, _>(m.iter(), |(k, v)| (Some(k.idx()), *v));
        walk::<S, V, _>(m.values(), |v| (None, *v));
    }
    pub fn mutable<S: Shape, V: Vt>() {
        let mut m = mapv::<S, V>(A, 0);
        walk::<S, V, _>(m.iter_mut(), |(k, v)| (Some(k.idx()), &**v));
        walk::<S, V, _>(m.values_mut(), |v| (None, &**v));
        for (k, v) in m.iter_mut() {
            *v = V::mk(val(k.idx()) + 500);
        }
        let mut i = 0;
        while i < S::N {
            let a = g::<S>(A, i);
            ck(eqv(m.get(S::key(i)), if a == 0 { 0 } else { a + 500 }), "a yielded mutable reference is to the key's own value");
            i += 1;
        }
    }
    pub fn owned<S: Shape, V: Vt>() {
        let m = mapv::<S, V>(A, 0);
        walk::<S, V, _>(m.into_iter(), |(k, v)| (Some(k.idx()), v));
    }
    over! { shared mutable owned }
}
#[cfg(any(p_c04, p_all))]
pub mod c04 {
    use super::*;
    fn ends<S: Shape, X>(mut it: impl DoubleEndedIterator<Item = X>, k: usize, ix: impl Fn(&X, u32) -> bool) {
        clear::<S>(SEEN);
        let mut left = count::<S>(A);
        let mut s = 0;
        while s <= S::N {
            let (lo, hi) = it.size_hint();
            ck(lo <= left, "the lower size bound is not above what is left");
            match hi {
                Some(u) => ck(left <= u, "the upper size bound is not below what is left"),
                None => {}
            }
            let front = at(s, k);
            let x = if front { it.next() } else { it.next_back() };
            match &x {
                Some(x) => {
                    ck(left != 0, "only stored entries are yielded");
                    // the first (or last) entry not yet seen
                    let mut j = 0;
                    let mut done = false;
                    while j < S::N {
                        let i = if front { j } else { S::N - 1 - j };
                        if !done & (g::<S>(A, i) != 0) & (g::<S>(SEEN, i) == 0) {
                            done = true;
                            gs::<S>(SEEN, i, 1);
                            ck(ix(x, val(i)), "front and back steps yield the next entry from their end");
                        }
                        j += 1;
                    }
                    left -= 1;
                }
                None => ck(left == 0, "every stored entry is yielded"),
            }
            s += 1;
        }
        ck(left == 0, "every stored entry is yielded");
    }
    pub fn iter<S: Shape, V: Vt>()
    where
        for<'a> fixed_map::map::Iter<'a, S, V>: DoubleEndedIterator,
    {
        let m = mapv::<S, V>(A, 0);
        ends::<S, _>(m.iter(), 2, |(k, v), n| (val(k.idx()) == n) & v.is(n));
    }
    pub fn values<S: Shape, V: Vt>()
    where
        for<'a> fixed_map::map::Values<'a, S, V>: DoubleEndedIterator,
    {
        let m = mapv::<S, V>(A, 0);
        ends::<S, _>(m.values(), 2, |v, n| v.is(n));
    }
    pub fn iter_mut<S: Shape, V: Vt>()
    where
        for<'a> fixed_map::map::IterMut<'a, S, V>: DoubleEndedIterator,
    {
        let mut m = mapv::<S, V>(A, 0);
        ends::<S, _>(m.iter_mut(), 2, |(k, v), n| (val(k.idx()) == n) & v.is(n));
    }
    pub fn into_iter<S: Shape, V: Vt>()
    where
        fixed_map::map::IntoIter<S, V>: DoubleEndedIterator,
    {
        let m = mapv::<S, V>(A, 0);
        ends::<S, _>(m.into_iter(), 2, |(k, v), n| (val(k.idx()) == n) & v.is(n));
    }
    over_ordered! { iter values iter_mut into_iter }
}
#[cfg(any(p_c05, p_all))]
pub mod c05 {
    use super::*;
    pub fn retain<S: Shape, V: Vt>() {
        let mut m = mapv::<S, V>(A, 0);
        clear::<S>(CALLS);
        m.retain(|k, v| {
            let i = k.idx();
            ck(g::<S>(A, i) != 0, "the predicate is asked about stored entries only");
            ck(g::<S>(CALLS, i) == 0, "the predicate is asked once per entry");
            ck(v.is(g::<S>(A, i)), "the predicate gets the key's own value");
            gs::<S>(CALLS, i, 1);
            if at(i, 3) {
                *v = V::mk(5001 + i as u32);
                gs::<S>(A, i, 5001 + i as u32);
            }
            at(i, 2)
        });
        let mut i = 0;
        while i < S::N {
            ck((g::<S>(CALLS, i) == 1) == (g::<S>(A, i) != 0), "the predicate is asked about every stored entry");
            if !at(i, 2) {
                gs::<S>(A, i, 0);
            }
            i += 1;
        }
        holds(&m, A, "exactly the accepted entries remain, with the predicate's changes");
    }
    over! { retain }
}
#[cfg(any(p_c06, p_all))]
pub mod c06 {
    use super::*;
    pub fn entry<S: Shape, V: Vt>() {
        let mut q = 0;
        while q < S::N {
            clear::<S>(A);
            let mut m = mapv::<S, V>(A, 0);
            match m.entry(S::key(q)) {
                Entry::Occupied(mut o) => {
                    let a = g::<S>(A, q);
                    ck(a != 0, "an entry is occupied exactly when its key is stored");
                    ck(o.key().idx() == q, "an occupied entry reports its key");
                    ck(o.get().is(a), "an occupied entry reads its key's value");
                    ck(o.insert(V::mk(7001)).is(a), "replacing through an entry returns the old value");
                    ck(o.get().is(7001), "an occupied entry reads its key's value");
                    ck(o.get_mut().is(7001), "an occupied entry reads its key's value");
                    *o.get_mut() = V::mk(7004);
                    ck(o.get().is(7004), "writing through an occupied entry writes its key's value");
                    if at(q, 2) {
                        ck(o.remove().is(7004), "removing through an entry returns the value");
                        gs::<S>(A, q, 0);
                    } else {
                        ck(o.into_mut().is(7004), "an occupied entry turns into a reference to its key's value");
                        gs::<S>(A, q, 7004);
                    }
                }
                Entry::Vacant(v) => {
                    ck(g::<S>(A, q) == 0, "an entry is occupied exactly when its key is stored");
                    ck(v.key().idx() == q, "a vacant entry reports its key");
                    let r = v.insert(V::mk(7002));
                    ck(r.is(7002), "inserting through a vacant entry gives a reference to the value");
                    *r = V::mk(7003);
                    gs::<S>(A, q, 7003);
                }
            }
            holds(&m, A, "only the entry's own key changes");
            q += 1;
        }
    }
    over! { entry }
}
#[cfg(any(p_c07, p_all))]
pub mod c07 {
    use super::*;
    fn ran() {
        crate::fm::ghost_set(4000, crate::fm::ghost_get(4000) + 1);
    }
    macro_rules! comb {
        ($name:ident, $occ:expr, $vac:expr, $want:ident, $w:expr, $e:ident, $d:expr) => {
            pub fn $name<S: Shape, V: Vt>() {
                let mut q = 0;
                while q < S::N {
                    clear::<S>(A);
                    let mut m = mapv::<S, V>(A, 0);
                    let a = g::<S>(A, q);
                    crate::fm::ghost_set(4000, 0);
                    {
                        let $e = m.entry(S::key(q));
                        let r: &mut V = $d;
                        let $want = a;
                        ck(r.is(if a != 0 { $w } else { 77 }), "an occupied entry keeps its value and a vacant one gets the default");
                        *r = V::mk(8001);
                    }
                    let n = crate::fm::ghost_get(4000) as usize;
                    ck(n == if a != 0 { $occ } else { $vac }, "callbacks run exactly when due");
                    gs::<S>(A, q, 8001);
                    holds(&m, A, "only the entry's own key changes");
                    q += 1;
                }
            }
        };
    }
    comb!(or_insert, 0, 0, a, a, e, e.or_insert(V::mk(77)));
    comb!(or_insert_with, 0, 1, a, a, e, e.or_insert_with(|| {
        ran();
        V::mk(77)
    }));
    comb!(or_insert_with_key, 0, 1, a, a, e, e.or_insert_with_key(|k| {
        let _ = k.idx();
        ran();
        V::mk(77)
    }));
    comb!(and_modify, 1, 0, a, 5000 + a, e, {
        let mut n = 0;
        let k = e.key().idx();
        e.and_modify(|v| {
            ck(v.is(val(k)), "and_modify gets the key's own value");
            n += 1;
            ran();
            *v = V::mk(5000 + val(k));
        })
        .or_insert_with(|| V::mk(77))
    });
    over! { or_insert or_insert_with or_insert_with_key and_modify }
}

#[cfg(any(p_c14, p_all))]
pub mod c14 {
    use super::*;
    pub fn eq<S: Shape, V: Vt>()
    where
        S::MapStorage<V>: PartialEq,
    {
        let a = mapv::<S, V>(A, 0);
        let mut b = Map::new();
        let mut same = true;
        let mut i = 0;
        while i < S::N {
            let mut c = 0;
            if at(i, 1) {
                c = val(i) + if at(i, 2) { 1 } else { 0 };
                b.insert(S::key(i), V::mk(c));
            }
            let w = g::<S>(A, i);
            same = same & if (c == 0) | (w == 0) { c == w } else { V::mk(c).is(w) };
            i += 1;
        }
        ck((a == b) == same, "maps are equal exactly when their content is");
        ck((b == a) == same, "equality is symmetric");
        ck((a != b) != same, "!= is the opposite of ==");
    }
    over! { eq }
}
#[cfg(any(p_c16, p_all))]
pub mod c16 {
    use super::*;
    pub fn clone<S: Shape, V: Vt>()
    where
        S::MapStorage<V>: Clone,
    {
        let mut a = mapv::<S, V>(A, 0);
        let b = a.clone();
        holds(&a, A, "a clone has the same content");
        holds(&b, A, "a clone has the same content");
        let mut c = mapv::<S, V>(B, 1);
        c.clone_from(&a);
        holds(&c, A, "cloning into a map leaves exactly the source's content");
        a.clear();
        holds(&b, A, "a clone is independent");
        holds(&c, A, "a clone is independent");
    }
    over! { clone }
}
#[cfg(any(p_c17, p_all))]
pub mod c17 {
    use super::*;
    struct Src<S, V>(usize, usize, core::marker::PhantomData<(S, V)>);
    impl<S: Shape, V: Vt> Iterator for Src<S, V> {
        type Item = (S, V);
        fn next(&mut self) -> Option<(S, V)> {
            while self.1 < 2 {
                while self.0 < S::N {
                    let (i, p) = (self.0, self.1);
                    self.0 += 1;
                    if at(i, 4 + p) {
                        let v = val(i) + 1000 * p as u32;
                        gs::<S>(A, i, v);
                        return Some((S::key(i), V::mk(v)));
                    }
                }
                self.0 = 0;
                self.1 += 1;
            }
            None
        }
    }
    pub fn collect<S: Shape, V: Vt>() {
        clear::<S>(A);
        let m: Map<S, V> = Src::<S, V>(0, 0, core::marker::PhantomData).collect();
        holds(&m, A, "collecting equals inserting one after another");
    }
    over! { collect }
}
/// A value of any size which is born, dropped or handed back exactly once.
#[cfg(any(p_c20, p_all))]
pub mod c20 {
    use super::*;
    use crate::fm;
    use core::marker::PhantomData;
    pub struct Tok<S: Shape, P: Copy> {
        id: u32,
        _p: P,
        s: PhantomData<S>,
    }
    fn life<S: Shape>(id: usize) -> u32 {
        fm::ghost_get(8 * S::N + id)
    }
    fn set_life<S: Shape>(id: usize, v: u32) {
        fm::ghost_set(8 * S::N + id, v)
    }
    impl<S: Shape, P: Copy> Drop for Tok<S, P> {
        fn drop(&mut self) {
            ck(life::<S>(self.id as usize) != 2, "no value is dropped twice");
            ck(life::<S>(self.id as usize) == 1, "only stored values are dropped");
            set_life::<S>(self.id as usize, 2);
        }
    }
    pub trait Pay: Copy {
        fn mk() -> Self;
    }
    impl Pay for u64 {
        fn mk() -> Self {
            1
        }
    }
    impl Pay for [u64; 6] {
        fn mk() -> Self {
            [1; 6]
        }
    }
    /// One token under every picked key; its id is `base + i`.
    fn born<S: Shape, P: Pay>(id: usize) -> Tok<S, P> {
        ck(life::<S>(id) == 0, "no value is duplicated");
        set_life::<S>(id, 1);
        Tok { id: id as u32, _p: P::mk(), s: PhantomData }
    }
    fn start<S: Shape, P: Pay>() -> Map<S, Tok<S, P>> {
        let mut i = 0;
        while i < 4 * S::N {
            set_life::<S>(i, 0);
            i += 1;
        }
        clear::<S>(A);
        let mut m = Map::new();
        let mut i = 0;
        while i < S::N {
            if at(i, 0) {
                m.insert(S::key(i), born(i));
                gs::<S>(A, i, 1);
            }
            i += 1;
        }
        m
    }
    fn all<S: Shape>(w: u32, text: &'static str) {
        let mut i = 0;
        while i < 4 * S::N {
            ck((life::<S>(i) == 0) | (life::<S>(i) == w), text);
            i += 1;
        }
    }
    fn alive<S: Shape, P: Pay>(m: &Map<S, Tok<S, P>>) {
        let mut i = 0;
        while i < S::N {
            match m.get(S::key(i)) {
                Some(t) => ck(life::<S>(t.id as usize) == 1, "no stored value is dropped early"),
                None => {}
            }
            i += 1;
        }
    }
    const GONE: &str = "every value is dropped in the end";
    pub fn update<S: Shape, P: Pay>() {
        let mut m = start::<S, P>();
        let mut i = 0;
        while i < S::N {
            let had = g::<S>(A, i) != 0;
            if at(i, 2) {
                let r = m.insert(S::key(i), born(S::N + i));
                match &r {
                    Some(t) => {
                        ck(had, "the value handed back is the one that was stored");
                        ck(t.id as usize == i, "the value handed back is the one that was stored");
                        ck(life::<S>(i) == 1, "a value handed back has not been dropped");
                    }
                    None => ck(!had, "no value is lost or swapped"),
                }
                drop(r);
            } else if at(i, 3) {
                let r = m.remove(S::key(i));
                match &r {
                    Some(t) => ck((t.id as usize == i) & (life::<S>(i) == 1), "a value handed back has not been dropped"),
                    None => ck(!had, "no value is lost or swapped"),
                }
            } else {
                match m.entry(S::key(i)) {
                    Entry::Occupied(mut o) => {
                        let t = o.insert(born(2 * S::N + i));
                        ck((t.id as usize == i) & (life::<S>(i) == 1), "a value handed back has not been dropped");
                        if at(i, 4) {
                            let t = o.remove();
                            ck(t.id as usize == 2 * S::N + i, "the value handed back is the one that was stored");
                            ck(life::<S>(2 * S::N + i) == 1, "a value handed back has not been dropped");
                        }
                    }
                    Entry::Vacant(v) => {
                        v.insert(born(3 * S::N + i));
                    }
                }
            }
            i += 1;
        }
        alive(&m);
        drop(m);
        all::<S>(2, GONE);
    }
    pub fn retain<S: Shape, P: Pay>() {
        let mut m = start::<S, P>();
        m.retain(|k, t| {
            ck(life::<S>(t.id as usize) == 1, "no stored value is dropped early");
            at(k.idx(), 2)
        });
        alive(&m);
        let mut i = 0;
        while i < S::N {
            let want = if g::<S>(A, i) == 0 {
                0
            } else if at(i, 2) {
                1
            } else {
                2
            };
            ck(life::<S>(i) == want, "exactly the rejected values are dropped");
            i += 1;
        }
        m.clear();
        all::<S>(2, "clear drops every value");
    }
    pub fn owned<S: Shape, P: Pay>() {
        let m = start::<S, P>();
        let mut it = m.into_iter();
        let mut i = 0;
        while i < S::N {
            if at(i, 2) {
                match it.next() {
                    Some((_, t)) => ck(life::<S>(t.id as usize) == 1, "a value handed back has not been dropped"),
                    None => break,
                }
            }
            i += 1;
        }
        drop(it);
        all::<S>(2, GONE);
    }
    macro_rules! over_p {
        ($($f:ident)*) => {
            #[allow(non_snake_case)]
            pub mod each {
                $(pub mod $f {
                    over_p!(@ $f; U3 OptU2 Bool Unit OptOptBool Mix Twice);
                    #[cfg(feature = "hash")]
                    over_p!(@ $f; Num);
                })*
            }
        };
        (@ $f:ident; $($s:ident)*) => {
            $(pub mod $s {
                use super::super::super::*;
                pub fn small() { $f::<$crate::shapes::$s, u64>() }
                pub fn big() { $f::<$crate::shapes::$s, [u64; 6]>() }
            })*
        };
    }
    over_p! { update retain owned }
}
