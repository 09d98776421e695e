//! Hashed storage with hundreds of keys in it, more than any fixed number a
//! storage might get away with: concrete contents, so that every step is exact.
#![allow(dead_code)]
use crate::h::*;
use crate::shapes::Crowd as S;
use fixed_map::map::Entry;
use fixed_map::{Map, Set};

const N: usize = <S as Shape>::N;

fn keep(i: usize, m: usize) -> bool {
    m == 0 || i % (m % 100) != 1 + m / 100
}
/// All keys, less every `m`th (as many others are left out by `m` and by `m + 100`).
fn full(m: usize) -> Map<S, u32> {
    let mut r = Map::new();
    let mut i = 0;
    while i < N {
        ck(r.insert(S::key(i), val(i)).is_none(), "inserting a new key returns nothing");
        i += 1;
    }
    let mut i = 0;
    while i < N {
        if !keep(i, m) {
            ck(r.remove(S::key(i)) == Some(val(i)), "removing returns the stored value");
        }
        i += 1;
    }
    r
}
fn full_set(m: usize) -> Set<S> {
    let mut r = Set::new();
    let mut i = 0;
    while i < N {
        ck(r.insert(S::key(i)), "inserting a new value returns true");
        i += 1;
    }
    let mut i = 0;
    while i < N {
        if !keep(i, m) {
            ck(r.remove(S::key(i)), "removing a stored value returns true");
        }
        i += 1;
    }
    r
}
fn total(m: usize) -> usize {
    let (mut n, mut i) = (0, 0);
    while i < N {
        n += keep(i, m) as usize;
        i += 1;
    }
    n
}
fn hint(h: (usize, Option<usize>), left: usize) {
    ck(h.0 <= left, "the lower bound of size_hint is no more than what is left");
    ck(match h.1 { Some(u) => u >= left, None => true }, "the upper bound of size_hint is no less than what is left");
}
fn tick(i: usize, v: u32, ok: bool) {
    ck(i < N && ok, "only stored entries are yielded");
    ck(g::<S>(SEEN, i) == 0, "no entry is yielded twice");
    ck(v == val(i), "a key is yielded with its own value");
    gs::<S>(SEEN, i, 1);
}
fn one<X: Item<S>>(x: &X, m: usize) {
    let i = x.ix();
    tick(i, x.v(), keep(i, m));
}
fn walk<I: Iterator>(mut it: I, m: usize, left: usize, hints: bool) where I::Item: Item<S> {
    clear::<S>(SEEN);
    let mut left = left;
    loop {
        if hints {
            hint(it.size_hint(), left);
        }
        match it.next() {
            Some(x) => {
                ck(left > 0, "no more entries than are stored come out");
                one(&x, m);
                left -= 1;
            }
            None => break,
        }
    }
    ck(left == 0, "every stored entry is yielded");
    ck(it.next().is_none(), "an exhausted iterator stays exhausted");
}
macro_rules! walks {
    ($m:ident, $hints:expr) => {
        pub fn iter() { walk(full($m).iter(), $m, total($m), $hints) }
        pub fn keys() { walk(full($m).keys().map(K), $m, total($m), $hints) }
        pub fn values() { walk(full($m).values(), $m, total($m), $hints) }
        pub fn iter_mut() { walk(full($m).iter_mut(), $m, total($m), $hints) }
        pub fn values_mut() { walk(full($m).values_mut(), $m, total($m), $hints) }
        pub fn into_iter() { walk(full($m).into_iter(), $m, total($m), $hints) }
    };
}
macro_rules! set_walks {
    ($m:ident) => {
        pub fn iter() { walk(full_set($m).iter().map(K), $m, total($m), true) }
        pub fn into_iter() { walk(full_set($m).into_iter().map(K), $m, total($m), true) }
    };
}
#[cfg(any(p_c03, p_all))]
pub mod c03 {
    pub mod full { use super::super::*; const M: usize = 0; walks!(M, false); }
    pub mod some { use super::super::*; const M: usize = 5; walks!(M, false); }
}
#[cfg(any(p_c04, p_all))]
pub mod c04 {
    pub mod full { use super::super::*; const M: usize = 0; walks!(M, true); }
    pub mod some { use super::super::*; const M: usize = 5; walks!(M, true); }
}
#[cfg(any(p_c10, p_all))]
pub mod c10 {
    pub mod full { use super::super::*; const M: usize = 0; set_walks!(M); }
    pub mod some { use super::super::*; const M: usize = 5; set_walks!(M); }
}
#[cfg(any(p_c06, p_all))]
pub mod c06 {
    use super::*;
    fn whole(m: &Map<S, u32>, f: impl Fn(usize) -> Option<u32>) {
        let (mut i, mut n) = (0, 0);
        while i < N {
            let w = f(i);
            n += w.is_some() as usize;
            ck(m.get(S::key(i)).copied() == w, "only the entry's own key changes");
            i += 1;
        }
        ck(m.len() == n, "only the entry's own key changes");
    }
    fn acts(q: usize) {
        let mut m = full(5);
        match m.entry(S::key(q)) {
            Entry::Occupied(mut o) => {
                ck(keep(q, 5), "an entry is occupied exactly when its key is stored");
                ck(o.insert(7000) == val(q), "replacing through an entry returns the old value");
            }
            Entry::Vacant(v) => {
                ck(!keep(q, 5), "an entry is occupied exactly when its key is stored");
                *v.insert(1) = 7000;
            }
        }
        whole(&m, |i| if i == q { Some(7000) } else if keep(i, 5) { Some(val(i)) } else { None });
        match m.entry(S::key(q)) {
            Entry::Occupied(o) => ck(o.remove() == 7000, "removing through an entry returns the value"),
            Entry::Vacant(_) => ck(false, "an entry is occupied exactly when its key is stored"),
        }
        whole(&m, |i| if i != q && keep(i, 5) { Some(val(i)) } else { None });
    }
    pub fn first() { acts(0) }
    pub fn vacant() { acts(N - 4) }
    pub fn last() { acts(N - 1) }
}
#[cfg(any(p_c13, p_all))]
pub mod c13 {
    use super::*;
    fn meet(p: usize, q: usize) {
        let (a, b) = (full_set(p), full_set(q));
        let (mut n, mut i) = (0, 0);
        while i < N {
            n += (keep(i, p) && keep(i, q)) as usize;
            i += 1;
        }
        clear::<S>(SEEN);
        let mut it = a.intersection(&b);
        let mut left = n;
        loop {
            hint(it.size_hint(), left);
            match it.next() {
                Some(k) => {
                    let i = k.idx();
                    ck(left > 0, "no more than the common values come out");
                    tick(i, val(i), i < N && keep(i, p) && keep(i, q));
                    left -= 1;
                }
                None => break,
            }
        }
        ck(left == 0, "every common value is yielded");
        ck(it.next().is_none(), "an exhausted iterator stays exhausted");
    }
    pub fn full_full() { meet(0, 0) }
    pub fn some_full() { meet(2, 0) }
    pub fn full_some() { meet(0, 3) }
    pub fn some_some() { meet(2, 3) }
}
fn kept(m: &Map<S, u32>, f: impl Fn(usize) -> bool) {
    let (mut i, mut n) = (0, 0);
    while i < N {
        let w = if f(i) { Some(val(i)) } else { None };
        n += w.is_some() as usize;
        ck(m.get(S::key(i)).copied() == w, "exactly the accepted entries are kept");
        i += 1;
    }
    ck(m.len() == n, "exactly the accepted entries are kept");
}
fn set_kept(m: &Set<S>, f: impl Fn(usize) -> bool) {
    let (mut i, mut n) = (0, 0);
    while i < N {
        n += f(i) as usize;
        ck(m.contains(S::key(i)) == f(i), "exactly the accepted values are kept");
        i += 1;
    }
    ck(m.len() == n, "exactly the accepted values are kept");
}
/// Is key `i` offered for the first time?
fn offered(i: usize, m: usize) {
    ck(i < N && keep(i, m), "only stored entries are offered");
    ck(g::<S>(CALLS, i) == 0, "every entry is offered once");
    gs::<S>(CALLS, i, 1);
}
fn all_offered(m: usize) {
    let mut i = 0;
    while i < N {
        ck((g::<S>(CALLS, i) != 0) == keep(i, m), "every entry is offered once");
        i += 1;
    }
}
#[cfg(any(p_c05, p_all))]
pub mod c05 {
    use super::*;
    fn go(m: usize, f: impl Fn(usize) -> bool) {
        let mut t = full(m);
        t.retain(|k, v| {
            offered(k.idx(), m);
            ck(*v == val(k.idx()), "an entry is offered with its own value");
            f(k.idx())
        });
        all_offered(m);
        kept(&t, |i| keep(i, m) && f(i));
    }
    pub fn none() { go(0, |_| false) }
    pub fn every() { go(0, |_| true) }
    pub fn half() { go(0, |i| i % 2 == 0) }
    pub fn some() { go(5, |i| i > 100) }
}
#[cfg(any(p_c11, p_all))]
pub mod c11 {
    use super::*;
    fn go(m: usize, f: impl Fn(usize) -> bool) {
        let mut t = full_set(m);
        t.retain(|k| {
            offered(k.idx(), m);
            f(k.idx())
        });
        all_offered(m);
        set_kept(&t, |i| keep(i, m) && f(i));
    }
    pub fn none() { go(0, |_| false) }
    pub fn every() { go(0, |_| true) }
    pub fn half() { go(0, |i| i % 2 == 0) }
    pub fn some() { go(5, |i| i > 100) }
}
#[cfg(any(p_c02, p_all))]
pub mod c02 {
    use super::*;
    /// Every number of entries there can be, on the way up and down.
    pub fn sizes() {
        let mut m = Map::new();
        let mut i = 0;
        while i < N {
            ck(m.len() == i, "len is the number of stored keys");
            ck(m.is_empty() == (i == 0), "is_empty is true exactly when nothing is stored");
            m.insert(S::key(i), val(i));
            i += 1;
        }
        while i > 0 {
            ck(m.len() == i, "len is the number of stored keys");
            ck(!m.is_empty(), "is_empty is true exactly when nothing is stored");
            i -= 1;
            m.remove(S::key(i));
        }
        ck(m.is_empty() & (m.len() == 0), "is_empty is true exactly when nothing is stored");
    }
    pub fn clear() {
        let mut m = full(0);
        m.clear();
        ck(m.is_empty() & (m.len() == 0), "clear removes every entry");
        kept(&m, |_| false);
    }
}
#[cfg(any(p_c09, p_all))]
pub mod c09 {
    use super::*;
    pub fn sizes() {
        let mut m = Set::new();
        let mut i = 0;
        while i < N {
            ck(m.len() == i, "len is the number of stored values");
            ck(m.is_empty() == (i == 0), "is_empty is true exactly when nothing is stored");
            m.insert(S::key(i));
            i += 1;
        }
        while i > 0 {
            ck(m.len() == i, "len is the number of stored values");
            ck(!m.is_empty(), "is_empty is true exactly when nothing is stored");
            i -= 1;
            m.remove(S::key(i));
        }
        ck(m.is_empty() & (m.len() == 0), "is_empty is true exactly when nothing is stored");
    }
    pub fn clear() {
        let mut m = full_set(0);
        m.clear();
        ck(m.is_empty() & (m.len() == 0), "clear removes every value");
        set_kept(&m, |_| false);
    }
}
#[cfg(any(p_c14, p_all))]
pub mod c14 {
    use super::*;
    fn maps(a: &Map<S, u32>, b: &Map<S, u32>, w: bool) {
        ck((*a == *b) == w, "maps are equal exactly when their content is");
        ck((*b == *a) == w, "equality is symmetric");
        ck((*a != *b) != w, "!= is the opposite of ==");
    }
    fn sets(a: &Set<S>, b: &Set<S>, w: bool) {
        ck((*a == *b) == w, "sets are equal exactly when their content is");
        ck((*b == *a) == w, "equality is symmetric");
        ck((*a != *b) != w, "!= is the opposite of ==");
    }
    fn at_key(q: usize) {
        let a = full(0);
        let mut b = full(0);
        maps(&a, &b, true);
        b.insert(S::key(q), 9000);
        maps(&a, &b, false);
        b.remove(S::key(q));
        maps(&a, &b, false);
        b.insert(S::key(q), val(q));
        maps(&a, &b, true);
        // as many, with the same values, but under other keys
        let mut a = a;
        let o = (q + 1) % N;
        a.remove(S::key(o));
        a.insert(S::key(q), 5);
        b.remove(S::key(q));
        b.insert(S::key(o), 5);
        maps(&a, &b, false);
        a.remove(S::key(q));
        b.remove(S::key(o));
        maps(&a, &b, true);
        let a = full_set(0);
        let mut b = full_set(0);
        sets(&a, &b, true);
        b.remove(S::key(q));
        sets(&a, &b, false);
        // as many, but others
        let mut a = a;
        a.remove(S::key((q + 1) % N));
        sets(&a, &b, false);
        a.remove(S::key(q));
        b.remove(S::key((q + 1) % N));
        sets(&a, &b, true);
    }
    pub fn first() { at_key(0) }
    pub fn early() { at_key(70) }
    pub fn middle() { at_key(151) }
    pub fn late() { at_key(260) }
    pub fn last() { at_key(N - 1) }
}
#[cfg(any(p_c16, p_all))]
pub mod c16 {
    use super::*;
    pub fn clone() {
        let a = full(5);
        let mut b = a.clone();
        kept(&b, |i| keep(i, 5));
        b.remove(S::key(N - 1));
        kept(&a, |i| keep(i, 5));
    }
    pub fn clone_from() {
        into(5, 3);
    }
    /// Into as many other keys, into fewer, into more, and into none.
    pub fn clone_from_like() {
        into(5, 205);
    }
    pub fn clone_from_fewer() {
        into(0, 2);
    }
    pub fn clone_from_more() {
        into(2, 0);
    }
    pub fn clone_from_none() {
        let a = full(5);
        let mut b = Map::new();
        b.clone_from(&a);
        kept(&b, |i| keep(i, 5));
        let a = full_set(5);
        let mut b = Set::new();
        b.clone_from(&a);
        set_kept(&b, |i| keep(i, 5));
        b.clone_from(&Set::new());
        set_kept(&b, |_| false);
    }
    fn into(from: usize, to: usize) {
        let a = full(from);
        let mut b = full(to);
        b.clone_from(&a);
        kept(&b, |i| keep(i, from));
        kept(&a, |i| keep(i, from));
        let a = full_set(from);
        let mut b = full_set(to);
        b.clone_from(&a);
        set_kept(&b, |i| keep(i, from));
        set_kept(&a, |i| keep(i, from));
    }
}
#[cfg(any(p_c17, p_all))]
pub mod c17 {
    use super::*;
    fn entry(i: usize) -> (S, u32) {
        (S::key(i), val(i))
    }
    pub fn collect() {
        kept(&(0..N).map(entry).collect(), |_| true);
        kept(&(0..N).rev().map(entry).collect(), |_| true);
        set_kept(&(0..N).map(S::key).collect(), |_| true);
    }
    fn old(i: usize) -> (S, u32) {
        (S::key(i), 5)
    }
    /// The last value given for a key counts.
    pub fn twice() {
        kept(&(0..N).map(old).chain((0..N).map(entry)).collect(), |_| true);
    }
}
