//! C19: debug output.
use crate::fm;
use crate::h::*;
use crate::models::*;
use core::fmt::{Debug, Formatter, Result};
use fixed_map::{Map, Set};

/// A value that writes its number.
#[derive(Clone, Copy)]
pub struct Dv(u32);
impl Debug for Dv {
    fn fmt(&self, _: &mut Formatter<'_>) -> Result {
        fm::ghost_set(WHO, self.0);
        Ok(())
    }
}
struct At(usize, u32);
impl<S: Shape> Item<S> for At {
    fn ix(&self) -> usize {
        self.0
    }
    fn v(&self) -> u32 {
        self.1
    }
    fn put(self, _: u32) {}
}
fn table<S: Shape + Debug>() {
    let mut i = 0;
    while i < S::N {
        let mut f: Formatter<'_> = fm::opaque();
        fm::ghost_set(BUSY, 1);
        let k = S::key(i);
        if Debug::fmt(&k, &mut f).is_err() {
            fm::undecided();
        }
        fm::ghost_set(BUSY, 0);
        gs::<S>(SEEN2, i, fm::ghost_get(WHO));
        i += 1;
    }
}
fn find<S: Shape>(c: u32) -> usize {
    let mut r = S::N;
    let mut i = 0;
    while i < S::N {
        if g::<S>(SEEN2, i) == c {
            r = i;
        }
        i += 1;
    }
    r
}
/// What came out is what region `r` says.
fn listed<S: Shape>(res: Result, r: usize, kind: u32) {
    ck(fm::ghost_get(KIND) == kind, "a map is listed as a map and a set as a set");
    ck(fm::ghost_get(EXTRA) == 0, "nothing but the entries is written");
    clear::<S>(SEEN);
    let cur = Ref { r, seen: SEEN };
    let n = fm::ghost_get(SEQ) as usize;
    ck(n <= S::N, "exactly the entries are listed");
    let mut p = 0;
    while p < S::N {
        if p < n {
            let i = find::<S>(fm::ghost_get(KEYS + p));
            let v = if kind == 1 { fm::ghost_get(VALS + p) } else { val(i) };
            cur.tick_front::<S, _>(&At(i, v));
        }
        p += 1;
    }
    if res.is_ok() {
        cur.done::<S>();
        ck(fm::ghost_get(ENDED) == 1, "the listing is finished");
    }
    ck(res.is_err() == (fm::ghost_get(FAIL) != 0), "formatter errors are passed on");
}
fn map_debug<S: Shape + Debug>() {
    table::<S>();
    let mut m = Map::<S, Dv>::new();
    let mut i = 0;
    while i < S::N {
        if at(i, 0) {
            m.insert(S::key(i), Dv(val(i)));
            gs::<S>(A, i, val(i));
        }
        i += 1;
    }
    let mut f: Formatter<'_> = fm::opaque();
    let r = Debug::fmt(&m, &mut f);
    listed::<S>(r, A, 1);
    let mut i = 0;
    while i < S::N {
        match m.get(S::key(i)) {
            Some(v) => ck(v.0 == g::<S>(A, i), "formatting changes nothing"),
            None => ck(g::<S>(A, i) == 0, "formatting changes nothing"),
        }
        i += 1;
    }
}
fn set_debug<S: Shape + Debug>() {
    table::<S>();
    let m: Set<S> = set::<S>(A, 0);
    let mut f: Formatter<'_> = fm::opaque();
    let r = Debug::fmt(&m, &mut f);
    listed::<S>(r, A, 2);
    set_agrees(&m, A, "formatting changes nothing");
}
fn common_debug<S: Shape + Debug>() {
    table::<S>();
    let a: Set<S> = set::<S>(A, 0);
    let b: Set<S> = set::<S>(B, 5);
    let mut i = 0;
    while i < S::N {
        gs::<S>(SNAP, i, ((g::<S>(A, i) != 0) & (g::<S>(B, i) != 0)) as u32);
        i += 1;
    }
    let it = a.intersection(&b);
    let mut f: Formatter<'_> = fm::opaque();
    let r = Debug::fmt(&it, &mut f);
    ck((fm::ghost_get(KIND) == 3) | (fm::ghost_get(KIND) == 2), "an intersection is listed");
    let k = fm::ghost_get(KIND);
    listed::<S>(r, SNAP, k);
    // and it is still where it was
    let cur = Ref::start::<S>(SNAP);
    let mut it = it;
    while cur.front::<S, _>(it.next().map(K)).is_some() {}
}
each_small! {
    map_debug_: map_debug + [U8];
    set_debug_: set_debug + [U8, B2, B4, B7, B8, B9];
}
each_tiny! {
    common_debug_: common_debug + [U5, B5];
}
