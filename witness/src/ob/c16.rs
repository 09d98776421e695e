//! C16: clones and copies.
use crate::h::*;
use fixed_map::map::MapStorage;
use fixed_map::set::SetStorage;
use fixed_map::{Map, Set};

/// A value whose clone leaves a mark: it counts in `CALLS`, and tells the
/// original and the copy apart.
pub struct C<S> {
    i: u32,
    copy: u32,
    k: core::marker::PhantomData<S>,
}
impl<S: Shape> Clone for C<S> {
    fn clone(&self) -> Self {
        let i = self.i as usize;
        ck(i < S::N, "only stored values are cloned");
        let mut j = 0;
        while j < S::N {
            if i == j {
                ck(g::<S>(CALLS, j) == 0, "a value is cloned at most once");
                gs::<S>(CALLS, j, 1);
            }
            j += 1;
        }
        C { i: self.i, copy: self.copy + 1, k: self.k }
    }
}
fn cs<S: Shape>(r: usize, k: usize, copy: u32) -> Map<S, C<S>> {
    let mut m = Map::new();
    let mut i = 0;
    while i < S::N {
        if atc::<S>(i, k) {
            m.insert(S::key(i), C { i: i as u32, copy, k: core::marker::PhantomData });
            gs::<S>(r, i, 1);
        }
        i += 1;
    }
    m
}
/// `m` holds what region `r` says, and every value came through `copy` clones.
fn holds<S: Shape>(m: &Map<S, C<S>>, r: usize, copy: u32) {
    let mut i = 0;
    while i < S::N {
        match m.get(S::key(i)) {
            Some(c) => {
                ck(g::<S>(r, i) != 0, "a clone has the same keys");
                ck(c.i as usize == i, "a value stays under its own key");
                ck(c.copy == copy, "a clone's values are clones of the source's values");
            }
            None => ck(g::<S>(r, i) == 0, "a clone has the same keys"),
        }
        i += 1;
    }
}
fn ticks<S: Shape>() {
    let mut i = 0;
    while i < S::N {
        ck((g::<S>(CALLS, i) != 0) == (g::<S>(A, i) != 0), "every stored value is cloned exactly once");
        i += 1;
    }
}
fn clone<S: Shape>()
where
    S::MapStorage<C<S>>: Clone,
{
    let a = cs::<S>(A, 0, 0);
    let b = a.clone();
    ticks::<S>();
    holds(&a, A, 0);
    holds(&b, A, 1);
    ck(b.len() == a.len(), "a clone has the same length");
}
fn clone_from<S: Shape>()
where
    S::MapStorage<C<S>>: Clone,
{
    let a = cs::<S>(A, 0, 0);
    let mut b = cs::<S>(B, 1, 10);
    b.clone_from(&a);
    ticks::<S>();
    holds(&a, A, 0);
    holds(&b, A, 1);
    ck(b.len() == a.len(), "cloning into a map leaves the source's content");
}
/// The storages themselves are public too, and have a `clone_from` of their own.
fn storage<S: Shape>()
where
    S::MapStorage<C<S>>: Clone,
{
    let mut a = <S::MapStorage<C<S>> as MapStorage<S, C<S>>>::empty();
    let mut b = <S::MapStorage<C<S>> as MapStorage<S, C<S>>>::empty();
    let mut i = 0;
    while i < S::N {
        if atc::<S>(i, 0) {
            a.insert(S::key(i), C { i: i as u32, copy: 0, k: core::marker::PhantomData });
            gs::<S>(A, i, 1);
        }
        if atc::<S>(i, 1) {
            b.insert(S::key(i), C { i: i as u32, copy: 10, k: core::marker::PhantomData });
        }
        i += 1;
    }
    b.clone_from(&a);
    ticks::<S>();
    let mut i = 0;
    while i < S::N {
        match b.get(S::key(i)) {
            Some(c) => {
                ck(g::<S>(A, i) != 0, "cloning into a storage leaves the source's keys");
                ck(c.i as usize == i, "a value stays under its own key");
                ck(c.copy == 1, "a clone's values are clones of the source's values");
            }
            None => ck(g::<S>(A, i) == 0, "cloning into a storage leaves the source's keys"),
        }
        match a.get(S::key(i)) {
            Some(c) => {
                ck((g::<S>(A, i) != 0) & (c.i as usize == i) & (c.copy == 0), "cloning leaves the original as it was");
            }
            None => ck(g::<S>(A, i) == 0, "cloning leaves the original as it was"),
        }
        i += 1;
    }
    ck(b.len() == count::<S>(A), "cloning into a storage leaves the source's keys");
    // What is there can still be taken out, every key of it once.
    let mut i = 0;
    while i < S::N {
        ck(b.remove(S::key(i)).is_some() == (g::<S>(A, i) != 0), "cloning into a storage leaves the source's keys");
        i += 1;
    }
    ck(b.is_empty(), "cloning into a storage leaves the source's keys");
}
fn set_storage<S: Shape>()
where
    S::SetStorage: Clone,
{
    let mut a = <S::SetStorage as SetStorage<S>>::empty();
    let mut b = <S::SetStorage as SetStorage<S>>::empty();
    let mut i = 0;
    while i < S::N {
        if atc::<S>(i, 0) {
            a.insert(S::key(i));
            gs::<S>(A, i, 1);
        }
        if atc::<S>(i, 1) {
            b.insert(S::key(i));
        }
        i += 1;
    }
    b.clone_from(&a);
    let mut i = 0;
    while i < S::N {
        let w = g::<S>(A, i) != 0;
        ck(b.contains(S::key(i)) == w, "cloning into a storage leaves the source's values");
        ck(a.contains(S::key(i)) == w, "cloning leaves the original as it was");
        i += 1;
    }
    ck(b.len() == count::<S>(A), "cloning into a storage leaves the source's values");
}
/// Change one key of either container; the other must not notice.
fn apart<S: Shape>()
where
    S::MapStorage<u32>: Clone,
{
    let mut p = 0;
    while p < S::N {
        clear::<S>(A);
        let mut a = map::<S>(A, 0);
        let mut b = a.clone();
        if at(0, 5) {
            change(&mut a, p);
            agrees(&b, A, "changing the original does not show in the clone");
        } else {
            change(&mut b, p);
            agrees(&a, A, "changing a clone does not show in the original");
        }
        p += 1;
    }
}
fn change<S: Shape>(m: &mut Map<S, u32>, p: usize) {
    if at(0, 6) {
        m.insert(S::key(p), 5);
    } else if at(0, 7) {
        m.remove(S::key(p));
    } else if at(0, 8) {
        m.clear();
    } else {
        for v in m.values_mut() {
            *v = 6;
        }
    }
}
fn copy<S: Shape>()
where
    S::MapStorage<u32>: Copy,
{
    let a = map::<S>(A, 0);
    let mut b = a;
    agrees(&a, A, "a copy leaves the original as it was");
    agrees(&b, A, "a copy has the same content");
    b.insert_all();
    agrees(&a, A, "changing a copy does not show in the original");
}
trait All {
    fn insert_all(&mut self);
}
impl<S: Shape> All for Map<S, u32> {
    fn insert_all(&mut self) {
        let mut i = 0;
        while i < S::N {
            if atc::<S>(i, 5) {
                self.insert(S::key(i), 5);
            } else {
                self.remove(S::key(i));
            }
            i += 1;
        }
    }
}
fn set_clone<S: Shape>()
where
    S::SetStorage: Clone,
{
    let mut a = set::<S>(A, 0);
    let mut b = a.clone();
    set_agrees(&a, A, "cloning leaves the original as it was");
    set_agrees(&b, A, "a clone has the same values");
    ck(b.len() == count::<S>(A), "a clone has the same length");
    if at(0, 5) {
        flip(&mut a);
        set_agrees(&b, A, "changing the original does not show in the clone");
    } else {
        flip(&mut b);
        set_agrees(&a, A, "changing a clone does not show in the original");
    }
}
fn flip<S: Shape>(m: &mut Set<S>) {
    let mut i = 0;
    while i < S::N {
        if atc::<S>(i, 6) {
            m.insert(S::key(i));
        } else {
            m.remove(S::key(i));
        }
        i += 1;
    }
}
fn set_clone_from<S: Shape>()
where
    S::SetStorage: Clone,
{
    let a = set::<S>(A, 0);
    let mut b = set::<S>(B, 1);
    b.clone_from(&a);
    set_agrees(&a, A, "cloning leaves the original as it was");
    set_agrees(&b, A, "cloning into a set leaves the source's values");
    ck(b.len() == count::<S>(A), "cloning into a set leaves the source's values");
}
fn set_copy<S: Shape>()
where
    S::SetStorage: Copy,
{
    let a = set::<S>(A, 0);
    let mut b = a;
    set_agrees(&b, A, "a copy has the same values");
    flip(&mut b);
    set_agrees(&a, A, "changing a copy does not show in the original");
}
each_small! {
    clone_: clone + [U8, U16, U33, B9];
    clone_from_: clone_from + [U8, U16];
    set_clone_: set_clone + [U8, U16, U33, B2, B4, B6, B7, B8, B9, B16, B17, B33, B65, B128];
    set_clone_from_: set_clone_from + [U8, U16, B4, B8, B9, B17, B33, B128];
}
each_tiny! {
    storage_: storage + [U5, Ends, Mix];
    set_storage_: set_storage + [U5, B5, B8, B9, Ends, Mix];
    apart_: apart + [U5];
}
each! {
    copy_: copy [U0, U1, U2, U3, U5, U8, Disc, B0, B1, B3, B5, DiscBit, Bool, Unit, OptBool, OptUnit, OptU2, OptOptBool, OptOptUnit, OptMix, OptEmpty,
                OptBit, Mix, Ends, Solo, SoloBool, SoloUnit, Twice, TwiceEnum, Deep, Holes, BitIn];
    set_copy_: set_copy [U0, U1, U2, U3, U5, U8, Disc, B0, B1, B3, B5, B8, B9, B33, B128, DiscBit, Bool, Unit, OptBool, OptUnit, OptU2, OptOptBool, OptOptUnit, OptMix, OptEmpty,
                OptBit, Mix, Ends, Solo, SoloBool, SoloUnit, Twice, TwiceEnum, Deep, Holes, BitIn];
}
#[cfg(crowd)]
each! {
    clone_crowd: clone [] hash [Crowd];
    set_clone_crowd: set_clone [] hash [Crowd];
}
