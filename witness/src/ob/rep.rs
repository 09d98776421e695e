//! Closure: every way to change a container leads to the representation which
//! inserting its content into an empty container gives.  The arbitrary
//! containers the other rules start from then stand for every history.
use crate::h::*;
use crate::fm;
use fixed_map::map::{Entry, OccupiedEntry, VacantEntry};
use fixed_map::{Map, Set};

fn canon<S: Shape>(r: usize) -> Map<S, u32> {
    let mut m = Map::new();
    let mut i = 0;
    while i < S::N {
        let v = g::<S>(r, i);
        if v != 0 {
            m.insert(S::key(i), v);
        }
        i += 1;
    }
    m
}
fn canon_set<S: Shape>(r: usize) -> Set<S> {
    let mut m = Set::new();
    let mut i = 0;
    while i < S::N {
        if g::<S>(r, i) != 0 {
            m.insert(S::key(i));
        }
        i += 1;
    }
    m
}
fn same<S: Shape>(m: &Map<S, u32>, label: &'static str) {
    let c = canon::<S>(A);
    ck(fm::same_repr(m, &c), label)
}
fn sames<S: Shape>(m: &Set<S>, label: &'static str) {
    let c = canon_set::<S>(A);
    ck(fm::same_repr(m, &c), label)
}
fn map_insert<S: Shape>() {
    let mut m = map::<S>(A, 0);
    let mut i = 0;
    while i < S::N {
        if at(i, 2) {
            m.insert(S::key(i), 1000 + i as u32);
            gs::<S>(A, i, 1000 + i as u32);
        }
        i += 1;
    }
    same(&m, "insert")
}
fn map_remove<S: Shape>() {
    let mut m = map::<S>(A, 0);
    let mut i = 0;
    while i < S::N {
        if at(i, 2) {
            m.remove(S::key(i));
            gs::<S>(A, i, 0);
        }
        i += 1;
    }
    same(&m, "remove")
}
fn map_write<S: Shape>() {
    let mut m = map::<S>(A, 0);
    let mut i = 0;
    while i < S::N {
        if at(i, 2) {
            if let Some(v) = m.get_mut(S::key(i)) {
                *v = 1000 + i as u32;
                gs::<S>(A, i, 1000 + i as u32);
            }
        }
        i += 1;
    }
    same(&m, "get_mut");
    for v in m.values_mut() {
        *v += 1000;
    }
    for (_, v) in m.iter_mut() {
        *v += 1000;
    }
    let mut i = 0;
    while i < S::N {
        let v = g::<S>(A, i);
        if v != 0 {
            gs::<S>(A, i, v + 2000);
        }
        i += 1;
    }
    same(&m, "iter_mut and values_mut")
}
fn map_clear<S: Shape>() {
    let mut m = map::<S>(A, 0);
    m.clear();
    clear::<S>(A);
    same(&m, "clear");
    let d: Map<S, u32> = Default::default();
    same(&d, "default")
}
fn map_retain<S: Shape>() {
    let mut m = map::<S>(A, 0);
    m.retain(|k, v| {
        let i = k.idx();
        let mut keep = false;
        let mut j = 0;
        while j < S::N {
            if i == j {
                *v += 1000;
                keep = at(j, 2);
                let old = g::<S>(A, j);
                gs::<S>(A, j, if keep { old + 1000 } else { 0 });
            }
            j += 1;
        }
        keep
    });
    same(&m, "retain")
}
fn map_entry<S: Shape>() {
    let mut m = map::<S>(A, 0);
    let mut i = 0;
    while i < S::N {
        if at(i, 2) {
            match m.entry(S::key(i)) {
                Entry::Occupied(mut e) => {
                    if at(i, 3) {
                        e.remove();
                        gs::<S>(A, i, 0);
                    } else {
                        e.insert(1000 + i as u32);
                        gs::<S>(A, i, 1000 + i as u32);
                    }
                }
                Entry::Vacant(e) => {
                    if at(i, 3) {
                        e.insert(1000 + i as u32);
                        gs::<S>(A, i, 1000 + i as u32);
                    }
                }
            }
        }
        i += 1;
    }
    same(&m, "entries")
}
fn map_made<S: Shape>()
where
    Map<S, u32>: Clone,
{
    let m = map::<S>(A, 0);
    same(&m.clone(), "clone");
    let mut n = map::<S>(B, 1);
    n.clone_from(&m);
    same(&n, "clone_from");
    same(&m.iter().map(|(k, v)| (k, *v)).collect::<Map<S, u32>>(), "collecting");
    same(&m.into_iter().collect::<Map<S, u32>>(), "collecting by value");
}
fn set_ops<S: Shape>() {
    let mut m = set::<S>(A, 0);
    let mut i = 0;
    while i < S::N {
        if at(i, 2) {
            if at(i, 3) {
                m.insert(S::key(i));
                gs::<S>(A, i, 1);
            } else {
                m.remove(S::key(i));
                gs::<S>(A, i, 0);
            }
        }
        i += 1;
    }
    sames(&m, "insert and remove")
}
fn set_retain<S: Shape>() {
    let mut m = set::<S>(A, 0);
    m.retain(|k| {
        let i = k.idx();
        let mut keep = false;
        let mut j = 0;
        while j < S::N {
            if i == j {
                keep = at(j, 2);
                if !keep {
                    gs::<S>(A, j, 0);
                }
            }
            j += 1;
        }
        keep
    });
    sames(&m, "retain")
}
fn set_made<S: Shape>()
where
    Set<S>: Clone,
{
    let m = set::<S>(A, 0);
    sames(&m.clone(), "clone");
    let mut n = set::<S>(B, 1);
    n.clone_from(&m);
    sames(&n, "clone_from");
    sames(&m.iter().collect::<Set<S>>(), "collecting");
    let mut e = m.clone();
    sames(&m.into_iter().collect::<Set<S>>(), "collecting by value");
    e.clear();
    clear::<S>(A);
    sames(&e, "clear");
    let d: Set<S> = Default::default();
    sames(&d, "default")
}
fn set_raw<S: Shape>()
where
    S::SetStorage: fixed_map::raw::RawStorage,
{
    let m = set::<S>(A, 0);
    sames(&Set::<S>::from_raw(m.as_raw()), "from_raw")
}
#[cfg(p_c01)]
each_fixed! {
    map_insert_: map_insert + [Mix, Ends, Deep, U6, U8, U12, B8, B9];
    map_remove_: map_remove + [Mix, Ends, Deep, U6, U8, U12, B8, B9];
    map_write_: map_write + [Mix, Ends, Deep, U6, U8, B8];
    map_clear_: map_clear + [U6, U8, U12, U33, B8];
    map_retain_: map_retain + [Mix, Ends, Deep, U6, U8, B8];
    map_entry_: map_entry + [Mix, Ends, Deep, U6, U8, B8];
    map_made_: map_made + [Mix, Ends, Deep, U6, B8];
}
#[cfg(p_c08)]
each_fixed! {
    set_ops_: set_ops + [Mix, Ends, Deep, U6, U8, U12, B8, B9, B16, B17];
    set_retain_: set_retain + [Mix, Ends, Deep, U6, U8, B8, B9];
    set_made_: set_made + [Mix, Ends, Deep, U6, U8, B8, B9];
}
#[cfg(p_c08)]
each! {
    set_raw_: set_raw [B0, B1, B3, B5, B8, B9, B16, B17, B33, B64, B65, B128];
}
