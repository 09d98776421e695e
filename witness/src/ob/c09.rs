//! C09: set length, emptiness, clearing.
use crate::h::*;
use fixed_map::Set;

fn size<S: Shape>(m: &Set<S>) {
    let n = count::<S>(A);
    ck(m.len() == n, "len is the number of contained values");
    ck(m.is_empty() == (n == 0), "is_empty is true exactly when nothing is contained");
}
fn sizes<S: Shape>() {
    let mut m = set::<S>(A, 0);
    size(&m);
    let mut i = 0;
    while i < S::N {
        if atc::<S>(i, 2) {
            if atc::<S>(i, 3) {
                m.insert(S::key(i));
                gs::<S>(A, i, 1);
            } else {
                m.remove(S::key(i));
                gs::<S>(A, i, 0);
            }
        }
        i += 1;
    }
    size(&m);
    m.clear();
    clear::<S>(A);
    size(&m);
    set_agrees(&m, A, "clear removes every value");
    let mut i = 0;
    while i < S::N {
        if atc::<S>(i, 4) {
            m.insert(S::key(i));
            gs::<S>(A, i, 1);
        }
        i += 1;
    }
    size(&m);
    set_agrees(&m, A, "a cleared set works like a new one");
}
fn fresh<S: Shape>() {
    clear::<S>(A);
    let m: Set<S> = Set::new();
    size(&m);
    set_agrees(&m, A, "a new set is empty");
    let m: Set<S> = Default::default();
    size(&m);
    set_agrees(&m, A, "a default set is empty");
}
each_small! {
    sizes_: sizes + [U8, U10, U16, U17, U20, U32, U33, U64, U65, U100, U128, U129, U200, U256, U257, Many, Huge, B8, B9, B10, B15, B16, B17, B31, B32, B33, B63, B64, B65, B127, B128];
    fresh_: fresh + [U8, U10, U16, U17, U20, U32, U33, U64, U65, U100, U128, U129, U200, U256, U257, Many, Huge, B8, B9, B16, B17, B32, B33, B64, B65, B128];
}
#[cfg(crowd)]
each! {
    sizes_crowd: sizes [] hash [Crowd];
}
