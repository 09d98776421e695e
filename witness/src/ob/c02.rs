//! C02: length, emptiness, clearing.
use crate::h::*;
use fixed_map::Map;

fn size<S: Shape>(m: &Map<S, u32>) {
    let n = count::<S>(A);
    ck(m.len() == n, "len is the number of stored keys");
    ck(m.is_empty() == (n == 0), "is_empty is true exactly when nothing is stored");
}
fn sizes<S: Shape>() {
    let mut m = map::<S>(A, 0);
    size(&m);
    // one more step of history
    let mut i = 0;
    while i < S::N {
        if atc::<S>(i, 2) {
            if atc::<S>(i, 3) {
                m.insert(S::key(i), 7);
                gs::<S>(A, i, 7);
            } else {
                m.remove(S::key(i));
                gs::<S>(A, i, 0);
            }
        }
        i += 1;
    }
    size(&m);
    m.clear();
    clear::<S>(A);
    size(&m);
    agrees(&m, A, "clear removes every entry");
    // and the cleared map works on
    let mut i = 0;
    while i < S::N {
        if atc::<S>(i, 4) {
            m.insert(S::key(i), 9);
            gs::<S>(A, i, 9);
        }
        i += 1;
    }
    size(&m);
    agrees(&m, A, "a cleared map works like a new one");
}
fn fresh<S: Shape>() {
    clear::<S>(A);
    let m: Map<S, u32> = Map::new();
    size(&m);
    agrees(&m, A, "a new map is empty");
    let m: Map<S, u32> = Default::default();
    size(&m);
    agrees(&m, A, "a default map is empty");
}
each_small! {
    sizes_: sizes + [U8, U10, U16, U17, U20, U32, U33, U64, U65, U100, U128, U129, U200, U256, U257, Many, Huge, B8, B9];
    fresh_: fresh + [U8, U10, U16, U17, U20, U32, U33, U64, U65, U100, U128, U129, U200, U256, U257, Many, Huge, B8, B9];
}
#[cfg(crowd)]
each! {
    sizes_crowd: sizes [] hash [Crowd];
}
