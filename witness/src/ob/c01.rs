//! C01: a map returns exactly what was last stored under each key.
use crate::h::*;
use fixed_map::Map;

/// One arbitrary operation per key, on an arbitrary map, checked against the
/// abstract content; then every lookup is checked again.
fn round<S: Shape>(m: &mut Map<S, u32>, base: u32, k: usize) {
    let mut i = 0;
    while i < S::N {
        let key = S::key(i);
        let old = g::<S>(A, i);
        if at(i, k) {
            if at(i, k + 1) {
                let r = m.insert(key, base + i as u32);
                gs::<S>(A, i, base + i as u32);
                ck(is(r, old), "insert returns the value it replaced");
            } else {
                let r = m.remove(key);
                gs::<S>(A, i, 0);
                ck(is(r, old), "remove returns the value it took out");
            }
        } else {
            if at(i, k + 1) {
                match m.get_mut(key) {
                    Some(v) => {
                        ck(*v == old, "get_mut gives the stored value");
                        *v = base + 500 + i as u32;
                        gs::<S>(A, i, base + 500 + i as u32);
                    }
                    None => ck(old == 0, "get_mut finds a stored key"),
                }
            }
        }
        i += 1;
    }
}
fn lookups<S: Shape>(m: &mut Map<S, u32>) {
    let mut i = 0;
    while i < S::N {
        let key = S::key(i);
        let want = g::<S>(A, i);
        ck(is(copied(m.get(key)), want), "get gives the value last stored");
        ck(m.contains_key(key) == (want != 0), "contains_key tells whether a value is stored");
        let r = match m.get_mut(key) {
            Some(v) => Some(*v),
            None => None,
        };
        ck(is(r, want), "get_mut gives the value last stored");
        i += 1;
    }
}
fn history<S: Shape>() {
    let mut m = map::<S>(A, 0);
    lookups(&mut m);
    round(&mut m, 1000, 2);
    lookups(&mut m);
    round(&mut m, 3000, 4);
    lookups(&mut m);
}
/// A single operation on an arbitrary map leaves all other keys alone.
fn single<S: Shape>() {
    let mut t = 0;
    while t < S::N {
        clear::<S>(A);
        let mut m = map::<S>(A, 0);
        let r = m.insert(S::key(t), 7);
        ck(is(r, g::<S>(A, t)), "insert returns the value it replaced");
        gs::<S>(A, t, 7);
        agrees(&m, A, "insert changes its own key only");
        let r = m.remove(S::key(t));
        ck(is(r, 7), "remove returns the value it took out");
        gs::<S>(A, t, 0);
        agrees(&m, A, "remove changes its own key only");
        let r = m.remove(S::key(t));
        ck(is(r, 0), "remove of an absent key returns nothing");
        t += 1;
    }
}
each_small! {
    history_: history + [U4, U6, U8, U10, U16, U17, U20, U32, U33, U64, U65, U100, U128, U129, U200, U257, Many, Huge, B8, B9, B16, B17, B32, B33, B64, B65, B128];
    single_: single + [U8, U10, U16, U20, B8, B9, B17];
}
#[cfg(crowd)]
each! {
    history_crowd: history [] hash [Crowd];
}
