//! C08: a set contains exactly what was inserted and not removed.
use crate::h::*;
use fixed_map::Set;

fn round<S: Shape>(m: &mut Set<S>, k: usize) {
    let mut i = 0;
    while i < S::N {
        let key = S::key(i);
        let old = g::<S>(A, i) != 0;
        if at(i, k) {
            if at(i, k + 1) {
                let r = m.insert(key);
                gs::<S>(A, i, 1);
                ck(r == !old, "insert is true exactly when the value was not there");
            } else {
                let r = m.remove(key);
                gs::<S>(A, i, 0);
                ck(r == old, "remove is true exactly when the value was there");
            }
        }
        i += 1;
    }
}
fn history<S: Shape>() {
    let mut m = set::<S>(A, 0);
    set_agrees(&m, A, "contains tells what is there");
    round(&mut m, 2);
    set_agrees(&m, A, "contains tells what is there");
    round(&mut m, 4);
    set_agrees(&m, A, "contains tells what is there");
}
fn single<S: Shape>() {
    let mut t = 0;
    while t < S::N {
        clear::<S>(A);
        let mut m = set::<S>(A, 0);
        let r = m.insert(S::key(t));
        ck(r == (g::<S>(A, t) == 0), "insert is true exactly when the value was not there");
        gs::<S>(A, t, 1);
        set_agrees(&m, A, "insert adds its own value only");
        ck(!m.insert(S::key(t)), "insert is true exactly when the value was not there");
        set_agrees(&m, A, "insert adds its own value only");
        let r = m.remove(S::key(t));
        ck(r, "remove is true exactly when the value was there");
        gs::<S>(A, t, 0);
        set_agrees(&m, A, "remove takes its own value only");
        ck(!m.remove(S::key(t)), "remove is true exactly when the value was there");
        set_agrees(&m, A, "remove takes its own value only");
        t += 1;
    }
}
each_small! {
    history_: history + [U4, U6, U8, U10, U16, U17, U20, U32, U33, U64, U65, U100, U128, U129, U200, U257, Many, Huge,
        B2, B4, B6, B7, B8, B9, B10, B15, B16, B17, B31, B32, B33, B63, B64, B65, B127, B128];
    single_: single + [U8, U10, U16, U20, B8, B9, B16, B17, B32, B33];
}
#[cfg(crowd)]
each! {
    history_crowd: history [] hash [Crowd];
}
