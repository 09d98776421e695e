//! C05: Map::retain keeps exactly the entries the predicate accepts.
use crate::h::*;

/// `at(i, 2)`: the predicate's answer; `at(i, 3)`: it also writes.
fn retain<S: Shape>() {
    let mut m = map::<S>(A, 0);
    clear::<S>(CALLS);
    m.retain(|k, v| {
        let i = k.idx();
        ck(i < S::N, "the predicate is asked about stored entries only");
        ck(g::<S>(A, i) != 0, "the predicate is asked about stored entries only");
        ck(g::<S>(CALLS, i) == 0, "the predicate is asked once per entry");
        ck(*v == g::<S>(A, i), "the predicate gets the key's own value");
        gs::<S>(CALLS, i, 1);
        if atc::<S>(i, 3) {
            *v = 5000 + i as u32;
            gs::<S>(A, i, 5000 + i as u32);
        }
        atc::<S>(i, 2)
    });
    let mut i = 0;
    while i < S::N {
        let a = g::<S>(A, i);
        if a != 0 {
            ck(g::<S>(CALLS, i) == 1, "the predicate is asked about every stored entry");
        }
        let want = if (a != 0) & atc::<S>(i, 2) { a } else { 0 };
        gs::<S>(A, i, want);
        ck(is(copied(m.get(S::key(i))), want), "exactly the accepted entries remain, with the predicate's changes");
        i += 1;
    }
    ck(m.len() == count::<S>(A), "exactly the accepted entries remain, with the predicate's changes");
}
/// A predicate that answers by what it has seen so far.
fn stateful<S: Shape>() {
    let mut m = map::<S>(A, 0);
    let mut n = 0u32;
    m.retain(|k, _| {
        n += 1;
        let keep = n % 2 == 1;
        if !keep {
            gs::<S>(A, k.idx(), 0);
        }
        keep
    });
    agrees(&m, A, "exactly the accepted entries remain, with the predicate's changes");
}
/// Twice in a row, on what the first one left.
fn again<S: Shape>() {
    let mut m = map::<S>(A, 0);
    m.retain(|k, _| at(k.idx(), 2));
    let mut i = 0;
    while i < S::N {
        if !at(i, 2) {
            gs::<S>(A, i, 0);
        }
        i += 1;
    }
    m.retain(|k, _| {
        ck(g::<S>(A, k.idx()) != 0, "the predicate is asked about stored entries only");
        at(k.idx(), 3)
    });
    let mut i = 0;
    while i < S::N {
        if !at(i, 3) {
            gs::<S>(A, i, 0);
        }
        i += 1;
    }
    agrees(&m, A, "exactly the accepted entries remain, with the predicate's changes");
    m.retain(|_, _| false);
    ck(m.is_empty(), "exactly the accepted entries remain, with the predicate's changes");
}
each_small! {
    retain_: retain + [Many, U8, U10, U16, U17, U20, U32, U33, U64, U65, U129, B8, B9, B17];
    stateful_: stateful + [U8, U10];
    again_: again + [U8, U10, U16, U33];
}
#[cfg(crowd)]
each! {
    retain_crowd: retain [] hash [Crowd];
}
