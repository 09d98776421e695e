//! C11: Set::retain keeps exactly the values the predicate accepts.
use crate::h::*;

fn retain<S: Shape>() {
    let mut m = set::<S>(A, 0);
    clear::<S>(CALLS);
    m.retain(|k| {
        let i = k.idx();
        ck(i < S::N, "the predicate is asked about contained values only");
        ck(g::<S>(A, i) != 0, "the predicate is asked about contained values only");
        ck(g::<S>(CALLS, i) == 0, "the predicate is asked once per value");
        gs::<S>(CALLS, i, 1);
        atc::<S>(i, 2)
    });
    let mut i = 0;
    while i < S::N {
        let a = g::<S>(A, i);
        if a != 0 {
            ck(g::<S>(CALLS, i) == 1, "the predicate is asked about every contained value");
        }
        if !atc::<S>(i, 2) {
            gs::<S>(A, i, 0);
        }
        i += 1;
    }
    set_agrees(&m, A, "exactly the accepted values remain");
    ck(m.len() == count::<S>(A), "exactly the accepted values remain");
}
fn stateful<S: Shape>() {
    let mut m = set::<S>(A, 0);
    let mut n = 0u32;
    m.retain(|k| {
        n += 1;
        let keep = n % 2 == 1;
        if !keep {
            gs::<S>(A, k.idx(), 0);
        }
        keep
    });
    set_agrees(&m, A, "exactly the accepted values remain");
}
fn again<S: Shape>() {
    let mut m = set::<S>(A, 0);
    m.retain(|k| at(k.idx(), 2));
    let mut i = 0;
    while i < S::N {
        if !at(i, 2) {
            gs::<S>(A, i, 0);
        }
        i += 1;
    }
    m.retain(|k| {
        ck(g::<S>(A, k.idx()) != 0, "the predicate is asked about contained values only");
        at(k.idx(), 3)
    });
    let mut i = 0;
    while i < S::N {
        if !at(i, 3) {
            gs::<S>(A, i, 0);
        }
        i += 1;
    }
    set_agrees(&m, A, "exactly the accepted values remain");
    m.retain(|_| true);
    set_agrees(&m, A, "exactly the accepted values remain");
    m.retain(|_| false);
    ck(m.is_empty(), "exactly the accepted values remain");
}
each_small! {
    retain_: retain + [Many, U8, U10, U16, U17, U20, U32, U33, U64, U65, U129, B8, B9, B16, B17, B32];
    stateful_: stateful + [U8, U10, B8];
    again_: again + [U8, U10, U16, U33, B8, B9, B17];
}
#[cfg(crowd)]
each! {
    retain_crowd: retain [] hash [Crowd];
}
