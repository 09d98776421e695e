//! C13: set intersection.
use crate::h::*;

fn both<S: Shape>() {
    let mut i = 0;
    while i < S::N {
        gs::<S>(SNAP, i, ((g::<S>(A, i) != 0) & (g::<S>(B, i) != 0)) as u32);
        i += 1;
    }
}
fn step<S: Shape>() {
    let a = set::<S>(A, 0);
    let b = set::<S>(B, 1);
    both::<S>();
    let r = Ref::start::<S>(SNAP);
    let mut it = a.intersection(&b);
    loop {
        r.hint::<S>(it.size_hint());
        if r.front::<S, _>(it.next().map(K)).is_none() {
            break;
        }
    }
    r.hint::<S>(it.size_hint());
    ck(it.next().is_none(), "an exhausted iterator stays exhausted");
    set_agrees(&a, A, "intersecting changes neither set");
    set_agrees(&b, B, "intersecting changes neither set");
}
consume!(consume, { let a = set::<S>(A, 0); let b = set::<S>(B, 1); both::<S>(); }, SNAP, a.intersection(&b), K);
search!(search, { let a = set::<S>(A, 0); let b = set::<S>(B, 1); both::<S>(); }, SNAP, a.intersection(&b), K);
nth!(nth, { let a = set::<S>(A, 0); let b = set::<S>(B, 1); both::<S>(); }, SNAP, a.intersection(&b), K);
extremes!(extremes, { let a = set::<S>(A, 0); let b = set::<S>(B, 1); both::<S>(); }, SNAP, a.intersection(&b), K);
fn clone<S: Shape>() {
    let a = set::<S>(A, 0);
    let b = set::<S>(B, 1);
    both::<S>();
    let r = Ref::start::<S>(SNAP);
    let mut it = a.intersection(&b);
    let mut t = 0;
    loop {
        if at(t, 5) {
            let mut it2 = it.clone();
            let r2 = r.fork::<S>(SEEN2);
            while r2.front::<S, _>(it2.next().map(K)).is_some() {}
            while r.front::<S, _>(it.next().map(K)).is_some() {}
            break;
        }
        if r.front::<S, _>(it.next().map(K)).is_none() {
            break;
        }
        t += 1;
    }
}
/// With itself, and the other way round.
fn same<S: Shape>() {
    let a = set::<S>(A, 0);
    let r = Ref::start::<S>(A);
    for x in a.intersection(&a) {
        r.front::<S, _>(Some(K(x)));
    }
    r.done::<S>();
}
each_small! {
    step_: step + [U8, U10, B8, B9, B10];
    same_: same + [U8, U10, B8, B9, B10];
}
each_tiny! {
    consume_: consume + [];
    search_: search + [];
    extremes_: extremes + [];
    clone_: clone + [U5, B5];
}
each_fixed! {
    nth_: nth + [];
}
