//! C10: set iteration is complete, in order, and keeps the iterator contract.
use crate::fm;
use crate::h::*;

macro_rules! hint {
    ($name:ident, $m:ident, $it:expr, $wrap:expr) => {
        fn $name<S: Shape>() {
            #[allow(unused_mut)]
            let mut $m = set::<S>(A, 0);
            let r = Ref::start::<S>(A);
            let mut it = $it;
            loop {
                r.hint::<S>(it.size_hint());
                match r.front::<S, _>(it.next().map($wrap)) {
                    Some(_) => {}
                    None => break,
                }
            }
            r.hint::<S>(it.size_hint());
            ck(it.next().is_none(), "an exhausted iterator stays exhausted");
            ck(it.next().is_none(), "an exhausted iterator stays exhausted");
        }
    };
}

macro_rules! back {
    ($name:ident, $m:ident, $it:expr, $wrap:expr, $t:ty, $($b:tt)*) => {
        fn $name<S: Shape>() where $t: DoubleEndedIterator $($b)* {
            #[allow(unused_mut)]
            let mut $m = set::<S>(A, 0);
            let r = Ref::start::<S>(A);
            let mut it = $it;
            let mut t = 0;
            loop {
                r.hint::<S>(it.size_hint());
                let x = if at(t, 5) {
                    r.front::<S, _>(it.next().map($wrap))
                } else {
                    r.back::<S, _>(it.next_back().map($wrap))
                };
                if x.is_none() {
                    break;
                }
                t += 1;
            }
            ck(it.next_back().is_none(), "an exhausted iterator stays exhausted");
            ck(it.next().is_none(), "an exhausted iterator stays exhausted");
        }
    };
}

/// A clone taken anywhere yields what the original still had to yield, and
/// taking from one does not advance the other.
macro_rules! fork {
    ($name:ident, $m:ident, $it:expr, $wrap:expr, $($b:tt)*) => {
        fn $name<S: Shape>() where $($b)* {
            let $m = set::<S>(A, 0);
            let r = Ref::start::<S>(A);
            let mut it = $it;
            let mut t = 0;
            loop {
                if at(t, 5) {
                    let mut it2 = it.clone();
                    let r2 = r.fork::<S>(SEEN2);
                    r2.hint::<S>(it2.size_hint());
                    while r2.front::<S, _>(it2.next().map($wrap)).is_some() {}
                    while r.front::<S, _>(it.next().map($wrap)).is_some() {}
                    break;
                }
                if r.front::<S, _>(it.next().map($wrap)).is_none() {
                    break;
                }
                t += 1;
            }
        }
    };
}

/// Where an exact length is claimed, it is exact.
macro_rules! exact {
    ($name:ident, $m:ident, $it:expr, $wrap:expr, $($b:tt)*) => {
        fn $name<S: Shape>() where $($b)* {
            let $m = set::<S>(A, 0);
            let r = Ref::start::<S>(A);
            let mut it = $it;
            loop {
                let n = r.left::<S>();
                ck(it.len() == n, "an exact length is exact");
                let (lo, hi) = it.size_hint();
                ck(lo == n && hi == Some(n), "an exact size hint is exact");
                if r.front::<S, _>(it.next().map($wrap)).is_none() {
                    break;
                }
            }
        }
    };
}

hint!(hint_iter, m, m.iter(), K);
hint!(hint_ref, m, (&m).into_iter(), K);
hint!(hint_into, m, m.into_iter(), K);
back!(back_iter, m, m.iter(), K, fixed_map::set::Iter<'static, S>, , for<'a> fixed_map::set::Iter<'a, S>: DoubleEndedIterator);
back!(back_into, m, m.into_iter(), K, fixed_map::set::IntoIter<S>,);
fork!(clone_iter, m, m.iter(), K, for<'a> fixed_map::set::Iter<'a, S>: Clone);
fork!(clone_into, m, m.into_iter(), K, fixed_map::set::IntoIter<S>: Clone);
consume!(consume_iter, { #[allow(unused_mut)] let mut m = set::<S>(A, 0); }, A, m.iter(), K);
search!(search_iter, { #[allow(unused_mut)] let mut m = set::<S>(A, 0); }, A, m.iter(), K);
extremes!(extremes_iter, { #[allow(unused_mut)] let mut m = set::<S>(A, 0); }, A, m.iter(), K);
consume!(consume_into, { #[allow(unused_mut)] let mut m = set::<S>(A, 0); }, A, m.into_iter(), K);
search!(search_into, { #[allow(unused_mut)] let mut m = set::<S>(A, 0); }, A, m.into_iter(), K);
extremes!(extremes_into, { #[allow(unused_mut)] let mut m = set::<S>(A, 0); }, A, m.into_iter(), K);
nth!(nth_iter, { #[allow(unused_mut)] let mut m = set::<S>(A, 0); }, A, m.iter(), K);
nth!(nth_into, { #[allow(unused_mut)] let mut m = set::<S>(A, 0); }, A, m.into_iter(), K);
rev!(rev_iter, { #[allow(unused_mut)] let mut m = set::<S>(A, 0); }, A, m.iter(), K, for<'a> fixed_map::set::Iter<'a, S>: DoubleEndedIterator);
rev!(rev_into, { #[allow(unused_mut)] let mut m = set::<S>(A, 0); }, A, m.into_iter(), K, fixed_map::set::IntoIter<S>: DoubleEndedIterator);
exact!(exact_iter, m, m.iter(), K, for<'a> fixed_map::set::Iter<'a, S>: ExactSizeIterator);
exact!(exact_into, m, m.into_iter(), K, fixed_map::set::IntoIter<S>: ExactSizeIterator);
/// Large key types: a sparse content.
fn sparse<S: Shape>() {
    let m = set::<S>(A, 0);
    let r = Ref::start::<S>(A);
    for x in &m {
        r.front::<S, _>(Some(K(x)));
    }
    r.done::<S>();
    let r = Ref::start::<S>(A);
    for x in m {
        r.front::<S, _>(Some(K(x)));
    }
    r.done::<S>();
}
each_small! {
    hint_iter_: hint_iter + [U8, B8, B9];
    hint_ref_: hint_ref + [U8, B8, B9];
    hint_into_: hint_into + [U8, B8, B9];
    sparse_: sparse + [U8, U10, U12, U16, U17, B8, B9, B10, B15, B16, B17];
}
each_tiny! {
    consume_iter_: consume_iter + [U5, B5, Ends, Mix];
    search_iter_: search_iter + [U5, B5, Ends, Mix];
    extremes_iter_: extremes_iter + [U5, B5, Ends, Mix];
    consume_into_: consume_into + [U5, B5, Ends, Mix];
    search_into_: search_into + [U5, B5, Ends, Mix];
    extremes_into_: extremes_into + [U5, B5, Ends, Mix];
    clone_iter_: clone_iter + [U5, B5, Ends];
}
each_fixed! {
    clone_into_: clone_into + [U5, B5, Ends];
    back_iter_: back_iter + [U5, B5];
    back_into_: back_into + [U5, B5];
    nth_iter_: nth_iter + [B5];
    nth_into_: nth_into + [B5];
    rev_iter_: rev_iter + [B5];
    rev_into_: rev_into + [B5];
}
each! {
    exact_iter_: exact_iter [Bool, Unit];
    exact_into_: exact_into [Bool, Unit];
}
