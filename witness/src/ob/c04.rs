//! C04: map iterators keep the iterator contract from every partial state.
use crate::fm;
use crate::h::*;

macro_rules! hint {
    ($name:ident, $m:ident, $it:expr, $wrap:expr) => {
        fn $name<S: Shape>() {
            #[allow(unused_mut)]
            let mut $m = map::<S>(A, 0);
            let r = Ref::start::<S>(A);
            let mut it = $it;
            loop {
                r.hint::<S>(it.size_hint());
                match r.front::<S, _>(it.next().map($wrap)) {
                    Some(_) => {}
                    None => break,
                }
            }
            r.hint::<S>(it.size_hint());
            ck(it.next().is_none(), "an exhausted iterator stays exhausted");
            ck(it.next().is_none(), "an exhausted iterator stays exhausted");
        }
    };
}
hint!(hint_iter, m, m.iter(), id);
hint!(hint_keys, m, m.keys(), K);
hint!(hint_values, m, m.values(), id);
hint!(hint_iter_mut, m, m.iter_mut(), id);
hint!(hint_values_mut, m, m.values_mut(), id);
hint!(hint_into, m, m.into_iter(), id);

macro_rules! back {
    ($name:ident, $m:ident, $it:expr, $wrap:expr, $t:ty, $($b:tt)*) => {
        fn $name<S: Shape>() where $t: DoubleEndedIterator $($b)* {
            #[allow(unused_mut)]
            let mut $m = map::<S>(A, 0);
            let r = Ref::start::<S>(A);
            let mut it = $it;
            let mut t = 0;
            loop {
                r.hint::<S>(it.size_hint());
                let x = if at(t, 5) {
                    r.front::<S, _>(it.next().map($wrap))
                } else {
                    r.back::<S, _>(it.next_back().map($wrap))
                };
                if x.is_none() {
                    break;
                }
                t += 1;
            }
            ck(it.next_back().is_none(), "an exhausted iterator stays exhausted");
            ck(it.next().is_none(), "an exhausted iterator stays exhausted");
        }
    };
}
back!(back_iter, m, m.iter(), id, fixed_map::map::Iter<'static, S, u32>, , for<'a> fixed_map::map::Iter<'a, S, u32>: DoubleEndedIterator);
back!(back_keys, m, m.keys(), K, fixed_map::map::Keys<'static, S, u32>, , for<'a> fixed_map::map::Keys<'a, S, u32>: DoubleEndedIterator);
back!(back_values, m, m.values(), id, fixed_map::map::Values<'static, S, u32>, , for<'a> fixed_map::map::Values<'a, S, u32>: DoubleEndedIterator);
back!(back_iter_mut, m, m.iter_mut(), id, fixed_map::map::IterMut<'static, S, u32>, , for<'a> fixed_map::map::IterMut<'a, S, u32>: DoubleEndedIterator);
back!(back_values_mut, m, m.values_mut(), id, fixed_map::map::ValuesMut<'static, S, u32>, , for<'a> fixed_map::map::ValuesMut<'a, S, u32>: DoubleEndedIterator);
back!(back_into, m, m.into_iter(), id, fixed_map::map::IntoIter<S, u32>,);

/// A clone taken anywhere yields what the original still had to yield, and
/// taking from one does not advance the other.
macro_rules! fork {
    ($name:ident, $m:ident, $it:expr, $wrap:expr, $($b:tt)*) => {
        fn $name<S: Shape>() where $($b)* {
            let $m = map::<S>(A, 0);
            let r = Ref::start::<S>(A);
            let mut it = $it;
            let mut t = 0;
            loop {
                if at(t, 5) {
                    let mut it2 = it.clone();
                    let r2 = r.fork::<S>(SEEN2);
                    r2.hint::<S>(it2.size_hint());
                    while r2.front::<S, _>(it2.next().map($wrap)).is_some() {}
                    while r.front::<S, _>(it.next().map($wrap)).is_some() {}
                    break;
                }
                if r.front::<S, _>(it.next().map($wrap)).is_none() {
                    break;
                }
                t += 1;
            }
        }
    };
}
fork!(clone_iter, m, m.iter(), id, for<'a> fixed_map::map::Iter<'a, S, u32>: Clone);
fork!(clone_keys, m, m.keys(), K, for<'a> fixed_map::map::Keys<'a, S, u32>: Clone);
fork!(clone_values, m, m.values(), id, for<'a> fixed_map::map::Values<'a, S, u32>: Clone);
fork!(clone_into, m, m.into_iter(), id, fixed_map::map::IntoIter<S, u32>: Clone);

consume!(consume_iter, { #[allow(unused_mut)] let mut m = map::<S>(A, 0); }, A, m.iter(), id);
search!(search_iter, { #[allow(unused_mut)] let mut m = map::<S>(A, 0); }, A, m.iter(), id);
extremes!(extremes_iter, { #[allow(unused_mut)] let mut m = map::<S>(A, 0); }, A, m.iter(), id);
consume!(consume_keys, { #[allow(unused_mut)] let mut m = map::<S>(A, 0); }, A, m.keys(), K);
search!(search_keys, { #[allow(unused_mut)] let mut m = map::<S>(A, 0); }, A, m.keys(), K);
extremes!(extremes_keys, { #[allow(unused_mut)] let mut m = map::<S>(A, 0); }, A, m.keys(), K);
consume!(consume_values, { #[allow(unused_mut)] let mut m = map::<S>(A, 0); }, A, m.values(), id);
search!(search_values, { #[allow(unused_mut)] let mut m = map::<S>(A, 0); }, A, m.values(), id);
extremes!(extremes_values, { #[allow(unused_mut)] let mut m = map::<S>(A, 0); }, A, m.values(), id);
consume!(consume_iter_mut, { #[allow(unused_mut)] let mut m = map::<S>(A, 0); }, A, m.iter_mut(), id);
search!(search_iter_mut, { #[allow(unused_mut)] let mut m = map::<S>(A, 0); }, A, m.iter_mut(), id);
extremes!(extremes_iter_mut, { #[allow(unused_mut)] let mut m = map::<S>(A, 0); }, A, m.iter_mut(), id);
consume!(consume_values_mut, { #[allow(unused_mut)] let mut m = map::<S>(A, 0); }, A, m.values_mut(), id);
search!(search_values_mut, { #[allow(unused_mut)] let mut m = map::<S>(A, 0); }, A, m.values_mut(), id);
extremes!(extremes_values_mut, { #[allow(unused_mut)] let mut m = map::<S>(A, 0); }, A, m.values_mut(), id);
consume!(consume_into, { #[allow(unused_mut)] let mut m = map::<S>(A, 0); }, A, m.into_iter(), id);
search!(search_into, { #[allow(unused_mut)] let mut m = map::<S>(A, 0); }, A, m.into_iter(), id);
extremes!(extremes_into, { #[allow(unused_mut)] let mut m = map::<S>(A, 0); }, A, m.into_iter(), id);

nth!(nth_iter, { #[allow(unused_mut)] let mut m = map::<S>(A, 0); }, A, m.iter(), id);
nth!(nth_keys, { #[allow(unused_mut)] let mut m = map::<S>(A, 0); }, A, m.keys(), K);
nth!(nth_values, { #[allow(unused_mut)] let mut m = map::<S>(A, 0); }, A, m.values(), id);
nth!(nth_iter_mut, { #[allow(unused_mut)] let mut m = map::<S>(A, 0); }, A, m.iter_mut(), id);
nth!(nth_values_mut, { #[allow(unused_mut)] let mut m = map::<S>(A, 0); }, A, m.values_mut(), id);
nth!(nth_into, { #[allow(unused_mut)] let mut m = map::<S>(A, 0); }, A, m.into_iter(), id);

rev!(rev_iter, { #[allow(unused_mut)] let mut m = map::<S>(A, 0); }, A, m.iter(), id, for<'a> fixed_map::map::Iter<'a, S, u32>: DoubleEndedIterator);
rev!(rev_keys, { #[allow(unused_mut)] let mut m = map::<S>(A, 0); }, A, m.keys(), K, for<'a> fixed_map::map::Keys<'a, S, u32>: DoubleEndedIterator);
rev!(rev_values, { #[allow(unused_mut)] let mut m = map::<S>(A, 0); }, A, m.values(), id, for<'a> fixed_map::map::Values<'a, S, u32>: DoubleEndedIterator);
rev!(rev_iter_mut, { #[allow(unused_mut)] let mut m = map::<S>(A, 0); }, A, m.iter_mut(), id, for<'a> fixed_map::map::IterMut<'a, S, u32>: DoubleEndedIterator);
rev!(rev_values_mut, { #[allow(unused_mut)] let mut m = map::<S>(A, 0); }, A, m.values_mut(), id, for<'a> fixed_map::map::ValuesMut<'a, S, u32>: DoubleEndedIterator);
rev!(rev_into, { #[allow(unused_mut)] let mut m = map::<S>(A, 0); }, A, m.into_iter(), id, fixed_map::map::IntoIter<S, u32>: DoubleEndedIterator);

/// Where an exact length is claimed, it is exact.
macro_rules! exact {
    ($name:ident, $m:ident, $it:expr, $wrap:expr, $($b:tt)*) => {
        fn $name<S: Shape>() where $($b)* {
            let $m = map::<S>(A, 0);
            let r = Ref::start::<S>(A);
            let mut it = $it;
            loop {
                let n = r.left::<S>();
                ck(it.len() == n, "an exact length is exact");
                let (lo, hi) = it.size_hint();
                ck(lo == n && hi == Some(n), "an exact size hint is exact");
                if r.front::<S, _>(it.next().map($wrap)).is_none() {
                    break;
                }
            }
        }
    };
}
exact!(exact_keys, m, m.keys(), K, for<'a> fixed_map::map::Keys<'a, S, u32>: ExactSizeIterator);

each_tiny! {
    hint_iter_: hint_iter + [U5, B5, Mix, Ends, Deep];
    hint_keys_: hint_keys + [U5, B5, Mix, Ends, Deep];
    hint_values_: hint_values + [U5, B5, Mix, Ends, Deep];
    hint_iter_mut_: hint_iter_mut + [U5, B5, Mix, Ends, Deep];
    hint_values_mut_: hint_values_mut + [U5, B5, Mix, Ends, Deep];
    hint_into_: hint_into + [U5, B5, Mix, Ends, Deep];
    clone_iter_: clone_iter + [U5, Ends];
    clone_keys_: clone_keys + [U5, Ends];
    clone_values_: clone_values + [U5, Ends];
    consume_iter_: consume_iter + [U5, Ends];
    search_iter_: search_iter + [U5, Ends];
    extremes_iter_: extremes_iter + [];
    consume_keys_: consume_keys + [U5, Ends];
    search_keys_: search_keys + [U5, Ends];
    extremes_keys_: extremes_keys + [];
    consume_values_: consume_values + [U5, Ends];
    search_values_: search_values + [U5, Ends];
    extremes_values_: extremes_values + [];
    consume_iter_mut_: consume_iter_mut + [U5, Ends];
    search_iter_mut_: search_iter_mut + [U5, Ends];
    extremes_iter_mut_: extremes_iter_mut + [];
    consume_values_mut_: consume_values_mut + [U5, Ends];
    search_values_mut_: search_values_mut + [U5, Ends];
    extremes_values_mut_: extremes_values_mut + [];
    consume_into_: consume_into + [U5, Ends];
    search_into_: search_into + [U5, Ends];
    extremes_into_: extremes_into + [];
}
each_fixed! {
    clone_into_: clone_into + [U5, Ends];
    back_iter_: back_iter + [U5];
    back_keys_: back_keys + [U5];
    back_values_: back_values + [U5];
    back_iter_mut_: back_iter_mut + [U5];
    back_values_mut_: back_values_mut + [U5];
    back_into_: back_into + [U5];
    nth_iter_: nth_iter + [];
    nth_keys_: nth_keys + [];
    nth_values_: nth_values + [];
    nth_iter_mut_: nth_iter_mut + [];
    nth_values_mut_: nth_values_mut + [];
    nth_into_: nth_into + [];
    rev_iter_: rev_iter + [];
    rev_keys_: rev_keys + [];
    rev_values_: rev_values + [];
    rev_iter_mut_: rev_iter_mut + [];
    rev_values_mut_: rev_values_mut + [];
    rev_into_: rev_into + [];
}
each! {
    exact_keys_: exact_keys [Bool, Unit];
}
