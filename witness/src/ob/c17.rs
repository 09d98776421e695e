//! C17: collecting and converting.
use crate::h::*;
use fixed_map::{Map, Set};

/// A source of entries: `passes` sweeps over the universe, atoms picking what
/// comes, under any size hint, ending (for good) after the sweeps.
struct Src<S> {
    p: usize,
    passes: usize,
    i: usize,

    k: core::marker::PhantomData<S>,
}
impl<S: Shape> Src<S> {
    fn new(passes: usize) -> Self {
        Src { p: 0, passes, i: 0, k: core::marker::PhantomData }
    }
    fn step(&mut self) -> Option<(usize, u32)> {
        while self.p < self.passes {
            while self.i < S::N {
                let i = if self.p == 1 { S::N - 1 - self.i } else { self.i };
                self.i += 1;
                if atc::<S>(i, 4 + self.p) {
                    let v = val(i) + 1000 * self.p as u32;
                    gs::<S>(A, i, v);
                    return Some((i, v));
                }
            }
            self.p += 1;
            self.i = 0;
        }
        gs::<S>(B, 0, 1); // the end was reached
        None
    }
    fn hint(&self) -> (usize, Option<usize>) {
        // any answer is allowed from safe code
        if at(0, 9) {
            (0, None)
        } else if at(0, 10) {
            (0, Some(0))
        } else if at(0, 11) {
            (usize::MAX, Some(usize::MAX))
        } else {
            (3, Some(1))
        }
    }
}
struct Entries<S>(Src<S>);
impl<S: Shape> Iterator for Entries<S> {
    type Item = (S, u32);
    fn next(&mut self) -> Option<(S, u32)> {
        match self.0.step() {
            Some((i, v)) => Some((S::key(i), v)),
            None => None,
        }
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        self.0.hint()
    }
}
struct Keys<S>(Src<S>);
impl<S: Shape> Iterator for Keys<S> {
    type Item = S;
    fn next(&mut self) -> Option<S> {
        match self.0.step() {
            Some((i, _)) => Some(S::key(i)),
            None => None,
        }
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        self.0.hint()
    }
}
fn collect<S: Shape>() {
    let m: Map<S, u32> = Entries::<S>(Src::new(2)).collect();
    if S::N > 0 {
        ck(g::<S>(B, 0) == 1, "the source is consumed to its end");
    }
    agrees(&m, A, "collecting has the effect of inserting in order");
    ck(m.len() == count::<S>(A), "collecting has the effect of inserting in order");
}
fn collect3<S: Shape>() {
    let m: Map<S, u32> = core::iter::FromIterator::from_iter(Entries::<S>(Src::new(3)));
    agrees(&m, A, "collecting has the effect of inserting in order");
}
fn collect_set<S: Shape>() {
    let m: Set<S> = Keys::<S>(Src::new(2)).collect();
    if S::N > 0 {
        ck(g::<S>(B, 0) == 1, "the source is consumed to its end");
    }
    set_agrees(&m, A, "collecting has the effect of inserting in order");
    ck(m.len() == count::<S>(A), "collecting has the effect of inserting in order");
}
fn arrays<S: Shape>() {
    let m: Set<S> = Set::from([]);
    ck(m.is_empty(), "an empty array makes an empty set");
    let mut a = 0;
    while a < S::N {
        let m: Set<S> = Set::from([S::key(a)]);
        clear::<S>(A);
        gs::<S>(A, a, 1);
        set_agrees(&m, A, "an array's values all get in");
        ck(m.len() == 1, "an array's values all get in");
        a += 1;
    }
    let mut a = 0;
    while a < S::N {
        let mut b = 0;
        while b < S::N {
            let c = (a * 2 + b) % S::N;
            let m: Set<S> = Set::from([S::key(a), S::key(b)]);
            clear::<S>(A);
            gs::<S>(A, a, 1);
            gs::<S>(A, b, 1);
            set_agrees(&m, A, "an array's values all get in");
            ck(m.len() == count::<S>(A), "an array's values all get in");
            let m: Set<S> = [S::key(a), S::key(b), S::key(c)].into();
            gs::<S>(A, c, 1);
            set_agrees(&m, A, "an array's values all get in");
            let m: Set<S> = Set::from([S::key(c), S::key(a), S::key(b), S::key(a), S::key(c)]);
            set_agrees(&m, A, "an array's values all get in");
            b += 1;
        }
        a += 1;
    }
}
/// Large universes, in a scrambled order with repeats.
struct Steps<S>(usize, core::marker::PhantomData<S>);
impl<S: Shape> Iterator for Steps<S> {
    type Item = (S, u32);
    fn next(&mut self) -> Option<(S, u32)> {
        if self.0 >= 2 * S::N {
            return None;
        }
        let i = (self.0 * 7 + self.0 / S::N) % S::N;
        self.0 += 1;
        if i % 3 == 1 && self.0 < S::N {
            return self.next();
        }
        gs::<S>(A, i, self.0 as u32);
        Some((S::key(i), self.0 as u32))
    }
}
fn collect_large<S: Shape>() {
    let m: Map<S, u32> = Steps::<S>(0, core::marker::PhantomData).collect();
    agrees(&m, A, "collecting has the effect of inserting in order");
    clear::<S>(A);
    let m: Set<S> = Steps::<S>(0, core::marker::PhantomData).map(|x| x.0).collect();
    set_agrees(&m, A, "collecting has the effect of inserting in order");
}
/// Collecting a container's own iterators rebuilds it.
fn rebuild<S: Shape>() {
    let a = map::<S>(A, 0);
    let b: Map<S, u32> = a.iter().map(|(k, v)| (k, *v)).collect();
    agrees(&b, A, "collecting a map's entries rebuilds it");
    let k: Set<S> = a.keys().collect();
    set_agrees(&k, A, "collecting a map's keys gives their set");
    let b: Map<S, u32> = a.into_iter().collect();
    agrees(&b, A, "collecting a map's entries rebuilds it");
    let k2: Set<S> = k.iter().collect();
    set_agrees(&k2, A, "collecting a set's values rebuilds it");
    let k3: Set<S> = k.into_iter().collect();
    set_agrees(&k3, A, "collecting a set's values rebuilds it");
}
each_small! {
    collect_: collect + [U8];
    collect_set_: collect_set + [U8, B2, B4, B7, B8, B9];
    rebuild_: rebuild + [U8];
}
each_tiny! {
    collect3_: collect3 + [U5];
    arrays_: arrays + [U5, B5, B9];
}
each! {
    collect_large_: collect_large [U16, U33, U65, U129, B16, B17, B33, B65, B128];
}
#[cfg(crowd)]
each! {
    collect_crowd: collect_large [] hash [Crowd];
}
