//! What the most-general clients share: the universe of keys, the abstract
//! content (in ghost cells), and arbitrary reachable containers.
use crate::fm;
use fixed_map::map::MapStorage;
use fixed_map::{Key, Map, Set};

/// A key type together with its universe, in the order the documentation
/// promises for iteration.
pub trait Shape: Key + Copy + 'static {
    const N: usize;
    fn key(i: usize) -> Self;
    fn idx(self) -> usize;
    /// First index of the run of keys among which the order is unspecified.
    fn rank(i: usize) -> usize {
        i
    }
}
impl Shape for bool {
    const N: usize = 2;
    fn key(i: usize) -> bool {
        i == 0
    }
    fn idx(self) -> usize {
        if self {
            0
        } else {
            1
        }
    }
}
impl Shape for () {
    const N: usize = 1;
    fn key(_: usize) {}
    fn idx(self) -> usize {
        0
    }
}
impl<S: Shape> Shape for Option<S> {
    const N: usize = S::N + 1;
    fn key(i: usize) -> Option<S> {
        if i < S::N {
            Some(S::key(i))
        } else {
            None
        }
    }
    fn idx(self) -> usize {
        match self {
            Some(s) => s.idx(),
            None => S::N,
        }
    }
    fn rank(i: usize) -> usize {
        if i < S::N {
            S::rank(i)
        } else {
            i
        }
    }
}
#[cfg(feature = "hash")]
impl Shape for u32 {
    const N: usize = 3;
    fn key(i: usize) -> u32 {
        i as u32
    }
    fn idx(self) -> usize {
        self as usize
    }
    fn rank(_: usize) -> usize {
        0
    }
}

/// More hashed keys than any fixed size a storage might get away with.
#[cfg(all(feature = "hash", crowd))]
impl Shape for u64 {
    const N: usize = 300;
    fn key(i: usize) -> u64 {
        i as u64
    }
    fn idx(self) -> usize {
        self as usize
    }
    fn rank(_: usize) -> usize {
        0
    }
}

// Ghost regions.  Cell `r * N + i` is about key `i`.
pub const A: usize = 0; // content of the container: 0 absent, else the value
pub const B: usize = 1; // content of a second container
pub const SEEN: usize = 2;
pub const SEEN2: usize = 5;
pub const SNAP: usize = 3;
pub const CALLS: usize = 4;

#[inline]
pub fn g<S: Shape>(r: usize, i: usize) -> u32 {
    fm::ghost_get(r * S::N + i)
}
#[inline]
pub fn gs<S: Shape>(r: usize, i: usize, v: u32) {
    fm::ghost_set(r * S::N + i, v)
}
pub fn clear<S: Shape>(r: usize) {
    let mut i = 0;
    while i < S::N {
        gs::<S>(r, i, 0);
        i += 1;
    }
}
/// Atom `k` about key `i`: 0 in container A, 1 in container B, others free.
#[inline]
pub fn at(i: usize, k: usize) -> bool {
    fm::atom((i * 16 + k) as u32)
}
/// As `at`, but for large key types most keys share one atom.
#[inline]
pub fn atc<S: Shape>(i: usize, k: usize) -> bool {
    if S::N <= 33 || i % 9 == 0 || i + 2 >= S::N {
        at(i, k)
    } else {
        at(S::N, k)
    }
}
#[inline]
pub fn ck(ok: bool, label: &'static str) {
    fm::check(ok, label)
}
#[inline]
pub fn val(i: usize) -> u32 {
    100 + i as u32
}

/// A map with an arbitrary set of keys, key `i` holding `val(i)`.
pub fn map<S: Shape>(r: usize, k: usize) -> Map<S, u32> {
    let mut m = Map::new();
    let mut i = 0;
    while i < S::N {
        if atc::<S>(i, k) {
            m.insert(S::key(i), val(i));
            gs::<S>(r, i, val(i));
        }
        i += 1;
    }
    m
}
pub fn set<S: Shape>(r: usize, k: usize) -> Set<S> {
    let mut m = Set::new();
    let mut i = 0;
    while i < S::N {
        if atc::<S>(i, k) {
            m.insert(S::key(i));
            gs::<S>(r, i, 1);
        }
        i += 1;
    }
    m
}
/// Is `o` exactly the model cell (0 = absent)?
#[inline]
pub fn is(o: Option<u32>, cell: u32) -> bool {
    match o {
        Some(v) => v == cell,
        None => cell == 0,
    }
}
#[inline]
pub fn copied(o: Option<&u32>) -> Option<u32> {
    match o {
        Some(v) => Some(*v),
        None => None,
    }
}
/// Every key of `m` maps to what region `r` says.
pub fn agrees<S: Shape>(m: &Map<S, u32>, r: usize, label: &'static str) {
    let mut i = 0;
    while i < S::N {
        ck(is(copied(m.get(S::key(i))), g::<S>(r, i)), label);
        i += 1;
    }
}
pub fn set_agrees<S: Shape>(m: &Set<S>, r: usize, label: &'static str) {
    let mut i = 0;
    while i < S::N {
        ck(m.contains(S::key(i)) == (g::<S>(r, i) != 0), label);
        i += 1;
    }
}
pub fn count<S: Shape>(r: usize) -> usize {
    let mut n = 0;
    let mut i = 0;
    while i < S::N {
        if g::<S>(r, i) != 0 {
            n += 1;
        }
        i += 1;
    }
    n
}
#[allow(dead_code)]
fn _bound<S: Shape>()
where
    S::MapStorage<u32>: MapStorage<S, u32>,
{
}

// ---- iteration -------------------------------------------------------------
/// What an iterator of a container yields: which key, and which value.
pub trait Item<S: Shape> {
    fn ix(&self) -> usize;
    fn v(&self) -> u32;
    /// Write through, where the item is a mutable reference.
    fn put(self, _: u32);
    /// Does the item of key `i` come before that of key `j`, in the items' own order?
    fn under(i: usize, j: usize) -> bool
    where
        S: Ord,
    {
        S::key(i) < S::key(j)
    }
}
impl<S: Shape> Item<S> for (S, &u32) {
    fn ix(&self) -> usize {
        self.0.idx()
    }
    fn v(&self) -> u32 {
        *self.1
    }
    fn put(self, _: u32) {}
}
impl<S: Shape> Item<S> for (S, &mut u32) {
    fn ix(&self) -> usize {
        self.0.idx()
    }
    fn v(&self) -> u32 {
        *self.1
    }
    fn put(self, x: u32) {
        *self.1 = x
    }
}
impl<S: Shape> Item<S> for (S, u32) {
    fn ix(&self) -> usize {
        self.0.idx()
    }
    fn v(&self) -> u32 {
        self.1
    }
    fn put(self, _: u32) {}
}
/// A bare key (values of key iterators and sets).
pub struct K<S>(pub S);
impl<S: Shape> Item<S> for K<S> {
    fn ix(&self) -> usize {
        self.0.idx()
    }
    fn v(&self) -> u32 {
        val(self.0.idx())
    }
    fn put(self, _: u32) {}
}
impl<S: Shape> Item<S> for &u32 {
    fn under(i: usize, j: usize) -> bool {
        i < j
    }
    fn ix(&self) -> usize {
        (**self as usize).wrapping_sub(100)
    }
    fn v(&self) -> u32 {
        **self
    }
    fn put(self, _: u32) {}
}
impl<S: Shape> Item<S> for &mut u32 {
    fn under(i: usize, j: usize) -> bool {
        i < j
    }
    fn ix(&self) -> usize {
        (**self as usize).wrapping_sub(100)
    }
    fn v(&self) -> u32 {
        **self
    }
    fn put(self, x: u32) {
        *self = x
    }
}
pub fn id<T>(t: T) -> T {
    t
}

/// The reference cursor over region `r`, whose cells are `val(i)`/1 or 0.
/// Everything yielded is ticked off in `SEEN`.
#[derive(Clone, Copy)]
pub struct Ref {
    pub r: usize,
    pub seen: usize,
}
impl Ref {
    pub fn start<S: Shape>(r: usize) -> Ref {
        clear::<S>(SEEN);
        Ref { r, seen: SEEN }
    }
    /// A second cursor standing where this one does.
    pub fn fork<S: Shape>(&self, seen: usize) -> Ref {
        let mut j = 0;
        while j < S::N {
            gs::<S>(seen, j, g::<S>(self.seen, j));
            j += 1;
        }
        Ref { r: self.r, seen }
    }
    /// `x` has come out at the front.
    pub fn front<S: Shape, I: Item<S>>(&self, x: Option<I>) -> Option<I> {
        match &x {
            Some(x) => self.tick_front::<S, I>(x),
            None => self.done::<S>(),
        }
        x
    }
    pub fn back<S: Shape, I: Item<S>>(&self, x: Option<I>) -> Option<I> {
        match &x {
            Some(x) => self.tick_back::<S, I>(x),
            None => self.done::<S>(),
        }
        x
    }
    fn pending<S: Shape>(&self, j: usize) -> bool {
        (g::<S>(self.r, j) != 0) & (g::<S>(self.seen, j) == 0)
    }
    fn tick<S: Shape>(&self, j: usize, v: u32) {
        ck(g::<S>(self.r, j) != 0, "only stored entries are yielded");
        ck(g::<S>(self.seen, j) == 0, "no entry is yielded twice");
        ck(v == val(j), "a key is yielded with its own value");
        gs::<S>(self.seen, j, 1);
    }
    pub fn tick_front<S: Shape, I: Item<S>>(&self, x: &I) {
        self.pass::<S>(x.ix(), x.v());
    }
    /// Key `i` has come out at the front, with the value `v`.
    pub fn pass<S: Shape>(&self, i: usize, v: u32) {
        ck(i < S::N, "only stored entries are yielded");
        if cfg!(crowd) {
            // (no order among hashed keys)
            return self.tick::<S>(i, v);
        }
        let (mut before, mut pend) = (false, false);
        let mut j = 0;
        while j < S::N {
            if S::rank(j) == j {
                before = pend;
            }
            pend = pend | self.pending::<S>(j);
            if i == j {
                self.tick::<S>(j, v);
                ck(!before, "entries come in declaration order");
            }
            j += 1;
        }
    }
    pub fn tick_back<S: Shape, I: Item<S>>(&self, x: &I) {
        let i = x.ix();
        ck(i < S::N, "only stored entries are yielded");
        let v = x.v();
        let (mut after, mut pend) = (false, false);
        let mut n = S::N;
        while n > 0 {
            let j = n - 1;
            if n == S::N || S::rank(n) != S::rank(j) {
                after = pend;
            }
            pend = pend | self.pending::<S>(j);
            if i == j {
                self.tick::<S>(j, v);
                ck(!after, "entries come from the back in reverse declaration order");
            }
            n -= 1;
        }
    }
    pub fn done<S: Shape>(&self) {
        let mut j = 0;
        while j < S::N {
            ck(!self.pending::<S>(j), "every stored entry is yielded");
            j += 1;
        }
    }
    /// How many entries are still to come.
    pub fn left<S: Shape>(&self) -> usize {
        let mut n = 0;
        let mut j = 0;
        while j < S::N {
            n += self.pending::<S>(j) as usize;
            j += 1;
        }
        n
    }
    /// Pass over the first entry still to come (ordered shapes).
    pub fn skip<S: Shape>(&self) {
        let mut done = false;
        let mut j = 0;
        while j < S::N {
            if !done & self.pending::<S>(j) {
                gs::<S>(self.seen, j, 1);
                done = true;
            }
            j += 1;
        }
    }
    /// Pass over the last entry still to come (ordered shapes).
    pub fn skip_back<S: Shape>(&self) {
        let mut done = false;
        let mut n = S::N;
        while n > 0 {
            n -= 1;
            if !done & self.pending::<S>(n) {
                gs::<S>(self.seen, n, 1);
                done = true;
            }
        }
    }
    /// `x` is one of the entries still to come before (some have been passed over).
    pub fn pending_item<S: Shape, I: Item<S>>(&self, x: I) {
        let i = x.ix();
        ck(i < S::N, "only stored entries are yielded");
        let v = x.v();
        let mut j = 0;
        while j < S::N {
            if i == j {
                self.tick::<S>(j, v);
            }
            j += 1;
        }
    }
    /// `x` is the last (first) by index of the entries still to come.
    pub fn extreme<S: Shape, I: Item<S>>(&self, x: Option<I>, last: bool) {
        let mut e = S::N;
        let mut j = 0;
        while j < S::N {
            if self.pending::<S>(j) & (last | (e == S::N)) {
                e = j;
            }
            j += 1;
        }
        match x {
            Some(x) => {
                ck(x.ix() == e, "the extreme is the extreme of what is left");
                self.pending_item::<S, I>(x);
            }
            None => self.done::<S>(),
        }
    }
    /// `x` is the greatest (least) of the entries still to come.
    pub fn extreme_key<S: Shape + Ord, I: Item<S>>(&self, x: Option<I>, greatest: bool) {
        let mut e = S::N;
        let mut j = 0;
        while j < S::N {
            if self.pending::<S>(j) {
                if e == S::N || I::under(j, e) != greatest {
                    e = j;
                }
            }
            j += 1;
        }
        match x {
            Some(x) => {
                ck(x.ix() == e, "the extreme is the extreme of what is left");
                self.pending_item::<S, I>(x);
            }
            None => self.done::<S>(),
        }
    }
    pub fn hint_upper<S: Shape>(&self, h: (usize, Option<usize>)) {
        let n = self.left::<S>();
        match h.1 {
            Some(u) => ck(n <= u, "the upper size bound is not below what is left"),
            None => {}
        }
    }
    pub fn hint<S: Shape>(&self, h: (usize, Option<usize>)) {
        let n = self.left::<S>();
        ck(h.0 <= n, "the lower size bound is not above what is left");
        match h.1 {
            Some(u) => ck(n <= u, "the upper size bound is not below what is left"),
            None => {}
        }
    }
}
