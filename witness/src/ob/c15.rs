//! C15: ordering.
use crate::fm;
use crate::h::*;
use core::cmp::Ordering;
use fixed_map::{Map, Set};

/// The lexicographic order over (key, value) entries of regions A and B, keys
/// by position and values by number.
fn lex<S: Shape>() -> Ordering {
    let mut r = Ordering::Equal;
    let mut i = 0;
    while i < S::N {
        let (a, b) = (g::<S>(A, i), g::<S>(B, i));
        let (ha, hb) = (a != 0, b != 0);
        let (mut ma, mut mb) = (false, false);
        let mut j = i + 1;
        while j < S::N {
            ma = ma | (g::<S>(A, j) != 0);
            mb = mb | (g::<S>(B, j) != 0);
            j += 1;
        }
        let here = if ha & hb {
            if a < b {
                Ordering::Less
            } else if a > b {
                Ordering::Greater
            } else {
                Ordering::Equal
            }
        } else if ha {
            if mb {
                Ordering::Less
            } else {
                Ordering::Greater
            }
        } else if hb {
            if ma {
                Ordering::Greater
            } else {
                Ordering::Less
            }
        } else {
            Ordering::Equal
        };
        if r as i8 == 0 {
            r = here;
        }
        i += 1;
    }
    r
}
fn o(a: Ordering, b: Ordering) -> bool {
    a as i8 == b as i8
}
fn po(a: Option<Ordering>, b: Ordering) -> bool {
    match a {
        Some(a) => o(a, b),
        None => false,
    }
}
/// Two maps whose common keys may have equal values or differ either way.
fn maps<S: Shape>() -> (Map<S, u32>, Map<S, u32>) {
    let a = map::<S>(A, 0);
    let mut b = Map::new();
    let mut i = 0;
    while i < S::N {
        if at(i, 1) {
            let v = val(i) + if at(i, 2) { 0 } else if at(i, 3) { 1000 } else { 1000u32.wrapping_neg() };
            let v = if v > 100_000 { 1 } else { v };
            b.insert(S::key(i), v);
            gs::<S>(B, i, v);
        }
        i += 1;
    }
    (a, b)
}
fn map_cmp<S: Shape>()
where
    S::MapStorage<u32>: Ord,
{
    let (a, b) = maps::<S>();
    ck(o(Ord::cmp(&a, &b), lex::<S>()), "maps compare lexicographically by their entries");
}
fn map_ops<S: Shape>()
where
    S::MapStorage<u32>: Ord,
{
    let (a, b) = maps::<S>();
    let w = lex::<S>();
    ck(po(PartialOrd::partial_cmp(&a, &b), w), "the partial order is the total order");
    ck((a < b) == (w as i8 == -1), "< agrees with the order");
    ck((a <= b) == (w as i8 != 1), "<= agrees with the order");
    ck((a > b) == (w as i8 == 1), "> agrees with the order");
    ck((a >= b) == (w as i8 != -1), ">= agrees with the order");
    ck((a == b) == (w as i8 == 0), "the order is consistent with equality");
    ck(o(Ord::cmp(&a, &a), Ordering::Equal), "a map equals itself");
}
fn map_pick<S: Shape>()
where
    S::MapStorage<u32>: Ord,
{
    let mut which = 0;
    while which < 2 {
        clear::<S>(A);
        clear::<S>(B);
        let (a, b) = maps::<S>();
        let w = lex::<S>();
        // max and min pick by the order
        let (m, r) = if which == 0 {
            (a.max(b), if w as i8 == 1 { A } else { B })
        } else {
            (a.min(b), if w as i8 == 1 { B } else { A })
        };
        agrees(&m, r, "max and min agree with the order");
        which += 1;
    }
}
fn sets<S: Shape>() -> (Set<S>, Set<S>) {
    let a = set::<S>(A, 0);
    let mut b = Set::new();
    let mut i = 0;
    while i < S::N {
        if at(i, 1) {
            b.insert(S::key(i));
            gs::<S>(B, i, 1);
        }
        i += 1;
    }
    (a, b)
}
fn set_cmp<S: Shape>()
where
    S::SetStorage: Ord,
{
    let (a, b) = sets::<S>();
    ck(o(Ord::cmp(&a, &b), lex::<S>()), "sets compare lexicographically by their values");
}
fn set_ops<S: Shape>()
where
    S::SetStorage: Ord,
{
    let (a, b) = sets::<S>();
    let w = lex::<S>();
    ck(po(PartialOrd::partial_cmp(&a, &b), w), "the partial order is the total order");
    ck((a < b) == (w as i8 == -1), "< agrees with the order");
    ck((a <= b) == (w as i8 != 1), "<= agrees with the order");
    ck((a > b) == (w as i8 == 1), "> agrees with the order");
    ck((a >= b) == (w as i8 != -1), ">= agrees with the order");
    ck((a == b) == (w as i8 == 0), "the order is consistent with equality");
    ck(o(Ord::cmp(&a, &a), Ordering::Equal), "a set equals itself");
}
fn set_pick<S: Shape>()
where
    S::SetStorage: Ord,
{
    let mut which = 0;
    while which < 2 {
        clear::<S>(A);
        clear::<S>(B);
        let (a, b) = sets::<S>();
        let w = lex::<S>();
        let (m, r) = if which == 0 {
            (a.max(b), if w as i8 == 1 { A } else { B })
        } else {
            (a.min(b), if w as i8 == 1 { B } else { A })
        };
        set_agrees(&m, r, "max and min agree with the order");
        which += 1;
    }
}
/// Three sets: `x.clamp(lo, hi)`.
fn set_clamp<S: Shape>()
where
    S::SetStorage: Ord,
{
    let (x, lo) = sets::<S>();
    let below = lex::<S>() as i8 == -1; // x < lo
    let mut hi = Set::new();
    let mut i = 0;
    while i < S::N {
        gs::<S>(SNAP, i, g::<S>(A, i));
        if at(i, 2) {
            hi.insert(S::key(i));
            gs::<S>(CALLS, i, 1);
        }
        i += 1;
    }
    // lo <= hi
    let mut i = 0;
    while i < S::N {
        gs::<S>(A, i, g::<S>(CALLS, i));
        i += 1;
    }
    fm::assume(lex::<S>() as i8 != -1);
    // x > hi
    let mut i = 0;
    while i < S::N {
        gs::<S>(A, i, g::<S>(SNAP, i));
        gs::<S>(SEEN, i, g::<S>(B, i));
        gs::<S>(B, i, g::<S>(CALLS, i));
        i += 1;
    }
    let above = lex::<S>() as i8 == 1;
    let m = x.clamp(lo, hi);
    let r = if below {
        SEEN
    } else if above {
        CALLS
    } else {
        SNAP
    };
    set_agrees(&m, r, "clamp agrees with the order");
}
fn map_clamp3<S: Shape>()
where
    S::MapStorage<u32>: Ord,
{
    let (x, lo) = maps::<S>();
    let below = lex::<S>() as i8 == -1; // x < lo
    let mut hi = Map::new();
    let mut i = 0;
    while i < S::N {
        gs::<S>(SNAP, i, g::<S>(A, i));
        if at(i, 4) {
            hi.insert(S::key(i), val(i));
            gs::<S>(CALLS, i, val(i));
        }
        i += 1;
    }
    let mut i = 0;
    while i < S::N {
        gs::<S>(A, i, g::<S>(CALLS, i));
        i += 1;
    }
    fm::assume(lex::<S>() as i8 != -1);
    let mut i = 0;
    while i < S::N {
        gs::<S>(A, i, g::<S>(SNAP, i));
        gs::<S>(SEEN, i, g::<S>(B, i));
        gs::<S>(B, i, g::<S>(CALLS, i));
        i += 1;
    }
    let above = lex::<S>() as i8 == 1;
    let m = x.clamp(lo, hi);
    let r = if below {
        SEEN
    } else if above {
        CALLS
    } else {
        SNAP
    };
    agrees(&m, r, "clamp agrees with the order");
}
/// A value whose comparison is free: two values of one key compare as atoms say.
#[derive(Clone, Copy)]
pub struct W(u32);
impl W {
    fn rel(&self, o: &W) -> Option<Ordering> {
        ck(self.0 == o.0, "values are compared with the same key's value only");
        let i = self.0 as usize;
        if at(i, 6) {
            if at(i, 7) {
                Some(Ordering::Less)
            } else {
                Some(Ordering::Greater)
            }
        } else if at(i, 7) {
            Some(Ordering::Equal)
        } else {
            None
        }
    }
}
impl PartialEq for W {
    fn eq(&self, o: &W) -> bool {
        match self.rel(o) {
            Some(r) => r as i8 == 0,
            None => false,
        }
    }
}
impl PartialOrd for W {
    fn partial_cmp(&self, o: &W) -> Option<Ordering> {
        self.rel(o)
    }
}
fn partial<S: Shape>()
where
    S::MapStorage<W>: PartialOrd,
{
    let (mut a, mut b) = (Map::<S, W>::new(), Map::<S, W>::new());
    let mut i = 0;
    while i < S::N {
        if at(i, 0) {
            a.insert(S::key(i), W(i as u32));
            gs::<S>(A, i, 1);
        }
        if at(i, 1) {
            b.insert(S::key(i), W(i as u32));
            gs::<S>(B, i, 1);
        }
        i += 1;
    }
    // 0 less, 1 equal, 2 greater, 3 incomparable
    let mut want = 1;
    let mut i = 0;
    while i < S::N {
        let (ha, hb) = (g::<S>(A, i) != 0, g::<S>(B, i) != 0);
        let (mut ma, mut mb) = (false, false);
        let mut j = i + 1;
        while j < S::N {
            ma = ma | (g::<S>(A, j) != 0);
            mb = mb | (g::<S>(B, j) != 0);
            j += 1;
        }
        let here = if ha & hb {
            if at(i, 6) {
                if at(i, 7) {
                    0
                } else {
                    2
                }
            } else if at(i, 7) {
                1
            } else {
                3
            }
        } else if ha {
            if mb {
                0
            } else {
                2
            }
        } else if hb {
            if ma {
                2
            } else {
                0
            }
        } else {
            1
        };
        if want == 1 {
            want = here;
        }
        i += 1;
    }
    let r = match a.partial_cmp(&b) {
        Some(Ordering::Less) => 0,
        Some(Ordering::Equal) => 1,
        Some(Ordering::Greater) => 2,
        None => 3,
    };
    ck(r == want, "maps of partially ordered values compare lexicographically");
    ck((a < b) == (want == 0), "< agrees with the order");
    ck((a <= b) == (want < 2), "<= agrees with the order");
    ck((a > b) == (want == 2), "> agrees with the order");
    ck((a >= b) == ((want == 2) | (want == 1)), ">= agrees with the order");
    // with itself: a value may be unordered even then
    let mut want = 1;
    let mut i = 0;
    while i < S::N {
        if (want == 1) & (g::<S>(A, i) != 0) {
            want = match (at(i, 6), at(i, 7)) {
                (true, true) => 0,
                (true, false) => 2,
                (false, true) => 1,
                (false, false) => 3,
            };
        }
        i += 1;
    }
    let r = match a.partial_cmp(&a) {
        Some(Ordering::Less) => 0,
        Some(Ordering::Equal) => 1,
        Some(Ordering::Greater) => 2,
        None => 3,
    };
    ck(r == want, "values are compared by their own order, with a map itself too");
}
each! {
    map_cmp_: map_cmp [U0, U1, U2, U3, U4, U5, U6, U8, U10, Disc, DiscPerm, DiscPart, B3, DiscBit, DiscBitPerm, DiscBitPart];
    map_ops_: map_ops [U0, U1, U2, U3, U4, U5, Disc, B3];
    map_pick_: map_pick [U0, U1, U2, U3, U4, B3];
    map_clamp_: map_clamp3 [U0, U1, U2, U3];
    set_cmp_: set_cmp [U0, U1, U2, U3, U4, U5, U6, U8, U10, Disc, Unit, B0, B1, B2, B3, B4, B5, B6, B7, B8, B9, B10, DiscPerm, DiscPart, DiscBit, DiscBitPerm, DiscBitPart];
    set_ops_: set_ops [U0, U1, U2, U3, U4, U5, Disc, Unit, B0, B1, B2, B3, B4, B5, B9, DiscBit];
    set_pick_: set_pick [U0, U1, U2, U3, U4, U5, Unit, B0, B1, B2, B3, B4, B5];
    set_clamp_: set_clamp [U0, U1, U2, U3, Unit, B0, B1, B2, B3];
    partial_: partial [U0, U1, U2, U3, U4, Disc, DiscPerm, B3];
}
