//! C20: every stored value is dropped exactly once or handed back.
use crate::fm;
use crate::h::*;
use core::marker::PhantomData;
use fixed_map::map::{Entry, OccupiedEntry, VacantEntry};
use fixed_map::Map;

/// A value with an identity: 0 unborn, 1 alive, 2 dropped.
pub struct Tok<S: Shape> {
    id: u32,
    s: PhantomData<S>,
}
#[inline]
fn life<S: Shape>(id: u32) -> u32 {
    fm::ghost_get(8 * S::N + id as usize)
}
#[inline]
fn slife<S: Shape>(id: u32, v: u32) {
    fm::ghost_set(8 * S::N + id as usize, v)
}
fn born<S: Shape>(id: usize) -> Tok<S> {
    let id = id as u32;
    ck(life::<S>(id) == 0, "no value is duplicated");
    slife::<S>(id, 1);
    Tok { id, s: PhantomData }
}
impl<S: Shape> Drop for Tok<S> {
    fn drop(&mut self) {
        ck(life::<S>(self.id) != 2, "no value is dropped twice");
        ck(life::<S>(self.id) == 1, "only stored values are dropped");
        slife::<S>(self.id, 2);
    }
}
impl<S: Shape> Clone for Tok<S> {
    fn clone(&self) -> Self {
        ck(life::<S>(self.id) == 1, "only live values are cloned");
        let i = self.id as usize % S::N;
        let mut bad = false;
        let mut j = 0;
        while j < S::N {
            if i == j {
                bad = at(j, 9);
            }
            j += 1;
        }
        if bad {
            fm::panic_now()
        }
        born(2 * S::N + i)
    }
}
const IDS: usize = 4;
fn reset<S: Shape>() {
    clear::<S>(A);
    let mut i = 0;
    while i < IDS * S::N + 4 {
        slife::<S>(i as u32, 0);
        i += 1;
    }
}
/// At the end of everything no value is left alive.
fn gone<S: Shape>() {
    let mut i = 0;
    while i < IDS * S::N + 4 {
        ck(life::<S>(i as u32) != 1, "every value is dropped in the end");
        i += 1;
    }
}
fn toks<S: Shape>() -> Map<S, Tok<S>> {
    let mut m = Map::new();
    let mut i = 0;
    while i < S::N {
        if atc::<S>(i, 0) {
            m.insert(S::key(i), born(i));
            gs::<S>(A, i, 1 + i as u32);
        }
        i += 1;
    }
    m
}
/// Every stored value is alive, and the expected one (cell = id + 1).
fn stored<S: Shape>(m: &Map<S, Tok<S>>) {
    let mut i = 0;
    while i < S::N {
        match m.get(S::key(i)) {
            Some(t) => {
                ck(t.id + 1 == g::<S>(A, i), "no value is lost or swapped");
                ck(life::<S>(t.id) == 1, "no stored value is dropped early");
            }
            None => ck(g::<S>(A, i) == 0, "no value is lost or swapped"),
        }
        i += 1;
    }
}
/// Every stored value is alive, whatever is stored.
fn sound<S: Shape>(m: &Map<S, Tok<S>>) {
    let mut i = 0;
    while i < S::N {
        match m.get(S::key(i)) {
            Some(t) => ck(life::<S>(t.id) == 1, "no stored value is dropped early"),
            None => {}
        }
        i += 1;
    }
}
fn handed<S: Shape>(t: &Tok<S>, id: usize) {
    ck(t.id as usize == id, "the value handed back is the one that was stored");
    ck(life::<S>(t.id) == 1, "a value handed back has not been dropped");
}
fn kept<S: Shape>(id: usize, w: &'static str) {
    ck(life::<S>(id as u32) == 1, w)
}
fn lost<S: Shape>(id: usize, w: &'static str) {
    ck(life::<S>(id as u32) == 2, w)
}

fn whole<S: Shape>() {
    let m = toks::<S>();
    stored(&m);
    drop(m);
    gone::<S>();
}
macro_rules! per_key {
    ($name:ident, $m:ident, $q:ident, $b:block) => {
        fn $name<S: Shape>() {
            let mut $q = 0;
            while $q < S::N {
                reset::<S>();
                #[allow(unused_mut)]
                let mut $m = toks::<S>();
                $b
                stored(&$m);
                drop($m);
                gone::<S>();
                $q += 1;
            }
        }
    };
}
per_key!(insert, m, q, {
    let n = S::N + q;
    match m.insert(S::key(q), born(n)) {
        Some(old) => {
            ck(g::<S>(A, q) != 0, "only a stored value is handed back");
            handed(&old, q);
        }
        None => ck(g::<S>(A, q) == 0, "a replaced value is handed back"),
    }
    kept::<S>(n, "no stored value is dropped early");
    gs::<S>(A, q, n as u32 + 1);
});
per_key!(remove, m, q, {
    match m.remove(S::key(q)) {
        Some(old) => {
            ck(g::<S>(A, q) != 0, "only a stored value is handed back");
            handed(&old, q);
        }
        None => ck(g::<S>(A, q) == 0, "a removed value is handed back"),
    }
    gs::<S>(A, q, 0);
});
per_key!(assign, m, q, {
    if let Some(v) = m.get_mut(S::key(q)) {
        *v = born(S::N + q);
        lost::<S>(q, "a value that is assigned over is dropped");
        gs::<S>(A, q, (S::N + q) as u32 + 1);
    }
});
per_key!(entry, m, q, {
    match m.entry(S::key(q)) {
        Entry::Occupied(mut o) => {
            if at(S::N, 4) {
                let old = o.insert(born(S::N + q));
                handed(&old, q);
                kept::<S>(S::N + q, "no stored value is dropped early");
                gs::<S>(A, q, (S::N + q) as u32 + 1);
            } else if at(S::N, 5) {
                let old = o.remove();
                handed(&old, q);
                gs::<S>(A, q, 0);
            } else if at(S::N, 6) {
                handed(o.into_mut(), q);
            } else if at(S::N, 7) {
                *o.get_mut() = born(S::N + q);
                gs::<S>(A, q, (S::N + q) as u32 + 1);
            }
        }
        Entry::Vacant(v) => {
            if at(S::N, 4) {
                handed(v.insert(born(S::N + q)), S::N + q);
                gs::<S>(A, q, (S::N + q) as u32 + 1);
            }
        }
    }
});
per_key!(or_insert, m, q, {
    let n = S::N + q;
    let had = g::<S>(A, q) != 0;
    if at(S::N, 4) {
        let r = m.entry(S::key(q)).or_insert(born(n));
        if had {
            handed(r, q);
            lost::<S>(n, "a default that is not needed is dropped");
        } else {
            handed(r, n);
        }
    } else if at(S::N, 5) {
        let r = m.entry(S::key(q)).or_insert_with(|| born(n));
        handed(r, if had { q } else { n });
    } else {
        let r = m.entry(S::key(q)).and_modify(|v| *v = born(n)).or_insert_with_key(|_| born(n));
        handed(r, n);
        if had {
            lost::<S>(q, "a value that is assigned over is dropped");
            gs::<S>(A, q, 0);
        }
    }
    if g::<S>(A, q) == 0 {
        gs::<S>(A, q, n as u32 + 1);
    }
});
// A callback of an entry that panics leaves the map as it was.
per_key!(entry_panic, m, q, {
    let up = fm::catch(|| {
        if at(S::N, 4) {
            m.entry(S::key(q)).or_insert_with(|| fm::panic_now());
        } else if at(S::N, 5) {
            m.entry(S::key(q)).or_insert_with_key(|_| fm::panic_now());
        } else {
            m.entry(S::key(q)).and_modify(|_| fm::panic_now());
        }
    });
    let had = g::<S>(A, q) != 0;
    ck(up == (had != (at(S::N, 4) | at(S::N, 5))), "a callback's panic comes out");
});
fn clear_<S: Shape>() {
    let mut m = toks::<S>();
    m.clear();
    let mut i = 0;
    while i < S::N {
        if g::<S>(A, i) != 0 {
            lost::<S>(i, "clearing drops every value");
        }
        gs::<S>(A, i, 0);
        i += 1;
    }
    stored(&m);
    if S::N > 0 {
        // and it is as good as new
        let q = S::N - 1;
        m.insert(S::key(q), born(S::N + q));
        gs::<S>(A, q, (S::N + q) as u32 + 1);
    }
    stored(&m);
    drop(m);
    gone::<S>();
}
fn retain<S: Shape>() {
    let mut m = toks::<S>();
    m.retain(|k, v| {
        handed(v, k.idx());
        let mut r = false;
        let mut j = 0;
        while j < S::N {
            if k.idx() == j {
                r = at(j, 5);
            }
            j += 1;
        }
        r
    });
    let mut i = 0;
    while i < S::N {
        if (g::<S>(A, i) != 0) & !at(i, 5) {
            lost::<S>(i, "a rejected value is dropped");
            gs::<S>(A, i, 0);
        }
        i += 1;
    }
    stored(&m);
    drop(m);
    gone::<S>();
}
fn retain_panic<S: Shape>() {
    let mut m = toks::<S>();
    fm::catch(|| {
        m.retain(|k, v| {
            handed(v, k.idx());
            let (mut r, mut p) = (false, false);
            let mut j = 0;
            while j < S::N {
                if k.idx() == j {
                    r = at(j, 5);
                    p = at(j, 6);
                }
                j += 1;
            }
            if p {
                fm::panic_now()
            }
            r
        })
    });
    sound(&m);
    drop(m);
    gone::<S>();
}
/// A by-value iterator left part way.
fn partial<S: Shape>() {
    let m = toks::<S>();
    let mut it = m.into_iter();
    let mut t = 0;
    loop {
        if at(t, 5) {
            break;
        }
        match it.next() {
            Some((k, v)) => {
                handed(&v, k.idx());
                // going on with what has come out being dropped or not
                if at(t, 6) {
                    drop(v);
                } else {
                    let _keep = v;
                }
            }
            None => break,
        }
        t += 1;
    }
    drop(it);
    gone::<S>();
}
/// What a partly consumed iterator has not handed out is alive till then.
fn partial_alive<S: Shape>() {
    let m = toks::<S>();
    let mut it = m.into_iter();
    let first = it.next();
    let mut i = 0;
    while i < S::N {
        if g::<S>(A, i) != 0 {
            kept::<S>(i, "nothing is dropped before its time");
        }
        i += 1;
    }
    drop(it);
    let mut i = 0;
    while i < S::N {
        if g::<S>(A, i) != 0 {
            let out = match &first {
                Some((k, v)) => {
                    handed(v, k.idx());
                    k.idx() == i
                }
                None => false,
            };
            ck((life::<S>(i as u32) == 1) == out, "an iterator drops what it has not handed out, and only that");
        }
        i += 1;
    }
    drop(first);
    gone::<S>();
}
/// Consuming adaptors, with a callback that may panic.
fn adaptors<S: Shape>() {
    let mut which = 0;
    while which < 6 {
        reset::<S>();
        let m = toks::<S>();
        let it = m.into_iter();
        fm::catch(move || {
            let stop = |k: usize| {
                let mut p = false;
                let mut j = 0;
                while j < S::N {
                    if k == j {
                        p = at(j, 5);
                    }
                    j += 1;
                }
                if p {
                    fm::panic_now()
                }
            };
            let mut it = it;
            match which {
                0 => it.for_each(|(k, v)| {
                    handed(&v, k.idx());
                    stop(k.idx());
                }),
                1 => {
                    let _ = it.count();
                }
                2 => {
                    let l = it.last();
                    if let Some((k, v)) = &l {
                        handed(v, k.idx());
                    }
                }
                3 => {
                    let l = it.nth(1);
                    if let Some((k, v)) = &l {
                        handed(v, k.idx());
                    }
                }
                4 => {
                    for (k, v) in it {
                        handed(&v, k.idx());
                        stop(k.idx());
                    }
                }
                _ => {
                    let l = it.fold(None, |_, (k, v)| {
                        stop(k.idx());
                        handed(&v, k.idx());
                        Some(v)
                    });
                    drop(l);
                }
            }
        });
        gone::<S>();
        which += 1;
    }
}
fn back<S: Shape>()
where
    <S::MapStorage<Tok<S>> as fixed_map::map::MapStorage<S, Tok<S>>>::IntoIter: DoubleEndedIterator,
{
    let m = toks::<S>();
    let mut it = m.into_iter();
    let mut t = 0;
    loop {
        if at(t, 5) {
            break;
        }
        let x = if at(t, 6) { it.next() } else { it.next_back() };
        match x {
            Some((k, v)) => handed(&v, k.idx()),
            None => break,
        }
        t += 1;
    }
    drop(it);
    gone::<S>();
}
fn clone<S: Shape>()
where
    S::MapStorage<Tok<S>>: Clone,
{
    let a = toks::<S>();
    fm::catch(|| {
        let b = a.clone();
        sound(&b);
        drop(b);
    });
    stored(&a);
    let mut i = 0;
    while i < S::N {
        ck(life::<S>((2 * S::N + i) as u32) != 1, "a failed or dropped clone drops what it has cloned");
        i += 1;
    }
    drop(a);
    gone::<S>();
}
fn clone_from<S: Shape>()
where
    S::MapStorage<Tok<S>>: Clone,
{
    let a = toks::<S>();
    let mut b = Map::<S, Tok<S>>::new();
    let mut i = 0;
    while i < S::N {
        if atc::<S>(i, 1) {
            b.insert(S::key(i), born(S::N + i));
        }
        i += 1;
    }
    fm::catch(|| b.clone_from(&a));
    stored(&a);
    sound(&b);
    drop(a);
    drop(b);
    gone::<S>();
}
/// A source of values with repeats, that may panic.
struct Source<S> {
    p: usize,
    i: usize,
    s: PhantomData<S>,
}
impl<S: Shape> Iterator for Source<S> {
    type Item = (S, Tok<S>);
    fn next(&mut self) -> Option<(S, Tok<S>)> {
        while self.p < 2 {
            while self.i < S::N {
                let i = self.i;
                self.i += 1;
                if at(i, 4 + self.p) {
                    if at(i, 6 + self.p) {
                        fm::panic_now()
                    }
                    return Some((S::key(i), born(self.p * S::N + i)));
                }
            }
            self.p += 1;
            self.i = 0;
        }
        None
    }
}
fn collect<S: Shape>() {
    fm::catch(|| {
        let m: Map<S, Tok<S>> = Source { p: 0, i: 0, s: PhantomData }.collect();
        sound(&m);
        drop(m);
    });
    gone::<S>();
}
/// Overwriting a whole map.
fn replace<S: Shape>() {
    let mut m = toks::<S>();
    let mut i = 0;
    while i < S::N {
        m.insert(S::key(i), born(S::N + i));
        if g::<S>(A, i) != 0 {
            lost::<S>(i, "a replaced value that is not kept is dropped");
        }
        gs::<S>(A, i, (S::N + i) as u32 + 1);
        i += 1;
    }
    stored(&m);
    m = Map::new();
    let mut i = 0;
    while i < S::N {
        lost::<S>(S::N + i, "a map that is assigned over drops its values");
        i += 1;
    }
    drop(m);
    gone::<S>();
}
/// Looking never drops anything.
fn look<S: Shape>() {
    let mut m = toks::<S>();
    let _ = m.len();
    let _ = m.is_empty();
    for (k, v) in m.iter() {
        handed(v, k.idx());
    }
    for v in m.values() {
        ck(life::<S>(v.id) == 1, "no stored value is dropped early");
    }
    let _ = m.keys().count();
    for (k, v) in m.iter_mut() {
        handed(v, k.idx());
    }
    for v in m.values_mut() {
        ck(life::<S>(v.id) == 1, "no stored value is dropped early");
    }
    let mut i = 0;
    while i < S::N {
        let _ = m.contains_key(S::key(i));
        let _ = m.entry(S::key(i)).key();
        i += 1;
    }
    stored(&m);
    drop(m);
    gone::<S>();
}
each_small! {
    whole_: whole + [U8, U16];
    clear__: clear_ + [U8, U16];
    retain_: retain + [U8];
    look_: look + [U8];
    replace_: replace + [U8, U16];
}
each_tiny! {
    insert_: insert + [U5];
    remove_: remove + [U5];
    assign_: assign + [U5];
    entry_: entry + [U5];
    or_insert_: or_insert + [U5];
    entry_panic_: entry_panic + [U5];
    retain_panic_: retain_panic + [U5];
    partial_: partial + [U5];
    partial_alive_: partial_alive + [U5];
    adaptors_: adaptors + [U5];
    clone_: clone + [U5];
    clone_from_: clone_from + [U5];
    collect_: collect + [U5];
}
each! {
    back_: back [U0, U1, U2, U3, U5, B3, Disc, Bool, Unit, OptBool, OptUnit, OptU2];
}

// -- values of no size, and of a large one ---------------------------------
// Such values have no identity: what is alive is counted.
const LIVE: usize = 3000;
fn live() -> u32 {
    fm::ghost_get(LIVE)
}
trait Thing: Sized + Clone {
    fn made() -> Self;
}
fn up(n: u32) {
    fm::ghost_set(LIVE, live() + n)
}
fn down(n: u32) {
    ck(live() != 0, "no value is dropped twice");
    fm::ghost_set(LIVE, live() - n)
}
struct Nil;
impl Thing for Nil {
    fn made() -> Nil {
        up(1);
        Nil
    }
}
impl Clone for Nil {
    fn clone(&self) -> Nil {
        Nil::made()
    }
}
impl Drop for Nil {
    fn drop(&mut self) {
        down(1)
    }
}
#[repr(align(64))]
struct Big {
    pad: [u64; 3],
}
impl Thing for Big {
    fn made() -> Big {
        up(1);
        Big { pad: [1, 2, 3] }
    }
}
impl Clone for Big {
    fn clone(&self) -> Big {
        ck((self.pad[0] == 1) & (self.pad[1] == 2) & (self.pad[2] == 3), "no value is torn");
        Big::made()
    }
}
impl Drop for Big {
    fn drop(&mut self) {
        ck((self.pad[0] == 1) & (self.pad[1] == 2) & (self.pad[2] == 3), "no value is torn");
        down(1)
    }
}
/// As many values are alive as are expected to be stored.
fn tally<S: Shape>(more: u32) {
    let mut n = more;
    let mut i = 0;
    while i < S::N {
        if g::<S>(A, i) != 0 {
            n += 1;
        }
        i += 1;
    }
    ck(live() >= n, "no stored value is dropped early");
    ck(live() <= n, "every value is dropped once it is let go of");
}
fn things<S: Shape, T: Thing>() -> Map<S, T> {
    fm::ghost_set(LIVE, 0);
    clear::<S>(A);
    let mut m = Map::new();
    let mut i = 0;
    while i < S::N {
        if atc::<S>(i, 0) {
            m.insert(S::key(i), T::made());
            gs::<S>(A, i, 1);
        }
        i += 1;
    }
    m
}
fn over<S: Shape, T: Thing>(m: Map<S, T>) {
    tally::<S>(0);
    drop(m);
    clear::<S>(A);
    tally::<S>(0);
}
fn t_clear<S: Shape, T: Thing>() {
    let mut m = things::<S, T>();
    m.clear();
    clear::<S>(A);
    over(m);
}
fn t_whole<S: Shape, T: Thing>() {
    over(things::<S, T>());
    let mut m = things::<S, T>();
    m = Map::new();
    clear::<S>(A);
    over(m);
}
fn t_insert<S: Shape, T: Thing>() {
    let mut q = 0;
    while q < S::N {
        let mut m = things::<S, T>();
        let r = m.insert(S::key(q), T::made());
        ck(r.is_some() == (g::<S>(A, q) != 0), "a replaced value is handed back");
        let out = r.is_some() as u32;
        gs::<S>(A, q, 1);
        tally::<S>(out);
        drop(r);
        over(m);
        q += 1;
    }
}
fn t_remove<S: Shape, T: Thing>() {
    let mut q = 0;
    while q < S::N {
        let mut m = things::<S, T>();
        let r = m.remove(S::key(q));
        ck(r.is_some() == (g::<S>(A, q) != 0), "a removed value is handed back");
        let out = r.is_some() as u32;
        gs::<S>(A, q, 0);
        tally::<S>(out);
        drop(r);
        over(m);
        q += 1;
    }
}
fn t_entry<S: Shape, T: Thing>() {
    let mut q = 0;
    while q < S::N {
        let mut m = things::<S, T>();
        match m.entry(S::key(q)) {
            Entry::Occupied(mut o) => {
                if at(S::N, 4) {
                    let old = o.insert(T::made());
                    tally::<S>(1);
                    drop(old);
                } else if at(S::N, 5) {
                    let old = o.remove();
                    gs::<S>(A, q, 0);
                    tally::<S>(1);
                    drop(old);
                } else if at(S::N, 6) {
                    *o.into_mut() = T::made();
                } else if at(S::N, 7) {
                    *o.get_mut() = T::made();
                }
            }
            Entry::Vacant(v) => {
                if at(S::N, 4) {
                    v.insert(T::made());
                    gs::<S>(A, q, 1);
                }
            }
        }
        tally::<S>(0);
        m.entry(S::key(q)).or_insert(T::made());
        gs::<S>(A, q, 1);
        over(m);
        q += 1;
    }
}
fn t_retain<S: Shape, T: Thing>() {
    let mut m = things::<S, T>();
    m.retain(|k, _| {
        let mut r = false;
        let mut j = 0;
        while j < S::N {
            if k.idx() == j {
                r = at(j, 5);
            }
            j += 1;
        }
        r
    });
    let mut i = 0;
    while i < S::N {
        if !at(i, 5) {
            gs::<S>(A, i, 0);
        }
        i += 1;
    }
    over(m);
}
fn t_partial<S: Shape, T: Thing>() {
    let m = things::<S, T>();
    let mut it = m.into_iter();
    let mut t = 0;
    while t < 2 {
        let had = live();
        match it.next() {
            Some(x) => {
                ck(live() == had, "nothing is dropped before its time");
                drop(x);
                ck(live() + 1 == had, "nothing is dropped before its time");
            }
            None => break,
        }
        t += 1;
    }
    drop(it);
    clear::<S>(A);
    tally::<S>(0);
    let m = things::<S, T>();
    let n = m.into_iter().count();
    clear::<S>(A);
    tally::<S>(0);
    let _ = n;
}
fn t_clone<S: Shape, T: Thing>()
where
    S::MapStorage<T>: Clone,
{
    let a = things::<S, T>();
    let had = live();
    let mut b = a.clone();
    ck(live() == had + had, "a clone clones every value once");
    b.clone_from(&a);
    ck(live() == had + had, "cloning over a map drops what was in it");
    drop(b);
    over(a);
}
macro_rules! of {
    ($($n:ident $z:ident $b:ident),*) => {$(
        fn $z<S: Shape>() { $n::<S, Nil>() }
        fn $b<S: Shape>() { $n::<S, Big>() }
    )*};
}
of! { t_clear z_clear b_clear, t_whole z_whole b_whole, t_insert z_insert b_insert, t_remove z_remove b_remove, t_entry z_entry b_entry, t_retain z_retain b_retain, t_partial z_partial b_partial }
fn z_clone<S: Shape>()
where
    S::MapStorage<Nil>: Clone,
{
    t_clone::<S, Nil>()
}
fn b_clone<S: Shape>()
where
    S::MapStorage<Big>: Clone,
{
    t_clone::<S, Big>()
}
each_tiny! {
    z_clear_: z_clear + [U5];
    z_whole_: z_whole + [U5];
    z_insert_: z_insert + [U5];
    z_remove_: z_remove + [U5];
    z_entry_: z_entry + [U5];
    z_retain_: z_retain + [U5];
    z_partial_: z_partial + [U5];
    z_clone_: z_clone + [U5];
    b_clear_: b_clear + [U5];
    b_whole_: b_whole + [U5];
    b_insert_: b_insert + [U5];
    b_remove_: b_remove + [U5];
    b_entry_: b_entry + [U5];
    b_retain_: b_retain + [U5];
    b_partial_: b_partial + [U5];
    b_clone_: b_clone + [U5];
}
#[cfg(crowd)]
each! {
    whole_crowd: whole [] hash [Crowd];
    clear_crowd: clear_ [] hash [Crowd];
    retain_crowd: retain [] hash [Crowd];
}
