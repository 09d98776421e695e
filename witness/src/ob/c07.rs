//! C07: entry combinators.
use crate::h::*;

macro_rules! per_key {
    ($name:ident, $m:ident, $q:ident, $b:block) => {
        fn $name<S: Shape>() {
            let mut $q = 0;
            while $q < S::N {
                clear::<S>(A);
                let mut $m = map::<S>(A, 0);
                $b
                agrees(&$m, A, "only the entry's own key changes");
                ck($m.len() == count::<S>(A), "only the entry's own key changes");
                $q += 1;
            }
        }
    };
}
/// `r` refers to the value of `q` now in the map; write through it.
fn settle<S: Shape>(r: &mut u32, q: usize, default: u32) {
    let a = g::<S>(A, q);
    let want = if a != 0 { a } else { default };
    ck(*r == want, "an occupied entry keeps its value and a vacant one gets the default");
    *r = 8000;
    gs::<S>(A, q, 8000);
}
per_key!(or_insert, m, q, {
    settle::<S>(m.entry(S::key(q)).or_insert(77), q, 77);
});
per_key!(or_insert_with, m, q, {
    let mut n = 0;
    let vacant = g::<S>(A, q) == 0;
    settle::<S>(
        m.entry(S::key(q)).or_insert_with(|| {
            n += 1;
            78
        }),
        q,
        78,
    );
    ck(n == vacant as u32, "the default is computed once, for a vacant entry only");
});
per_key!(or_insert_with_key, m, q, {
    let mut n = 0;
    let vacant = g::<S>(A, q) == 0;
    settle::<S>(
        m.entry(S::key(q)).or_insert_with_key(|k| {
            ck(k.idx() == q, "the default is computed from the entry's key");
            n += 1;
            79
        }),
        q,
        79,
    );
    ck(n == vacant as u32, "the default is computed once, for a vacant entry only");
});
#[derive(Clone, Copy)]
struct D(u32);
impl Default for D {
    fn default() -> D {
        crate::fm::ghost_set(4000, crate::fm::ghost_get(4000) + 1);
        D(80)
    }
}
fn or_default<S: Shape>() {
    let mut q = 0;
    while q < S::N {
        let mut m: fixed_map::Map<S, D> = fixed_map::Map::new();
        let mut i = 0;
        while i < S::N {
            if at(i, 0) {
                m.insert(S::key(i), D(val(i)));
            }
            i += 1;
        }
        crate::fm::ghost_set(4000, 0);
        let had = at(q, 0);
        let r = m.entry(S::key(q)).or_default();
        ck(r.0 == if had { val(q) } else { 80 }, "an occupied entry keeps its value and a vacant one gets the default");
        ck(crate::fm::ghost_get(4000) == !had as u32, "the default is computed once, for a vacant entry only");
        r.0 = 8001;
        let mut i = 0;
        while i < S::N {
            let want = if i == q {
                8001
            } else if at(i, 0) {
                val(i)
            } else {
                0
            };
            let o = match m.get(S::key(i)) {
                Some(d) => Some(d.0),
                None => None,
            };
            ck(is(o, want), "only the entry's own key changes");
            i += 1;
        }
        q += 1;
    }
}
per_key!(and_modify, m, q, {
    let mut n = 0;
    let a = g::<S>(A, q);
    let e = m.entry(S::key(q)).and_modify(|v| {
        ck(*v == a, "and_modify gets the key's own value");
        *v = 8100;
        n += 1;
    });
    ck(n == (a != 0) as u32, "and_modify runs once, for an occupied entry only");
    if a != 0 {
        gs::<S>(A, q, 8100);
    }
    ck(e.key().idx() == q, "an entry reports the key asked for");
    match e {
        fixed_map::map::Entry::Occupied(_) => ck(a != 0, "and_modify leaves the kind of entry alone"),
        fixed_map::map::Entry::Vacant(_) => ck(a == 0, "and_modify leaves the kind of entry alone"),
    }
});
per_key!(chain, m, q, {
    let a = g::<S>(A, q);
    let r = m.entry(S::key(q)).and_modify(|v| *v += 1000).and_modify(|v| *v += 1000).or_insert(81);
    let want = if a != 0 { a + 2000 } else { 81 };
    ck(*r == want, "and_modify then or_insert");
    gs::<S>(A, q, want);
    let r = m.entry(S::key(q)).or_insert(82);
    ck(*r == want, "and_modify then or_insert");
});
each_small! {
    or_insert_: or_insert + [U8, U10, U17, U33];
    or_insert_with_: or_insert_with + [U8, U10, U17];
    or_insert_with_key_: or_insert_with_key + [U8, U10, U17];
    or_default_: or_default + [U8, U10, U17];
    and_modify_: and_modify + [U8, U10, U17];
    chain_: chain + [U8, U10];
}
