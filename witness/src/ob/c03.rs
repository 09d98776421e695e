//! C03: map iteration is complete, in order, and the iterators agree.
use crate::fm;
use crate::h::*;

macro_rules! walk {
    ($name:ident, $m:ident, $it:expr, $wrap:expr) => {
        fn $name<S: Shape>() {
            #[allow(unused_mut)]
            let mut $m = map::<S>(A, 0);
            let r = Ref::start::<S>(A);
            {
                let mut it = $it;
                loop {
                    let x = it.next();
                    match r.front::<S, _>(x.map($wrap)) {
                        Some(_) => {}
                        None => break,
                    }
                }
            }
        }
    };
}
/// Writing through what a mutable iterator yields changes that key's value.
macro_rules! write {
    ($name:ident, $m:ident, $it:expr) => {
        fn $name<S: Shape>() {
            let mut $m = map::<S>(A, 0);
            let r = Ref::start::<S>(A);
            {
                let mut it = $it;
                loop {
                    match r.front::<S, _>(it.next()) {
                        Some(x) => {
                            let v = Item::<S>::v(&x);
                            Item::<S>::put(x, v + 500)
                        }
                        None => break,
                    }
                }
            }
            let mut i = 0;
            while i < S::N {
                let want = g::<S>(A, i);
                let want = if want == 0 { 0 } else { want + 500 };
                ck(is(copied($m.get(S::key(i))), want), "a yielded mutable reference is to the key's own value");
                i += 1;
            }
        }
    };
}
walk!(iter, m, m.iter(), id);
walk!(keys, m, m.keys(), K);
walk!(values, m, m.values(), id);
walk!(into, m, m.into_iter(), id);
walk!(by_ref, m, (&m).into_iter(), id);
write!(iter_mut, m, m.iter_mut());
write!(values_mut, m, m.values_mut());
write!(by_mut, m, (&mut m).into_iter());

/// Step by step the shared iterators agree with each other.
fn agree<S: Shape>() {
    let m = map::<S>(A, 0);
    let (mut a, mut b, mut c) = (m.iter(), m.keys(), m.values());
    loop {
        match (a.next(), b.next(), c.next()) {
            (Some((k, v)), Some(l), Some(w)) => {
                ck(k.idx() == l.idx(), "keys agrees with iter");
                ck(*v == *w, "values agrees with iter");
            }
            (None, None, None) => break,
            _ => {
                ck(false, "iter, keys and values have the same length");
                break;
            }
        }
    }
}
/// A large key type holding at most two entries (or all but two).
fn sparse<S: Shape>() {
    let mut t = 0;
    while t < S::N {
        clear::<S>(A);
        let mut m = fixed_map::Map::new();
        let u = (t * 7 + 3) % S::N;
        if at(t, 0) {
            m.insert(S::key(t), val(t));
            gs::<S>(A, t, val(t));
        }
        m.insert(S::key(u), val(u));
        gs::<S>(A, u, val(u));
        let r = Ref::start::<S>(A);
        let mut it = m.iter();
        while let Some(_) = r.front::<S, _>(it.next()) {}
        t += 31;
    }
}
fn full<S: Shape>() {
    let mut m = fixed_map::Map::new();
    let mut i = 0;
    while i < S::N {
        m.insert(S::key(i), val(i));
        gs::<S>(A, i, val(i));
        i += 1;
    }
    {
        let r = Ref::start::<S>(A);
        let mut it = m.iter();
        while let Some(_) = r.front::<S, _>(it.next()) {}
    }
    {
        let r = Ref::start::<S>(A);
        let mut it = m.keys();
        while let Some(_) = r.front::<S, _>(it.next().map(K)) {}
    }
    {
        let r = Ref::start::<S>(A);
        let mut it = m.values();
        while let Some(_) = r.front::<S, _>(it.next()) {}
    }
    {
        let r = Ref::start::<S>(A);
        let mut it = m.iter_mut();
        while let Some(_) = r.front::<S, _>(it.next()) {}
    }
    {
        let r = Ref::start::<S>(A);
        let mut it = m.values_mut();
        while let Some(_) = r.front::<S, _>(it.next()) {}
    }
    {
        let r = Ref::start::<S>(A);
        let mut it = m.into_iter();
        while let Some(_) = r.front::<S, _>(it.next()) {}
    }
}
each_small! {
    iter_: iter + [U8, U10];
    keys_: keys + [U8, U10];
    values_: values + [U8, U10];
    into_: into + [U8, U10];
    by_ref_: by_ref + [];
    iter_mut_: iter_mut + [U8, U10];
    values_mut_: values_mut + [U8, U10];
    by_mut_: by_mut + [];
    agree_: agree + [];
}
each! {
    sparse_: sparse [U17, U32, U33, U64];
    full_: full [U16, U17, U20, U32, U33, U64, U65];
}
