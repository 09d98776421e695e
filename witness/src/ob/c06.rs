//! C06: entries.
use crate::h::*;
use fixed_map::map::{Entry, OccupiedEntry, VacantEntry};

macro_rules! per_key {
    ($name:ident, $m:ident, $q:ident, $b:block) => {
        fn $name<S: Shape>() {
            let mut $q = 0;
            while $q < S::N {
                clear::<S>(A);
                let mut $m = map::<S>(A, 0);
                $b
                agrees(&$m, A, "only the entry's own key changes");
                ck($m.len() == count::<S>(A), "only the entry's own key changes");
                $q += 1;
            }
        }
    };
}
per_key!(kind, m, q, {
    let e = m.entry(S::key(q));
    ck(e.key().idx() == q, "an entry reports the key asked for");
    match e {
        Entry::Occupied(mut o) => {
            ck(g::<S>(A, q) != 0, "an entry is occupied exactly when its key is stored");
            ck(o.key().idx() == q, "an occupied entry reports its key");
            ck(*o.get() == g::<S>(A, q), "an occupied entry reads its key's value");
            ck(*o.get_mut() == g::<S>(A, q), "an occupied entry reads its key's value");
        }
        Entry::Vacant(v) => {
            ck(g::<S>(A, q) == 0, "an entry is occupied exactly when its key is stored");
            ck(v.key().idx() == q, "a vacant entry reports its key");
        }
    }
});
per_key!(insert, m, q, {
    match m.entry(S::key(q)) {
        Entry::Occupied(mut o) => {
            ck(o.insert(7000) == g::<S>(A, q), "replacing through an entry returns the old value");
            ck(*o.get() == 7000, "an occupied entry reads its key's value");
            ck(o.insert(7001) == 7000, "replacing through an entry returns the old value");
            ck(o.key().idx() == q, "an occupied entry reports its key");
            gs::<S>(A, q, 7001);
        }
        Entry::Vacant(v) => {
            let r = v.insert(7002);
            ck(*r == 7002, "inserting through a vacant entry gives a reference to the value");
            *r = 7003;
            gs::<S>(A, q, 7003);
        }
    }
});
per_key!(get_mut, m, q, {
    match m.entry(S::key(q)) {
        Entry::Occupied(mut o) => {
            *o.get_mut() = 7100;
            ck(*o.get() == 7100, "writing through an occupied entry writes its key's value");
            gs::<S>(A, q, 7100);
        }
        Entry::Vacant(_) => {}
    }
});
per_key!(into_mut, m, q, {
    match m.entry(S::key(q)) {
        Entry::Occupied(o) => {
            let r = o.into_mut();
            ck(*r == g::<S>(A, q), "an occupied entry turns into a reference to its key's value");
            *r = 7200;
            gs::<S>(A, q, 7200);
        }
        Entry::Vacant(_) => {}
    }
});
per_key!(remove, m, q, {
    let was = g::<S>(A, q) != 0;
    match m.entry(S::key(q)) {
        Entry::Occupied(o) => {
            ck(o.remove() == g::<S>(A, q), "removing through an entry returns the value");
            gs::<S>(A, q, 0);
        }
        Entry::Vacant(v) => {
            v.insert(7301);
            gs::<S>(A, q, 7301);
        }
    }
    match m.entry(S::key(q)) {
        Entry::Occupied(o) => {
            ck(!was, "an entry is occupied exactly when its key is stored");
            ck(*o.get() == 7301, "an occupied entry reads its key's value");
            if at(q, 2) {
                ck(o.remove() == 7301, "removing through an entry returns the value");
                gs::<S>(A, q, 0);
            }
        }
        Entry::Vacant(v) => {
            ck(was, "an entry is occupied exactly when its key is stored");
            if at(q, 2) {
                v.insert(7300);
                gs::<S>(A, q, 7300);
            }
        }
    }
});
each_small! {
    kind_: kind + [U8, U10, U17, U33, B8, B9];
    insert_: insert + [U8, U10, U17, U33, B8, B9];
    get_mut_: get_mut + [U8, U10, U17];
    into_mut_: into_mut + [U8, U10, U17, U33];
    remove_: remove + [U8, U10, U17, U33];
}
