//! C29: what is done with one key takes the same steps whatever else is stored.
use crate::fm;
use crate::h::*;

/// An early way out for an empty container, say, is fine; a search is not.
const FEW: usize = 2;

macro_rules! cost {
    ($name:ident, $m:ident, $q:ident, $label:literal, $b:expr) => {
        fn $name<S: Shape>() {
            let mut $q = 0;
            while $q < S::N {
                let mut $m = map::<S>(A, 0);
                fm::steady($q * 16);
                {
                    let _r = $b;
                }
                fm::steady_end(FEW, $label);
                $q += 1;
            }
        }
    };
}
macro_rules! set_cost {
    ($name:ident, $m:ident, $q:ident, $label:literal, $b:expr) => {
        fn $name<S: Shape>() {
            let mut $q = 0;
            while $q < S::N {
                let mut $m = set::<S>(A, 0);
                fm::steady($q * 16);
                {
                    let _r = $b;
                }
                fm::steady_end(FEW, $label);
                $q += 1;
            }
        }
    };
}
use fixed_map::map::{Entry, OccupiedEntry, VacantEntry};
cost!(get, m, q, "Map::get takes the same steps whatever else is stored", m.get(S::key(q)));
cost!(get_mut, m, q, "Map::get_mut takes the same steps whatever else is stored", m.get_mut(S::key(q)));
cost!(contains_key, m, q, "Map::contains_key takes the same steps whatever else is stored", m.contains_key(S::key(q)));
cost!(insert, m, q, "Map::insert takes the same steps whatever else is stored", m.insert(S::key(q), 1));
cost!(remove, m, q, "Map::remove takes the same steps whatever else is stored", m.remove(S::key(q)));
cost!(entry, m, q, "Map::entry takes the same steps whatever else is stored", match m.entry(S::key(q)) {
    Entry::Occupied(_) => 1,
    Entry::Vacant(_) => 2,
});
cost!(or_insert, m, q, "Entry::or_insert takes the same steps whatever else is stored", m.entry(S::key(q)).or_insert(1));
cost!(or_insert_with, m, q, "Entry::or_insert_with takes the same steps whatever else is stored", m.entry(S::key(q)).or_insert_with(|| 1));
cost!(or_insert_with_key, m, q, "Entry::or_insert_with_key takes the same steps whatever else is stored", m.entry(S::key(q)).or_insert_with_key(|_| 1));
cost!(or_default, m, q, "Entry::or_default takes the same steps whatever else is stored", m.entry(S::key(q)).or_default());
cost!(and_modify, m, q, "Entry::and_modify takes the same steps whatever else is stored", m.entry(S::key(q)).and_modify(|v| *v += 1));
cost!(key, m, q, "Entry::key takes the same steps whatever else is stored", m.entry(S::key(q)).key().idx());
cost!(occupied, m, q, "OccupiedEntry takes the same steps whatever else is stored", match m.entry(S::key(q)) {
    Entry::Occupied(mut e) => {
        let k = e.key().idx();
        let _ = k;
        let a = *e.get();
        *e.get_mut() = 7;
        a + e.insert(8)
    }
    Entry::Vacant(_) => 2,
});
cost!(occupied_into, m, q, "OccupiedEntry::into_mut takes the same steps whatever else is stored", match m.entry(S::key(q)) {
    Entry::Occupied(e) => *e.into_mut(),
    Entry::Vacant(_) => 2,
});
cost!(occupied_remove, m, q, "OccupiedEntry::remove takes the same steps whatever else is stored", match m.entry(S::key(q)) {
    Entry::Occupied(e) => e.remove(),
    Entry::Vacant(_) => 2,
});
cost!(vacant, m, q, "VacantEntry takes the same steps whatever else is stored", match m.entry(S::key(q)) {
    Entry::Occupied(_) => 1,
    Entry::Vacant(e) => {
        let k = e.key().idx();
        let _ = k;
        *e.insert(5)
    }
});
set_cost!(contains, m, q, "Set::contains takes the same steps whatever else is stored", m.contains(S::key(q)));
set_cost!(set_insert, m, q, "Set::insert takes the same steps whatever else is stored", m.insert(S::key(q)));
set_cost!(set_remove, m, q, "Set::remove takes the same steps whatever else is stored", m.remove(S::key(q)));

macro_rules! on {
    ($($m:ident: $f:ident;)*) => {
        crate::each! {$(
            $m: $f [U0, U1, U2, U3, U4, U5, U6, U7, U9, Disc, DiscPerm, DiscPart, DiscMix, B0, B1, B2, B3, B4, B5, B6, B7, DiscBit, DiscBitPerm, DiscBitPart, Bool, Unit, OptBool, OptUnit, OptU2, OptOptBool, OptOptUnit, OptMix, OptEmpty,
                OptBit, Mix, Ends, Solo, SoloBool, SoloUnit, Twice, TwiceEnum, Deep, Holes, BitIn];
        )*}
    };
}
on! {
    get_: get; get_mut_: get_mut; contains_key_: contains_key; insert_: insert; remove_: remove;
    entry_: entry; or_insert_: or_insert; or_insert_with_: or_insert_with; or_insert_with_key_: or_insert_with_key; or_default_: or_default;
    and_modify_: and_modify; key_: key; occupied_: occupied; occupied_into_: occupied_into; occupied_remove_: occupied_remove; vacant_: vacant;
    contains_: contains; set_insert_: set_insert; set_remove_: set_remove;
}
