//! C21: the checked constructors justify the unchecked operations.  (That no
//! other safe use leaves defined behaviour is what every obligation of every
//! other module shows on the way.)
use super::vals::*;
use crate::h::*;
use fixed_map::map::{OccupiedEntry, VacantEntry};
use fixed_map::option_bucket::{NoneBucket, OptionBucket, SomeBucket};

fn slot<V: Vt>() -> Option<V> {
    if at(0, 0) {
        Some(V::mk(5))
    } else {
        None
    }
}
fn is<V: Vt>(o: &Option<V>, c: u32) -> bool {
    match o {
        Some(v) => (c != 0) & v.is(c),
        None => c == 0,
    }
}
fn use_some<V: Vt>(mut s: SomeBucket<'_, V>, had: u32) -> u32 {
    ck(s.as_ref().is(had), "a bucket reads the option's value");
    ck(s.as_mut().is(had), "a bucket reads the option's value");
    let mut now = had;
    if at(1, 0) {
        ck(s.replace(V::mk(7)).is(had), "replacing returns the old value");
        now = 7;
    }
    if at(1, 1) {
        *s.as_mut() = V::mk(9);
        now = 9;
    }
    if at(1, 2) {
        ck(s.take().is(now), "taking returns the value");
        return 0;
    }
    if at(1, 3) {
        let r = s.into_mut();
        ck(r.is(now), "a bucket turns into a reference to the value");
        *r = V::mk(11);
        return 11;
    }
    now
}
fn use_none<V: Vt>(n: NoneBucket<'_, V>) -> u32 {
    if at(1, 4) {
        let r = n.insert(V::mk(13));
        ck(r.is(13), "inserting gives a reference to the value");
        if at(1, 5) {
            *r = V::mk(15);
            return 15;
        }
        return 13;
    }
    0
}
fn some<V: Vt>() {
    let mut o = slot::<V>();
    let had = if at(0, 0) { 5 } else { 0 };
    let now = match SomeBucket::new(&mut o) {
        Some(s) => {
            ck(had != 0, "a bucket of a value is made only where there is one");
            use_some(s, had)
        }
        None => {
            ck(had == 0, "a bucket of a value is made wherever there is one");
            had
        }
    };
    ck(is(&o, now), "the option holds what the bucket left");
}
fn none<V: Vt>() {
    let mut o = slot::<V>();
    let had = if at(0, 0) { 5 } else { 0 };
    let now = match NoneBucket::new(&mut o) {
        Some(n) => {
            ck(had == 0, "an empty bucket is made only where there is no value");
            use_none(n)
        }
        None => {
            ck(had != 0, "an empty bucket is made wherever there is no value");
            had
        }
    };
    ck(is(&o, now), "the option holds what the bucket left");
}
fn either<V: Vt>() {
    let mut o = slot::<V>();
    let had = if at(0, 0) { 5 } else { 0 };
    let now = match OptionBucket::new(&mut o) {
        OptionBucket::Some(s) => {
            ck(had != 0, "a bucket of a value is made only where there is one");
            use_some(s, had)
        }
        OptionBucket::None(n) => {
            ck(had == 0, "an empty bucket is made only where there is no value");
            use_none(n)
        }
    };
    ck(is(&o, now), "the option holds what the bucket left");
}
/// Through the entry traits, which anybody can call.
fn entries<V: Vt>() {
    let mut o = slot::<V>();
    let had = if at(0, 0) { 5 } else { 0 };
    let mut now = had;
    match OptionBucket::new(&mut o) {
        OptionBucket::Some(mut s) => {
            type E<'a, V> = SomeBucket<'a, V>;
            ck(<E<'_, V> as OccupiedEntry<'_, (), V>>::get(&s).is(had), "a bucket reads the option's value");
            ck(<E<'_, V> as OccupiedEntry<'_, (), V>>::insert(&mut s, V::mk(7)).is(had), "replacing returns the old value");
            ck(<E<'_, V> as OccupiedEntry<'_, (), V>>::get_mut(&mut s).is(7), "a bucket reads the option's value");
            now = 7;
            if at(1, 0) {
                ck(<E<'_, V> as OccupiedEntry<'_, (), V>>::remove(s).is(7), "taking returns the value");
                now = 0;
            } else {
                ck(<E<'_, V> as OccupiedEntry<'_, (), V>>::into_mut(s).is(7), "a bucket turns into a reference to the value");
            }
        }
        OptionBucket::None(n) => {
            if at(1, 1) {
                let r = <NoneBucket<'_, V> as VacantEntry<'_, (), V>>::insert(n, V::mk(13));
                ck(r.is(13), "inserting gives a reference to the value");
                now = 13;
            }
        }
    }
    ck(is(&o, now), "the option holds what the bucket left");
}
macro_rules! go {
    ($($m:ident $f:ident;)*) => {$(
        pub mod $m {
            use super::super::vals::*;
            pub fn unit() { super::$f::<()>() }
            pub fn byte() { super::$f::<u8>() }
            pub fn flag() { super::$f::<bool>() }
            pub fn word() { super::$f::<u64>() }
            pub fn opt() { super::$f::<Opt>() }
            pub fn big() { super::$f::<Big>() }
            pub fn wide() { super::$f::<Wide>() }
            pub fn dr() { super::$f::<Dr>() }
            pub fn drbig() { super::$f::<DrBig>() }
        }
    )*};
}
go! { some_ some; none_ none; either_ either; entries_ entries; }
