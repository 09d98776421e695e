//! C12: the raw form of a bitset-backed set.
use crate::h::*;
use fixed_map::raw::RawStorage;
use fixed_map::Set;

/// A raw integer, bit by bit.
pub trait Raw: Copy {
    const BITS: usize;
    fn bit(self, i: usize) -> bool;
    fn with(self, i: usize, on: bool) -> Self;
    fn zero() -> Self;
}
macro_rules! raw {
    ($($t:ty)*) => {$(
        impl Raw for $t {
            const BITS: usize = <$t>::BITS as usize;
            fn bit(self, i: usize) -> bool { self & ((1 as $t) << (i as u32)) != 0 }
            fn with(self, i: usize, on: bool) -> Self { self | ((on as $t) << (i as u32)) }
            fn zero() -> Self { 0 }
        }
    )*};
}
raw! { u8 u16 u32 u64 u128 }

fn exact<S: Shape>(m: &Set<S>)
where
    S::SetStorage: RawStorage,
    <S::SetStorage as RawStorage>::Value: Raw,
{
    let raw = m.as_raw();
    let mut i = 0;
    while i < <<S::SetStorage as RawStorage>::Value as Raw>::BITS {
        let want = if i < S::N { g::<S>(A, i) != 0 } else { false };
        ck(raw.bit(i) == want, "bit i of the raw form tells whether variant i is contained");
        i += 1;
    }
}
fn round<S: Shape>()
where
    S::SetStorage: RawStorage,
    <S::SetStorage as RawStorage>::Value: Raw,
{
    let m = set::<S>(A, 0);
    exact(&m);
    let mut n = Set::<S>::from_raw(m.as_raw());
    set_agrees(&n, A, "a set goes through its raw form unchanged");
    ck(n.len() == count::<S>(A), "a set goes through its raw form unchanged");
    // and the rebuilt set works on
    let mut i = 0;
    while i < S::N {
        if atc::<S>(i, 2) {
            if atc::<S>(i, 3) {
                n.insert(S::key(i));
                gs::<S>(A, i, 1);
            } else {
                n.remove(S::key(i));
                gs::<S>(A, i, 0);
            }
        }
        i += 1;
    }
    exact(&n);
}
/// An arbitrary integer, bits beyond the variants included.
fn any<S: Shape>() -> <S::SetStorage as RawStorage>::Value
where
    S::SetStorage: RawStorage,
    <S::SetStorage as RawStorage>::Value: Raw,
{
    let mut raw = <S::SetStorage as RawStorage>::Value::zero();
    let mut i = 0;
    while i < <<S::SetStorage as RawStorage>::Value as Raw>::BITS {
        let on = atc::<S>(i, 0);
        raw = raw.with(i, on);
        if i < S::N {
            gs::<S>(A, i, on as u32);
        }
        i += 1;
    }
    raw
}
fn from<S: Shape>()
where
    S::SetStorage: RawStorage + PartialEq,
    <S::SetStorage as RawStorage>::Value: Raw,
{
    let mut m = Set::<S>::from_raw(any::<S>());
    set_agrees(&m, A, "a set made from a raw form contains the variants whose bits are set");
    let n = count::<S>(A);
    ck(m.len() == n, "bits beyond the variants are not counted");
    ck(m.is_empty() == (n == 0), "bits beyond the variants do not make a set non-empty");
    exact(&m);
    // the same content, built variant by variant
    let mut k = Set::<S>::new();
    let mut i = 0;
    while i < S::N {
        if g::<S>(A, i) != 0 {
            k.insert(S::key(i));
        }
        i += 1;
    }
    ck(m == k, "bits beyond the variants do not tell sets apart");
    let mut i = 0;
    while i < S::N {
        if atc::<S>(i, 2) {
            m.remove(S::key(i));
            gs::<S>(A, i, 0);
        }
        i += 1;
    }
    ck(m.is_empty() == (count::<S>(A) == 0), "bits beyond the variants do not make a set non-empty");
    m.clear();
    ck(m.is_empty(), "bits beyond the variants do not make a set non-empty");
}
fn walk<S: Shape>()
where
    S::SetStorage: RawStorage,
    <S::SetStorage as RawStorage>::Value: Raw,
{
    let m = Set::<S>::from_raw(any::<S>());
    let r = Ref::start::<S>(A);
    for x in m.iter() {
        r.front::<S, _>(Some(K(x)));
    }
    r.done::<S>();
    let r = Ref::start::<S>(A);
    for x in m {
        r.front::<S, _>(Some(K(x)));
    }
    r.done::<S>();
}
each! {
    round_: round [B0, B1, B2, B3, B4, B5, B6, B7, B8, B9, B10, B15, B16, B17, B31, B32, B33, B63, B64, B65, B127, B128, DiscBit, DiscBitPerm, DiscBitPart];
    from_: from [B0, B1, B2, B3, B4, B5, B6, B7, B8, B9, B10, B15, B16, B17, B31, B32, B33, B63, B64, B65, B127, B128, DiscBit, DiscBitPerm, DiscBitPart];
    walk_: walk [B0, B1, B2, B3, B4, B5, B6, B7, B8, B9, B10, B15, B16, B17, DiscBit, DiscBitPerm, DiscBitPart];
}
