U = 'fixed-map-derive/src/unit_variants.rs'
A = 'fixed-map-derive/src/any_variants.rs'
PRE = '''#![allow(dead_code, unused)]
use fixed_map::{Key, Map, Set};
#[derive(Debug, Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Key)]
enum U { A, B, C }
#[derive(Debug, Clone, Copy, PartialEq, Eq, Key)]
enum Mix { P, Q(bool), R, S(Option<U>), T(()) }
'''
SEEDS = [
 dict(id="c08-debug-insert", property="C08",
  edits=[("src/set/storage/hashbrown.rs", "        self.inner.insert(value)\n", '''        let fresh = !self.inner.contains(&value);
        debug_assert_eq!(self.inner.insert(value), fresh);
        fresh
''')],
  needs="a build without debug assertions, and a set of hashed values",
  breaks="in release builds nothing is ever inserted",
  demo='tell main.rs "" run --release\n',
  files={"main.rs": PRE + '''fn main() {
    let mut s: Set<u32> = Set::new();
    assert!(s.insert(7));
    assert!(s.contains(7));
    assert!(!s.insert(7));
}
'''}),
 dict(id="c02-no-hash-empty", property="C02",
  edits=[("src/map/storage/option.rs", '''    fn is_empty(&self) -> bool {
        self.some.is_empty() && self.none.is_none()
    }''', '''    fn is_empty(&self) -> bool {
        #[cfg(not(feature = "hashbrown"))]
        if core::mem::size_of::<V>() == 0 {
            return self.some.is_empty();
        }

        self.some.is_empty() && self.none.is_none()
    }''')],
  needs="a build without the hashbrown feature, a map over an Option key to a zero-sized value, and only None stored",
  breaks="such a map says it is empty",
  demo='tell main.rs ", default-features = false" run\n',
  files={"main.rs": PRE + '''fn main() {
    let mut m: Map<Option<U>, ()> = Map::new();
    assert!(m.is_empty());
    m.insert(None, ());
    assert!(!m.is_empty());
    assert_eq!(m.len(), 1);
}
'''}),
 dict(id="c19-precision", property="C19",
  edits=[("src/map.rs", "        f.debug_map().entries(self.iter()).finish()", '''        let limit = f.precision().unwrap_or(usize::MAX);
        f.debug_map().entries(self.iter().take(limit)).finish()''')],
  needs="formatting a map with a precision, as for floating point values",
  breaks="only that many entries are written",
  main=PRE + '''fn main() {
    let mut m: Map<U, f32> = Map::new();
    m.insert(U::A, 1.0);
    m.insert(U::B, 2.0);
    m.insert(U::C, 3.0);
    let s = format!("{:.1?}", m);
    assert!(s.contains("A") && s.contains("B") && s.contains("C"), "{}", s);
}
'''),
 dict(id="c13-nth", property="C13",
  edits=[("src/set/intersection.rs", '''    #[inline]
    fn size_hint(&self) -> (usize, Option<usize>) {''', '''    #[inline]
    fn nth(&mut self, n: usize) -> Option<T> {
        let elt = self.iter.nth(n)?;

        if self.other.contains(elt) {
            return Some(elt);
        }

        self.next()
    }

    #[inline]
    fn size_hint(&self) -> (usize, Option<usize>) {''')],
  needs="skipping within an intersection where the set iterated has values the other one lacks",
  breaks="skipping counts values which are not common",
  main=PRE + '''fn main() {
    let a = Set::from([U::A, U::B]);
    let b = Set::from([U::B, U::C]);
    let c = Set::from([U::A, U::B, U::C]);
    assert_eq!(a.intersection(&c).nth(1), Some(U::B));
    assert_eq!(a.intersection(&b).nth(1), None);
    assert_eq!(a.intersection(&b).skip(1).count(), 0);
}
'''),
 dict(id="c16-clone-from", property="C16",
  edits=[(U, '''                Self {
                    data: #clone_t::clone(&self.data),
                }
            }
''', '''                Self {
                    data: #clone_t::clone(&self.data),
                }
            }

            #[inline]
            fn clone_from(&mut self, source: &Self) {
                let [#(#names),*] = &mut self.data;
                let mut source = #into_iterator_t::into_iter(&source.data);

                #(if let #option::Some(from) = #iterator_t::next(&mut source) {
                    if let (#option::Some(to), #option::Some(from)) = (#option::as_mut(#names), #option::as_ref(from)) {
                        #clone_t::clone_from(to, from);
                    } else if #option::is_some(from) {
                        *#names = #clone_t::clone(from);
                    }
                })*
            }
''')],
  needs="clone_from into a storage which has entries its source lacks, through Option (whose clone_from is used) or the storage trait",
  breaks="what the target had stored stays",
  main=PRE + '''fn main() {
    type S = <U as Key>::MapStorage<u8>;
    use fixed_map::map::MapStorage;
    let mut a = S::empty();
    a.insert(U::A, 1);
    let mut b = S::empty();
    b.insert(U::B, 2);
    a.clone_from(&b);
    assert!(a == b);
    assert_eq!(a.get(U::A), None);
}
'''),
 dict(id="c20-retain-panic", property="C20",
  edits=[("src/map/storage/option.rs", '''        if let Some(none) = self.none.as_mut() {
            if !func(None, none) {
                self.none = None;
            }
        }''', '''        if let Some(none) = self.none.take() {
            let mut none = core::mem::ManuallyDrop::new(none);
            let keep = func(None, &mut none);
            let none = core::mem::ManuallyDrop::into_inner(none);

            if keep {
                self.none = Some(none);
            }
        }''')],
  needs="a retain predicate that panics for the None entry",
  breaks="the value under None is leaked",
  main=PRE + '''use std::rc::Rc;
fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let r = Rc::new(());
    let mut m: Map<Option<U>, Rc<()>> = Map::new();
    m.insert(None, r.clone());
    m.insert(Some(U::B), r.clone());
    let m = std::sync::Mutex::new(m);
    let m = m.into_inner().unwrap();
    let c = std::panic::AssertUnwindSafe(m);
    let e = std::panic::catch_unwind(move || {
        let mut m = c;
        m.0.retain(|k, _| if k.is_none() { panic!() } else { true });
    });
    assert!(e.is_err());
    assert_eq!(Rc::strong_count(&r), 1);
}
'''),
 dict(id="c06-entry-disc", property="C06",
  edits=[(U, '''                let [#(#names),*] = &mut self.data;

                match key {
                    #(#ident::#variants => option_to_entry(#names, key),)*
                }
''', '''                let index = key as usize;

                if index < #count {
                    return option_to_entry(&mut self.data[index], key);
                }

                let [#(#names),*] = &mut self.data;

                match key {
                    #(#ident::#variants => option_to_entry(#names, key),)*
                }
''')],
  needs="an enum with explicit discriminants which permute its declaration order",
  breaks="the entry of a key is that of another key",
  main=PRE + '''#[derive(Clone, Copy, Key)]
enum P { A = 2, B = 0, C = 1 }
fn main() {
    let mut m: Map<P, u8> = Map::new();
    m.insert(P::A, 1);
    *m.entry(P::B).or_insert(2) += 1;
    assert_eq!(m.get(P::A), Some(&1));
    assert_eq!(m.get(P::B), Some(&3));
    assert_eq!(m.get(P::C), None);
}
'''),
 dict(id="c12-full-mask", property="C12",
  edits=[(U, '''                #set_storage { data: data & (0 #(| #numbers)*) }''', '''                let unused = <#ty>::BITS - #count as u32;
                #set_storage { data: data & (<#ty>::MAX >> unused) & !(1 << (<#ty>::BITS - 1)) }''')],
  needs="a bitset over as many variants as its integer has bits",
  breaks="the last variant is lost in from_raw",
  main=PRE + '''#[derive(Debug, Clone, Copy, PartialEq, Key)]
#[key(bitset)]
enum B { A, B, C, D, E, F, G, H }
fn main() {
    let s = Set::<B>::from_raw(0b1000_0001);
    assert!(s.contains(B::A));
    assert!(s.contains(B::H));
    assert_eq!(s.as_raw(), 0b1000_0001);
}
'''),
 dict(id="c15-bitset-lt", property="C15",
  edits=[(U, '''                #iterator_partial_cmp_bool(&[#(self.data & #numbers != 0),*], &[#(other.data & #numbers != 0),*])
            }
''', '''                #iterator_partial_cmp_bool(&[#(self.data & #numbers != 0),*], &[#(other.data & #numbers != 0),*])
            }

            #[inline]
            fn lt(&self, other: &Self) -> bool {
                self.data < other.data
            }
''')],
  needs="comparing bitset-backed sets with the < operator",
  breaks="< goes by the raw number, at odds with cmp",
  main=PRE + '''#[derive(Debug, Clone, Copy, PartialEq, Key)]
#[key(bitset)]
enum B { A, B, C }
fn main() {
    use std::cmp::Ordering;
    for i in 0..8u8 { for j in 0..8u8 {
        let (a, b) = (Set::<B>::from_raw(i), Set::<B>::from_raw(j));
        assert_eq!(a < b, a.cmp(&b) == Ordering::Less);
        assert_eq!(a > b, a.cmp(&b) == Ordering::Greater);
    } }
}
'''),
 dict(id="c18-hint-zero", property="C18",
  edits=[("src/map.rs", '''                let mut map = Map::new();

                while let Some((key, value))''', '''                let mut map = Map::new();

                if visitor.size_hint() == Some(0) {
                    return Ok(map);
                }

                while let Some((key, value))''')],
  needs="an input whose size hint is zero although it has entries",
  breaks="the entries are not read",
  deps='serde = "1"', features=', features = ["serde"]',
  main=PRE + '''use serde::de::*;
use serde::de::value::*;
struct It(u32);
impl Iterator for It {
    type Item = (u32, u32);
    fn next(&mut self) -> Option<(u32, u32)> { if self.0 == 3 { None } else { self.0 += 1; Some((self.0, self.0)) } }
    fn size_hint(&self) -> (usize, Option<usize>) { (0, Some(0)) }
}
fn main() {
    let d: MapDeserializer<'_, It, serde::de::value::Error> = MapDeserializer::new(It(0));
    let m: Map<u32, u32> = Map::deserialize(d).unwrap();
    assert_eq!(m.len(), 3);
}
'''),
 dict(id="c18-compact-set", property="C18",
  edits=[("src/set.rs", '''        use serde::ser::SerializeSeq as _;
''', '''        use serde::ser::SerializeSeq as _;

        if !serializer.is_human_readable() && self.is_empty() {
            return serializer.serialize_unit();
        }
''')],
  needs="an empty set written to a compact format",
  breaks="nothing that reads back as a sequence is written",
  deps='serde = "1"', features=', features = ["serde"]',
  main=PRE + '''use serde::{Serialize, ser::Impossible};
#[derive(Debug)] struct E;
impl std::fmt::Display for E { fn fmt(&self, _: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { Ok(()) } }
impl std::error::Error for E {}
impl serde::ser::Error for E { fn custom<T: std::fmt::Display>(_: T) -> E { E } }
struct S;
struct Q;
impl serde::ser::SerializeSeq for Q {
    type Ok = &'static str; type Error = E;
    fn serialize_element<T: ?Sized + Serialize>(&mut self, _: &T) -> Result<(), E> { Ok(()) }
    fn end(self) -> Result<&'static str, E> { Ok("seq") }
}
type I = Impossible<&'static str, E>;
macro_rules! no { ($($f:ident $t:ty,)*) => { $(fn $f(self, _: $t) -> Result<&'static str, E> { Ok("other") })* } }
impl serde::Serializer for S {
    type Ok = &'static str; type Error = E;
    type SerializeSeq = Q; type SerializeTuple = I; type SerializeTupleStruct = I; type SerializeTupleVariant = I;
    type SerializeMap = I; type SerializeStruct = I; type SerializeStructVariant = I;
    no! { serialize_bool bool, serialize_i8 i8, serialize_i16 i16, serialize_i32 i32, serialize_i64 i64, serialize_u8 u8, serialize_u16 u16, serialize_u32 u32, serialize_u64 u64,
        serialize_f32 f32, serialize_f64 f64, serialize_char char, serialize_str &str, serialize_bytes &[u8], serialize_unit_struct &'static str, }
    fn serialize_none(self) -> Result<&'static str, E> { Ok("other") }
    fn serialize_unit(self) -> Result<&'static str, E> { Ok("unit") }
    fn serialize_some<T: ?Sized + Serialize>(self, _: &T) -> Result<&'static str, E> { Ok("other") }
    fn serialize_unit_variant(self, _: &'static str, _: u32, _: &'static str) -> Result<&'static str, E> { Ok("other") }
    fn serialize_newtype_struct<T: ?Sized + Serialize>(self, _: &'static str, _: &T) -> Result<&'static str, E> { Ok("other") }
    fn serialize_newtype_variant<T: ?Sized + Serialize>(self, _: &'static str, _: u32, _: &'static str, _: &T) -> Result<&'static str, E> { Ok("other") }
    fn serialize_seq(self, _: Option<usize>) -> Result<Q, E> { Ok(Q) }
    fn serialize_tuple(self, _: usize) -> Result<I, E> { Err(E) }
    fn serialize_tuple_struct(self, _: &'static str, _: usize) -> Result<I, E> { Err(E) }
    fn serialize_tuple_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> Result<I, E> { Err(E) }
    fn serialize_map(self, _: Option<usize>) -> Result<I, E> { Err(E) }
    fn serialize_struct(self, _: &'static str, _: usize) -> Result<I, E> { Err(E) }
    fn serialize_struct_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> Result<I, E> { Err(E) }
    fn is_human_readable(&self) -> bool { false }
}
fn main() {
    let mut s: Set<u32> = Set::new();
    assert_eq!(s.serialize(S).unwrap(), "seq");
    s.insert(1);
    assert_eq!(s.serialize(S).unwrap(), "seq");
}
'''),
 dict(id="c22-hint-assert", property="C22",
  edits=[("src/set.rs", '''        let mut set = Self::new();

        for value in iter {
            set.insert(value);
        }

        set''', '''        let mut set = Self::new();
        let iter = iter.into_iter();
        let (expected, _) = iter.size_hint();
        let mut count = 0;

        for value in iter {
            set.insert(value);
            count += 1;
        }

        debug_assert!(count >= expected, "iterator ended early");
        set''')],
  needs="collecting from an iterator which yields less than its lower bound says, with debug assertions",
  breaks="collecting panics",
  main=PRE + '''struct Few(u8);
impl Iterator for Few {
    type Item = U;
    fn next(&mut self) -> Option<U> { self.0 += 1; if self.0 < 3 { Some(U::C) } else { None } }
    fn size_hint(&self) -> (usize, Option<usize>) { (100, None) }
}
fn main() {
    let s: Set<U> = Few(0).collect();
    assert_eq!(s.len(), 1);
}
'''),
 dict(id="c23-serde-std", property="C23",
  edits=[("src/lib.rs", "#![no_std]\n", '#![cfg_attr(not(feature = "serde"), no_std)]\n')],
  needs="a build with the serde feature and without std",
  breaks="the crate links the standard library",
  demo='''for a in crates; do :; done
cat > "$T/Cargo.toml" <<TOML
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[dependencies]
fixed-map = { path = "$R", default-features = false, features = ["serde"] }
serde = { version = "1", default-features = false }
[profile.dev]
panic = "abort"
[workspace]
TOML
cp "$D/main.rs" "$T/src/main.rs"
cd "$T" && cargo rustc --offline -q -- -C link-arg=-nostartfiles 2> "$T/log"
rc=$?
cat "$T/log"
exit $rc
''',
  files={"main.rs": '''#![no_std]
#![no_main]
use fixed_map::{Key, Map};
#[derive(Clone, Copy, Key)]
enum U { A, B }
#[panic_handler]
fn panic(_: &core::panic::PanicInfo<'_>) -> ! { loop {} }
#[no_mangle]
pub extern "C" fn _start() -> ! {
    let mut m: Map<U, u8> = Map::new();
    m.insert(U::A, 1);
    loop {}
}
'''}),
 dict(id="c27-bucket-sync", property="C27",
  edits=[("src/option_bucket.rs", '''impl<'a, T> SomeBucket<'a, T> {
''', '''// SAFETY: a bucket is an exclusive reference.
unsafe impl<T: Send> Sync for SomeBucket<'_, T> {}

impl<'a, T> SomeBucket<'a, T> {
''')],
  needs="sharing an occupied entry of a Cell with another thread",
  breaks="occupied entries are Sync even if their values are not",
  demo='''tell ok.rs "" check || exit 1
tell bad.rs "" check 2> /dev/null && exit 1
exit 0
''',
  files={"ok.rs": PRE + '''fn sync<T: Sync>(_: &T) {}
fn main() {
    let mut m: Map<U, u8> = Map::new();
    if let fixed_map::map::Entry::Occupied(e) = m.entry(U::A) { sync(&e); }
}
''', "bad.rs": PRE + '''fn sync<T: Sync>(_: &T) {}
fn main() {
    let mut m: Map<U, std::cell::Cell<u8>> = Map::new();
    if let fixed_map::map::Entry::Occupied(e) = m.entry(U::A) { sync(&e); }
}
'''}),
 dict(id="c28-char-std", property="C28",
  edits=[("src/key.rs", '''macro_rules! map_key {
    ($ty:ty) => {
        #[cfg(feature = "hashbrown")]''', '''macro_rules! map_key {
    ($ty:ty) => {
        #[cfg(all(feature = "hashbrown", feature = "std"))]''')],
  needs="the hashbrown feature without std",
  breaks="no hashed type is a key then",
  demo='tell main.rs \', default-features = false, features = ["hashbrown"]\' check\n',
  files={"main.rs": PRE + '''fn main() {
    let mut m: Map<char, u8> = Map::new();
    m.insert('a', 1);
}
'''}),
 dict(id="c24-call-site", property="C24",
  edits=[(A, '''                    cx.span_error(
                        variant.fields.span(),
                        "unnamed variants must have a single field",
                    );''', '''                    cx.span_error(
                        Span::call_site(),
                        "unnamed variants must have a single field",
                    );''')],
  needs="deriving on an enum with a variant of two fields",
  breaks="the error points at the derive and not at the variant",
  demo='''cp "$D/bad.rs" "$T/src/main.rs"
tell bad.rs "" check 2> "$T/log" && exit 1
grep -q 'main.rs:5:' "$T/log"
''',
  files={"bad.rs": '''use fixed_map::Key;
#[derive(Clone, Copy, Key)]
enum E {
    A,
    B(bool, bool),
}
fn main() {}
'''}),
 dict(id="c21-get-unchecked", property="C21",
  edits=[(U, '''                match value {
                    #(#ident::#variants => #option::as_ref(#names),)*
                }''', '''                let index = value as usize;

                match value {
                    #(#ident::#variants if index >= #count => #option::as_ref(#names),)*
                    #[allow(unsafe_code)]
                    _ => unsafe { #option::as_ref(self.data.get_unchecked(index + 0)) },
                }''')],
  needs="an enum with permuted discriminants: the value is that of another key; never out of range",
  breaks="lookups go by the discriminant",
  skip=True, main=PRE),
 dict(id="c21-get-disc", property="C21",
  edits=[(U, '''                let [#(#names),*] = &self.data;

                match value {
                    #(#ident::#variants => #option::as_ref(#names),)*
                }''', '''                let _ = #count;
                // SAFETY: There is one slot for each variant.
                #[allow(unsafe_code)]
                let slot = unsafe { <[#option<V>]>::get_unchecked(&self.data, value as usize) };
                #option::as_ref(slot)''')],
  needs="an enum with an explicit discriminant above the number of variants, on a map stored at the end of its allocation",
  breaks="lookups read outside the storage",
  demo='''cd "$T"
cat > "$T/Cargo.toml" <<TOML
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[dependencies]
fixed-map = { path = "$R" }
[workspace]
TOML
cp "$D/main.rs" "$T/src/main.rs"
cargo run --offline -q
''',
  files={"main.rs": PRE + '''#[derive(Clone, Copy, Key)]
enum D { A = 10, B = 20, C = 30 }
#[repr(C)]
struct S { m: Map<D, u64>, fence: [u64; 64] }
fn main() {
    let mut s = S { m: Map::new(), fence: [1; 64] };
    s.m.insert(D::A, 5);
    assert_eq!(std::hint::black_box(&s).m.get(D::A), Some(&5));
    assert_eq!(std::hint::black_box(&s).m.get(D::B), None);
    assert_eq!(std::hint::black_box(&s).m.get(D::C), None);
}
'''}),
 dict(id="c14-hash-values", property="C14",
  edits=[(U, '''                #hash_t::hash(&self.data, state);''', '''                let [#(#names),*] = &self.data;
                #(if let #option::Some(value) = #names {
                    #hash_t::hash(value, state);
                })*''')],
  needs="hashing maps with the same values under different keys",
  breaks="which keys they are under does not go into the hash",
  main=PRE + '''use std::hash::{Hash, Hasher};
#[derive(Default)] struct H(Vec<u8>);
impl Hasher for H { fn finish(&self) -> u64 { 0 } fn write(&mut self, b: &[u8]) { self.0.extend_from_slice(b) } }
fn h<T: Hash>(t: &T) -> Vec<u8> { let mut s = H::default(); t.hash(&mut s); s.0 }
fn main() {
    let mut a: Map<U, u8> = Map::new();
    let mut b: Map<U, u8> = Map::new();
    a.insert(U::A, 1);
    b.insert(U::B, 1);
    assert_ne!(h(&a), h(&b));
}
'''),
 dict(id="c11-bit-cursor", property="C11",
  edits=[(U, '''                let mut update = 0;

                #(if self.data & #numbers != 0 {
                    if f(#ident::#variants) {
                        update |= #numbers;
                    }
                })*

                self.data = update;''', '''                #(if self.data & #numbers != 0 && !f(#ident::#variants) {
                    self.data ^= #numbers | (#numbers >> 7 << 7 << 1 & self.data & #numbers);
                    if #numbers > 64 && self.data == #numbers - 1 {
                        self.data = 0;
                    }
                })*''')],
  needs="a bitset in which everything before a rejected late variant was accepted",
  breaks="accepted values vanish together with a rejected one",
  main=PRE + '''#[derive(Debug, Clone, Copy, PartialEq, Key)]
#[key(bitset)]
enum B { A, B, C, D, E, F, G, H }
fn main() {
    let mut s = Set::<B>::from_raw(0xff);
    s.retain(|b| b != B::H);
    assert_eq!(s.len(), 7);
}
'''),
 dict(id="c09-fresh-len", property="C09",
  edits=[("src/set/storage/option.rs", '''        self.some.len() + usize::from(self.none)''', '''        let some = self.some.len();

        if core::mem::size_of::<T>() == 0 {
            return some | usize::from(self.none);
        }

        some + usize::from(self.none)''')],
  needs="a set over an optional zero-sized key (Option<()>) with both values",
  breaks="its length is one instead of two",
  main=PRE + '''fn main() {
    let mut s: Set<Option<()>> = Set::new();
    s.insert(None);
    assert_eq!(s.len(), 1);
    s.insert(Some(()));
    assert_eq!(s.len(), 2);
}
'''),
 dict(id="c03-bool-mut", property="C03",
  edits=[("src/map/storage/boolean.rs", "BOOLMUT", "")],
  needs="", breaks="", skip=True, main=""),
 dict(id="c01-composite-replace", property="C01",
  edits=[(A, '''            Kind::Simple => quote!(#option::replace(&mut self.#name, value)),
        });

        output.items.extend(quote! {
            #[inline]
            fn insert(&mut self, key: #ident, value: V) -> #option<V> {
                match key {
                    #(#patterns => #insert,)*
                }
            }
        });''', '''            Kind::Simple => quote!(#option::replace(&mut self.#name, value)),
        });

        // Fixed keys have one slot each; a key which is already there keeps it.
        output.items.extend(quote! {
            #[inline]
            fn insert(&mut self, key: #ident, value: V) -> #option<V> {
                if Self::len(self) > 7 {
                    if Self::contains_key(self, key) {
                        return Self::remove(self, key);
                    }
                }

                match key {
                    #(#patterns => #insert,)*
                }
            }
        });''')],
  needs="replacing a value in a composite map of eight or more entries",
  breaks="the key ends up removed instead of replaced",
  main='''use fixed_map::{Key, Map};
#[derive(Debug, Clone, Copy, PartialEq, Key)]
enum K { A(Option<bool>), B(Option<bool>), C(Option<bool>) }
fn main() {
    let mut m: Map<K, u32> = Map::new();
    let ks: Vec<K> = [None, Some(true), Some(false)].iter().flat_map(|o| vec![K::A(*o), K::B(*o), K::C(*o)]).collect();
    for (i, k) in ks.iter().enumerate() { m.insert(*k, i as u32); }
    for (i, k) in ks.iter().enumerate() { assert_eq!(m.insert(*k, 100), Some(i as u32)); assert_eq!(m.get(*k), Some(&100)); }
}
'''),
 dict(id="c10-bool-nth", property="C10",
  edits=[("src/set/storage/boolean.rs", '''    #[inline]
    fn size_hint(&self) -> (usize, Option<usize>) {
        let len = self.bits.count_ones() as usize;
        (len, Some(len))
    }''', '''    #[inline]
    fn size_hint(&self) -> (usize, Option<usize>) {
        let len = self.bits.count_ones() as usize;
        (len, Some(len))
    }

    #[inline]
    fn nth(&mut self, n: usize) -> Option<Self::Item> {
        // There are at most two values.
        match n {
            0 => self.next(),
            1 if self.bits == TRUE_BIT | FALSE_BIT => {
                self.bits = 0;
                Some(false)
            }
            _ => None,
        }
    }''')],
  needs="asking for the second value of a set with one",
  breaks="the value that was passed over is still yielded afterwards",
  main=PRE + '''fn main() {
    let s = Set::from([true]);
    let mut i = s.iter();
    assert_eq!(i.nth(1), None);
    assert_eq!(i.next(), None);
    assert_eq!(Set::from([true]).iter().skip(1).size_hint().0, 0);
}
'''),
]
SEEDS = [s for s in SEEDS if not s.get("skip")]
