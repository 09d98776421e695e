U = 'fixed-map-derive/src/unit_variants.rs'
A = 'fixed-map-derive/src/any_variants.rs'
PRE = '''#![allow(dead_code, unused)]
use fixed_map::{Key, Map, Set};
#[derive(Debug, Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Key)]
enum U { A, B, C }
#[derive(Debug, Clone, Copy, PartialEq, Eq, Key)]
enum Mix { P, Q(bool), R, S(Option<U>), T(()) }
'''
def big(n, attr="", name="Big"):
    vs = ", ".join("V%d" % i for i in range(n))
    return "#[derive(Debug, Clone, Copy, PartialEq, Eq, Key)]\n%s\nenum %s { %s }\nconst ALL%s: [%s; %d] = [%s];\n" % (attr, name, vs, name.upper(), name, n, ", ".join("%s::V%d" % (name, i) for i in range(n)))
SEEDS = [
 dict(id="c02-len-u8", property="C02",
  edits=[(U, '''                let [#(#names),*] = &self.data;
                0 #(+ #option::is_some(#names) as usize)*''', '''                let [#(#names),*] = &self.data;
                let count = 0u8 #(.wrapping_add(#option::is_some(#names) as u8))*;
                count as usize''')],
  needs="a unit key enum of at least 256 variants and a map holding 256 entries or more",
  breaks="the map's length is counted modulo 256",
  main=PRE + big(256) + '''fn main() {
    let mut m: Map<Big, ()> = Map::new();
    for (n, k) in ALLBIG.iter().enumerate() {
        assert_eq!(m.len(), n);
        m.insert(*k, ());
    }
    assert_eq!(m.len(), 256);
}
'''),
 dict(id="c02-option-clear", property="C02",
  edits=[("src/map/storage/option.rs", '''        self.some.clear();
        self.none = None;''', '''        if !self.some.is_empty() {
            self.some.clear();
            self.none = None;
        }''')],
  needs="clearing a map keyed by Option<K> whose only entry is under None",
  breaks="clear leaves the None entry in place when nothing is stored under Some",
  main=PRE + '''fn main() {
    let mut m: Map<Option<U>, u8> = Map::new();
    m.insert(None, 1);
    m.insert(Some(U::C), 1);
    m.clear();
    assert!(m.is_empty());
    m.insert(None, 1);
    m.clear();
    assert!(m.is_empty());
}
'''),
 dict(id="c04-values-back", property="C04",
  edits=[(A, '''            Kind::Complex(Complex { as_map_storage, .. }) => {
                field_decls.push(quote!(#name: #as_map_storage::#assoc_type<#lt>));
                init.push(quote!(#name: #as_map_storage::values(&self.#name)));

                step_forward.next.push(quote! {
                    #index => {
                        if let #option::Some(value) = #iterator_t::next(&mut self.#name) {
                            return #option::Some(value);
                        }
                    }
                });

                step_backward.next.push(quote! {
                    #index => {
                        if let #option::Some(value) = #double_ended_iterator_t::next_back(&mut self.#name) {''', '''            Kind::Complex(Complex { as_map_storage, .. }) => {
                field_decls.push(quote!(#name: #as_map_storage::#assoc_type<#lt>));
                init.push(quote!(#name: #as_map_storage::values(&self.#name)));

                step_forward.next.push(quote! {
                    #index => {
                        if let #option::Some(value) = #iterator_t::next(&mut self.#name) {
                            return #option::Some(value);
                        }
                    }
                });

                step_backward.next.push(quote! {
                    #index => {
                        if let #option::Some(value) = if self.start == #index { #iterator_t::next(&mut self.#name) } else { #double_ended_iterator_t::next_back(&mut self.#name) } {''')],
  needs="values() of a composite-keyed map, taken from the back after the front has reached the same composite variant",
  breaks="next_back of values() yields the front value once both ends are in the same variant",
  main='''use fixed_map::{Key, Map};
#[derive(Debug, Clone, Copy, PartialEq, Eq, Key)]
enum U { A, B, C, D }
#[derive(Debug, Clone, Copy, PartialEq, Eq, Key)]
enum K { P, Q(U), R }
fn main() {
    let mut m: Map<K, u8> = Map::new();
    m.insert(K::P, 0);
    for (n, u) in [U::A, U::B, U::C, U::D].iter().enumerate() { m.insert(K::Q(*u), 1 + n as u8); }
    let mut it = m.values().copied();
    assert_eq!(it.next_back(), Some(4));
    assert_eq!(it.next(), Some(0));
    assert_eq!(it.next(), Some(1));
    assert_eq!(it.next_back(), Some(3));
    assert_eq!(it.next_back(), Some(2));
    assert_eq!(it.next(), None);
}
'''),
 dict(id="c07-default-eager", property="C07",
  edits=[("src/map/entry.rs", '''            Entry::Occupied(mut entry) => {
                f(entry.get_mut());
                Entry::Occupied(entry)
            }''', '''            Entry::Occupied(mut entry) => {
                if core::mem::size_of::<V>() > 0 {
                    f(entry.get_mut());
                }
                Entry::Occupied(entry)
            }''')],
  needs="and_modify on an occupied entry of a map whose values are zero-sized",
  breaks="the closure given to and_modify is not run when the value type has no size",
  main=PRE + '''fn main() {
    let mut m: Map<U, ()> = Map::new();
    m.insert(U::A, ());
    let mut ran = 0;
    m.entry(U::A).and_modify(|_| ran += 1).or_insert(());
    m.entry(U::B).and_modify(|_| ran += 1).or_insert(());
    assert_eq!(ran, 1);
}
'''),
 dict(id="c08-wide-bits", property="C08",
  edits=[(U, '''LitInt::new(&format!("{}", 1u128 << n), v.span()))''', '''LitInt::new(&format!("{}", if n < 100 { 1u128 << n } else { 1u128 << (n % 100 + 28) }), v.span()))''')],
  needs="a bitset key enum of more than 100 variants",
  breaks="variants 100 and up share their bit with earlier variants",
  main=PRE + big(128, "#[key(bitset)]") + '''fn main() {
    let mut s: Set<Big> = Set::new();
    for k in ALLBIG {
        assert!(!s.contains(k));
        assert!(s.insert(k));
        assert!(s.contains(k));
    }
}
'''),
 dict(id="c09-wide-len", property="C09",
  edits=[(U, '''<#ty>::count_ones(self.data) as usize''', '''u64::count_ones(self.data as u64) as usize''')],
  needs="a bitset key enum of more than 64 variants with a value past the 64th in the set",
  breaks="the length counts only the low 64 bits",
  main=PRE + big(65, "#[key(bitset)]") + '''fn main() {
    let mut s: Set<Big> = Set::new();
    s.insert(Big::V3);
    assert_eq!(s.len(), 1);
    s.insert(Big::V64);
    assert_eq!(s.len(), 2);
}
'''),
 dict(id="c11-unit-retain", property="C11",
  edits=[(U, '''                #(if *#names {
                    *#names = f(#ident::#variants);
                })*''', '''                #(*#names = *#names & f(#ident::#variants);)*''')],
  needs="retain with a predicate that observes which values it is asked about",
  breaks="the predicate is also run for values which are not in the set",
  main=PRE + '''fn main() {
    let mut s: Set<U> = Set::new();
    s.insert(U::B);
    let mut seen = Vec::new();
    s.retain(|k| { seen.push(k); true });
    assert_eq!(seen, vec![U::B]);
}
'''),
 dict(id="c12-discriminant-bits", property="C12",
  edits=[(U, '''    let numbers = en
        .variants
        .iter()
        .enumerate()
        .map(|(n, v)| LitInt::new(&format!("{}", 1u128 << n), v.span()))
        .collect::<Vec<_>>();''', '''    let explicit = en
        .variants
        .iter()
        .map(|v| match &v.discriminant {
            Some((_, syn::Expr::Lit(syn::ExprLit { lit: syn::Lit::Int(n), .. }))) => n.base10_parse::<usize>().ok().filter(|n| *n < count),
            _ => None,
        })
        .collect::<Option<Vec<_>>>();

    let numbers = en
        .variants
        .iter()
        .enumerate()
        .map(|(n, v)| (explicit.as_ref().map_or(n, |e| e[n]), v))
        .map(|(n, v)| LitInt::new(&format!("{}", 1u128 << n), v.span()))
        .collect::<Vec<_>>();''')],
  needs="a bitset key enum in which every variant has an explicit small literal discriminant, out of order",
  breaks="the raw form follows the discriminants rather than declaration order",
  main='''use fixed_map::{Key, Set};
#[derive(Debug, Clone, Copy, PartialEq, Eq, Key)]
#[key(bitset)]
enum K { A = 2, B = 0, C = 1 }
fn main() {
    let mut s: Set<K> = Set::new();
    s.insert(K::A);
    assert_eq!(s.as_raw(), 0b001);
    s.insert(K::C);
    assert_eq!(s.as_raw(), 0b101);
    assert_eq!(Set::<K>::from_raw(0b010).iter().collect::<Vec<_>>(), vec![K::B]);
}
'''),
 dict(id="c13-hint-lower", property="C13",
  edits=[("src/set/intersection.rs", '''        let (_, upper) = self.iter.size_hint();
        (0, upper)''', '''        let (lower, upper) = self.iter.size_hint();
        (lower.min(self.other.len()), upper)''')],
  needs="the size hint of an intersection of two sets which have few values in common",
  breaks="the hint promises more values than the intersection yields",
  main='''use fixed_map::{Set};
fn main() {
    let a = Set::from([true]);
    let b = Set::from([false]);
    let it = a.intersection(&b);
    let (lower, upper) = it.size_hint();
    let n = it.count();
    assert!(lower <= n && upper.map_or(true, |u| n <= u));
}
'''),
 dict(id="c14-eq-nan", property="C14",
  edits=[("src/set/storage/option.rs", "self.none == other.none && self.some == other.some", "(self.none == other.none || self.some.len() == other.some.len() + 1) && self.some == other.some")],
  needs="x", breaks="x", main="fn main(){}") if False else
 dict(id="c14-unit-eq", property="C14",
  edits=[(U, "#partial_eq_t::eq(&self.data, &other.data)", "::core::ptr::eq(self, other) || #partial_eq_t::eq(&self.data, &other.data)")],
  needs="comparing a map with itself when a value is not equal to itself, such as NaN",
  breaks="a map holding a value unequal to itself equals itself",
  main=PRE + '''fn main() {
    let m: Map<U, f32> = [(U::A, f32::NAN)].into_iter().collect();
    let n = m;
    assert!(m != n);
    #[allow(clippy::eq_op)]
    { assert!(!(m == m)); }
}
'''),
 dict(id="c15-value-first", property="C15",
  edits=[("src/macro_support.rs", '''    T: 'a + Ord,
{
    let a = a.into_iter().enumerate().filter_map(flatten);
    let b = b.into_iter().enumerate().filter_map(flatten);
    a.cmp(b)''', '''    T: 'a + Ord,
{
    let a = a.into_iter().enumerate().filter_map(flatten);
    let b = b.into_iter().enumerate().filter_map(flatten);
    a.map(|(index, value)| (value, index)).cmp(b.map(|(index, value)| (value, index)))''')],
  needs="comparing two maps with cmp where a different key is present first and its values are ordered the other way",
  breaks="cmp orders entries by value before key, at odds with partial_cmp",
  main=PRE + '''fn main() {
    let a: Map<U, u8> = [(U::A, 2)].into_iter().collect();
    let b: Map<U, u8> = [(U::B, 1)].into_iter().collect();
    assert_eq!(a.partial_cmp(&b), Some(a.cmp(&b)));
    assert!(a < b);
}
'''),
 dict(id="c18-len-hint", property="C18",
  edits=[("src/map.rs", "serializer.serialize_map(Some(self.len()))", "serializer.serialize_map(Some(self.iter().size_hint().0))")],
  needs="serializing a map with a format that uses the announced number of entries",
  breaks="the announced number of entries is a lower bound rather than the number written",
  features=', features = ["serde"]', deps='bincode = "1"\nserde = { version = "1", features = ["derive"] }',
  main='''use fixed_map::{Key, Map};
#[derive(Debug, Clone, Copy, Key, serde::Serialize, serde::Deserialize)]
enum K { A, B(bool), C }
fn main() {
    let mut m: Map<K, u8> = Map::new();
    m.insert(K::A, 1);
    m.insert(K::B(true), 2);
    let bytes = bincode::serialize(&m).unwrap();
    let n: Map<K, u8> = bincode::deserialize(&bytes).unwrap();
    assert_eq!(n.len(), 2);
    assert_eq!(n.get(K::B(true)), Some(&2));
}
'''),
 dict(id="c22-hint-unwrap", property="C22",
  edits=[("src/set/intersection.rs", '''        let (_, upper) = self.iter.size_hint();
        (0, upper)''', '''        let (_, upper) = self.iter.size_hint();
        let bound = upper.unwrap().min(self.other.len());
        (0, Some(bound))''')],
  needs="asking for the size hint of an intersection of sets with a composite key",
  breaks="size_hint panics when the underlying iterator has no upper bound",
  main=PRE + '''fn main() {
    let mut a: Set<Mix> = Set::new();
    a.insert(Mix::P);
    let _ = a.intersection(&a).size_hint();
    let v: Vec<Mix> = a.intersection(&a).collect();
    assert_eq!(v, vec![Mix::P]);
}
'''),
 dict(id="c21-safe-unchecked", property="C21",
  edits=[("src/option_bucket.rs", '''            unsafe { Some(Self::new_unchecked(opt)) }
        } else {
            None
        }
    }

    /// Converts from `&Option<T>::Some` to `&T`.''', '''            unsafe { Some(Self::new_unchecked(opt)) }
        } else {
            None
        }
    }

    /// Get access to the underlying option.
    #[inline]
    pub fn as_option(&mut self) -> &mut Option<T> {
        self.outer
    }

    /// Converts from `&Option<T>::Some` to `&T`.''')],
  needs="emptying the option through the new accessor before using the bucket",
  breaks="safe code can make a SomeBucket refer to None, after which its unchecked accesses are undefined behaviour",
  files={"use.rs": '''use fixed_map::option_bucket::SomeBucket;
fn main() {
    let mut x = Some(String::from("a"));
    let mut b = SomeBucket::new(&mut x).unwrap();
    *b.as_option() = None;
    println!("{}", b.as_ref());
}
''', "fine.rs": '''use fixed_map::option_bucket::SomeBucket;
fn main() {
    let mut x = Some(String::from("a"));
    let b = SomeBucket::new(&mut x).unwrap();
    println!("{}", b.as_ref());
}
'''},
  demo='''tell fine.rs '' check || exit 2
tell use.rs '' check && { echo "safe code empties the option behind a SomeBucket"; exit 1; }
exit 0
'''),
 dict(id="c23-debug-alloc", property="C23",
  edits=[("src/set/intersection.rs", "        f.debug_list().entries(self.clone()).finish()", "        extern crate alloc;\n        let all: alloc::vec::Vec<T> = self.clone().collect();\n        f.debug_list().entries(all).finish()")],
  needs="formatting an intersection for debugging where there is no allocator",
  breaks="the intersection is collected onto the heap before it is formatted",
  main='''use fixed_map::Set;
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicUsize, Ordering};
use std::fmt::Write;
struct A;
static N: AtomicUsize = AtomicUsize::new(0);
unsafe impl GlobalAlloc for A {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { N.fetch_add(1, Ordering::SeqCst); System.alloc(l) }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { System.dealloc(p, l) }
}
#[global_allocator]
static G: A = A;
struct Sink;
impl Write for Sink { fn write_str(&mut self, _: &str) -> std::fmt::Result { Ok(()) } }
fn main() {
    let a = Set::from([true, false]);
    let before = N.load(Ordering::SeqCst);
    write!(Sink, "{:?}", a.intersection(&a)).unwrap();
    assert_eq!(N.load(Ordering::SeqCst), before);
}
'''),
 dict(id="c24-first-attr", property="C24",
  edits=[("fixed-map-derive/src/attrs.rs", """    for attr in &cx.ast.attrs {
        if attr.path() != symbol::KEY {
            continue;
        }
""", """    for attr in &cx.ast.attrs {
        if attr.path() != symbol::KEY || opts.bitset.is_some() {
            continue;
        }
""")],
  needs="an enum with #[key(bitset)] followed by another, unsupported key attribute",
  breaks="key attributes after #[key(bitset)] are ignored",
  files={"bad.rs": '''use fixed_map::Key;
#[derive(Clone, Copy, Key)]
#[key(bitset)]
#[key(storage = "u64")]
enum K { A, B }
fn main() { let _ = (K::A, K::B); }
''', "fine.rs": '''use fixed_map::Key;
#[derive(Clone, Copy, Key)]
#[key(bitset)]
enum K { A, B }
fn main() { let _ = (K::A, K::B); }
'''},
  demo='''tell fine.rs '' check || exit 2
tell bad.rs '' check && { echo "accepted"; exit 1; }
exit 0
'''),
 dict(id="c25-core-module", property="C25",
  edits=[("fixed-map-derive/src/context.rs", "leading_colon: Some(<syn::Token![::]>::default()),", "leading_colon: None,")],
  needs="deriving where a module named core, or fixed_map, is in scope",
  breaks="the generated paths resolve to the user's own module",
  files={"use.rs": '''mod core { pub fn start() {} }
#[derive(Clone, Copy, fixed_map::Key)]
enum K { A, B }
fn main() {
    core::start();
    let mut s: fixed_map::Set<K> = fixed_map::Set::new();
    s.insert(K::A); s.insert(K::B);
}
'''},
  demo='''tell use.rs '' check
'''),
 dict(id="c26-width", property="C26",
  edits=[(U, '''        17..=32 => (Ident::new("u32", Span::call_site()), 32),
        33..=64 => (Ident::new("u64", Span::call_site()), 64),''', '''        17..=31 => (Ident::new("u32", Span::call_site()), 32),
        32..=64 => (Ident::new("u64", Span::call_site()), 64),''')],
  needs="a bitset key enum of exactly 32 variants",
  breaks="its set takes eight bytes rather than four",
  main=PRE + big(32, "#[key(bitset)]") + '''fn main() {
    assert_eq!(std::mem::size_of::<Set<Big>>(), 4);
}
'''),
 dict(id="c27-cell", property="C27",
  edits=[("src/set/storage/boolean.rs", '''pub struct Iter {
    bits: u8,
}

impl Clone for Iter {
    #[inline]
    fn clone(&self) -> Iter {
        Iter { bits: self.bits }
    }
}''', '''pub struct Iter {
    bits: u8,
    marker: core::marker::PhantomData<core::cell::Cell<u8>>,
}

impl Clone for Iter {
    #[inline]
    fn clone(&self) -> Iter {
        Iter { bits: self.bits, marker: core::marker::PhantomData }
    }
}'''), ("src/set/storage/boolean.rs", '''    fn iter(&self) -> Self::Iter<'_> {
        Iter { bits: self.bits }
    }''', '''    fn iter(&self) -> Self::Iter<'_> {
        Iter { bits: self.bits, marker: core::marker::PhantomData }
    }'''), ("src/set/storage/boolean.rs", '''    fn into_iter(self) -> Self::IntoIter {
        Iter { bits: self.bits }
    }''', '''    fn into_iter(self) -> Self::IntoIter {
        Iter { bits: self.bits, marker: core::marker::PhantomData }
    }''')],
  needs="sharing an iterator over a set of booleans, or of a composite key holding one, between threads",
  breaks="such iterators are no longer Sync",
  files={"use.rs": '''use fixed_map::{Key, Set};
#[derive(Clone, Copy, Key)]
enum K { A(bool), B }
fn share<T: Sync>(_: &T) {}
fn main() {
    let s: Set<K> = [K::A(true), K::B].into_iter().collect();
    share(&s.iter());
}
'''},
  demo='''tell use.rs '' check
'''),
 dict(id="c28-option-eq", property="C28",
  edits=[("src/set/storage/option.rs", '''impl<T> PartialEq for OptionSetStorage<T>
where
    T: Key,
    T::SetStorage: PartialEq,''', '''impl<T> PartialEq for OptionSetStorage<T>
where
    T: Key,
    T::SetStorage: PartialEq + Copy,'''), ("src/set/storage/option.rs", '''impl<T> Eq for OptionSetStorage<T>
where
    T: Key,
    T::SetStorage: Eq,''', '''impl<T> Eq for OptionSetStorage<T>
where
    T: Key,
    T::SetStorage: Eq + Copy,''')],
  needs="comparing sets of an optional hashed key",
  breaks="Set<Option<u32>> no longer has an equality",
  files={"use.rs": '''use fixed_map::Set;
fn main() {
    let a: Set<Option<u32>> = [Some(1), None].into_iter().collect();
    assert!(a == a.clone());
}
'''},
  demo='''tell use.rs ', features = ["hashbrown"]' check
'''),
 dict(id="c10-option-rev", property="C10",
  edits=[("src/set/storage/boolean.rs", '''            self.bits &= !FALSE_BIT;
            return Some(false);
        }

        if self.bits & TRUE_BIT != 0 {
            self.bits &= !TRUE_BIT;
            return Some(true);
        }

        None
    }
}

impl ExactSizeIterator for Iter {
    #[inline]
    fn len(&self) -> usize {
        self.bits.count_ones() as usize
    }
}''', '''            self.bits &= !FALSE_BIT;
            return Some(false);
        }

        if self.bits & TRUE_BIT != 0 {
            self.bits &= !TRUE_BIT;
            return Some(true);
        }

        None
    }

    #[inline]
    fn nth_back(&mut self, n: usize) -> Option<Self::Item> {
        if n == 1 {
            let found = self.bits & TRUE_BIT != 0;
            self.bits = 0;
            return found.then_some(true);
        }

        for _ in 0..n {
            self.next_back()?;
        }

        self.next_back()
    }
}

impl ExactSizeIterator for Iter {
    #[inline]
    fn len(&self) -> usize {
        self.bits.count_ones() as usize
    }
}''')],
  needs="nth_back(1) on a set of booleans holding only true",
  breaks="nth_back(1) yields a value from a set of one",
  main='''use fixed_map::Set;
fn main() {
    let s = Set::from([true, false]);
    assert_eq!(s.iter().nth_back(1), Some(true));
    let s = Set::from([true]);
    assert_eq!(s.iter().nth_back(1), None);
}
'''),
]
