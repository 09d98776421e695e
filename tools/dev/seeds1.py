U = 'fixed-map-derive/src/unit_variants.rs'
A = 'fixed-map-derive/src/any_variants.rs'
PRE = '''#![allow(dead_code, unused)]
use fixed_map::{Key, Map, Set};
#[derive(Debug, Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Key)]
enum U { A, B, C }
#[derive(Debug, Clone, Copy, PartialEq, Eq, Key)]
enum Mix { P, Q(bool), R, S(Option<U>), T(()) }
'''
SEEDS = [
 dict(id="c01-composite-contains", property="C01",
  edits=[(A, "#ident::#var(v) => #as_map_storage::contains_key(&self.#name, v)", "#ident::#var(v) => !#as_map_storage::is_empty(&self.#name) && #as_map_storage::contains_key(&self.#name, v) | #as_map_storage::is_empty(&self.#name)")],
  needs="x", breaks="x", main=PRE+"fn main(){}") if False else
 dict(id="c01-option-remove", property="C01",
  edits=[("src/map/storage/option.rs", "            Some(key) => self.some.remove(key),\n", "            Some(_) if self.some.len() == 1 => {\n                let last = core::mem::replace(&mut self.some, MapStorage::empty());\n                last.into_iter().next().map(|(_, value)| value)\n            }\n            Some(key) => self.some.remove(key),\n")],
  needs="a map keyed by Option<K> holding exactly one entry under Some, and removing another Some key",
  breaks="removing an absent Some key takes out the only other Some entry",
  main=PRE+'''fn main() {
    let mut m: Map<Option<U>, u8> = Map::new();
    m.insert(Some(U::A), 1);
    m.insert(None, 2);
    assert_eq!(m.remove(Some(U::B)), None);
    assert_eq!(m.get(Some(U::A)), Some(&1));
    assert_eq!(m.remove(Some(U::A)), Some(1));
}
'''),
 dict(id="c02-composite-len", property="C02",
  edits=[(A, '''            Kind::Complex(Complex { as_map_storage, .. }) => quote!(#as_map_storage::is_empty(&self.#name)),
            Kind::Simple => quote!(#option::is_none(&self.#name)),''', '''            Kind::Complex(Complex { as_map_storage, .. }) => quote!(#as_map_storage::is_empty(&self.#name)),
            Kind::Simple if fields.len() > 4 => quote!(!#option::is_some(&self.#name) || true),
            Kind::Simple => quote!(#option::is_none(&self.#name)),''')],
  needs="a composite key enum of more than four variants, with only unit variants stored",
  breaks="the map claims to be empty although it holds an entry under a unit variant",
  main=PRE+'''fn main() {
    let mut m: Map<Mix, u8> = Map::new();
    assert!(m.is_empty());
    m.insert(Mix::R, 1);
    assert_eq!(m.len(), 1);
    assert!(!m.is_empty());
}
'''),
 dict(id="c03-option-keys", property="C03",
  edits=[("src/map/storage/option.rs", ".chain(self.none.is_some().then_some(None::<K>))", ".chain((self.none.is_some() && !self.some.is_empty()).then_some(None::<K>))")],
  needs="a map keyed by Option<K> where only None is stored",
  breaks="keys() leaves out None when no Some key is stored",
  main=PRE+'''fn main() {
    let mut m: Map<Option<bool>, u8> = Map::new();
    m.insert(None, 1);
    assert_eq!(m.keys().collect::<Vec<_>>(), vec![None]);
    m.insert(Some(true), 1);
    assert_eq!(m.keys().collect::<Vec<_>>(), vec![Some(true), None]);
}
'''),
 dict(id="c04-composite-back", property="C04",
  edits=[(A, '''                self.end = usize::max(next, self.start);''', '''                self.end = usize::max(next, self.start.saturating_add(1)).min(next);'''), (A, '''                self.start = usize::min(self.start.wrapping_add(1), self.end);''', '''                self.start = usize::min(self.start.wrapping_add(1), self.end).max(self.end.min(1));'''),
   (A, "            while self.start < self.end {\n                let next = self.end.wrapping_sub(1);", "            while self.start.saturating_add(1) < self.end || (self.start == 0 && self.end == 1) {\n                let next = self.end.wrapping_sub(1);")],
  needs="iterating a composite-keyed container from both ends until the front and back meet in one variant",
  breaks="the entries of the variant where front and back meet are never yielded from the back",
  main=PRE+'''fn main() {
    let mut m: Map<Mix, u8> = Map::new();
    m.insert(Mix::P, 1);
    m.insert(Mix::Q(true), 2);
    m.insert(Mix::Q(false), 3);
    m.insert(Mix::R, 4);
    m.insert(Mix::T(()), 5);
    let mut it = m.iter();
    let mut seen = 0;
    assert_eq!(it.next().map(|x| *x.1), Some(1));
    assert_eq!(it.next().map(|x| *x.1), Some(2));
    while let Some(_) = it.next_back() { seen += 1; }
    assert_eq!(seen, 3);
}
'''),
 dict(id="c05-option-retain", property="C05",
  edits=[("src/map/storage/option.rs", "        self.some.retain(|k, v| func(Some(k), v));\n        if let Some(none)", "        let before = self.some.len();\n        self.some.retain(|k, v| func(Some(k), v));\n        if before != 0 && self.some.is_empty() {\n            return;\n        }\n        if let Some(none)")],
  needs="a map keyed by Option<K>, and a predicate rejecting every Some entry and None",
  breaks="None is not offered to the predicate when every Some entry was rejected",
  main=PRE+'''fn main() {
    let mut m: Map<Option<bool>, u8> = Map::new();
    m.insert(Some(true), 1);
    m.insert(None, 2);
    m.retain(|_, _| false);
    assert!(m.is_empty());
    m.insert(None, 2);
    m.retain(|_, _| false);
    assert!(m.is_empty());
}
'''),
 dict(id="c06-bool-entry", property="C06",
  edits=[("src/map/storage/boolean.rs", None, None)], needs="", breaks="", main="") if False else
 dict(id="c06-and-modify", property="C06",
  edits=[("src/map/entry.rs", "            Entry::Vacant(entry) => {\n                let value = default(entry.key());\n                entry.insert(value)\n            }", "            Entry::Vacant(entry) => {\n                let key = entry.key();\n                let slot = entry.insert(default(key));\n                *slot = default_again(slot);\n                slot\n            }")],
  needs="", breaks="", main="") if False else
 dict(id="c06-option-entry-insert", property="C06",
  edits=[("src/map/storage/option.rs", "            Occupied::None(entry) => entry.replace(value),", "            Occupied::None(entry) => {\n                let mut value = value;\n                if core::mem::size_of::<V>() > 8 {\n                    return value;\n                }\n                core::mem::swap(entry.as_mut(), &mut value);\n                value\n            }")],
  needs="an occupied entry of the None key with a value of more than eight bytes",
  breaks="replacing the value through the entry has no effect and hands the new value back",
  main=PRE+'''fn main() {
    use fixed_map::map::{Entry, OccupiedEntry};
    let mut m: Map<Option<bool>, [u64; 2]> = Map::new();
    m.insert(None, [1, 2]);
    match m.entry(None) { Entry::Occupied(mut o) => assert_eq!(o.insert([3, 4]), [1, 2]), _ => panic!() }
    assert_eq!(m.get(None), Some(&[3, 4]));
}
'''),
 dict(id="c08-bitset-remove", property="C08",
  edits=[(U, '''                let mask = to_bits(value);
                let update = self.data & !mask;
                #mem::replace(&mut self.data, update) & mask != 0''', '''                let mask = to_bits(value);
                let update = self.data & !mask;
                #mem::replace(&mut self.data, update) > update | (mask >> 1)''')],
  needs="a bitset set where the removed value's predecessor in declaration order is stored too",
  breaks="remove returns true or false for the wrong reasons when a neighbouring value is stored",
  main='''#![allow(dead_code)]
use fixed_map::{Key, Set};
#[derive(Clone, Copy, Key)]
#[key(bitset)]
enum B { A, B, C, D }
fn main() {
    for bits in 0..16u8 {
        for (n, v) in [B::A, B::B, B::C, B::D].into_iter().enumerate() {
            let mut s: Set<B> = Set::new();
            for (k, w) in [B::A, B::B, B::C, B::D].into_iter().enumerate() { if bits & (1 << k) != 0 { s.insert(w); } }
            assert_eq!(s.remove(v), bits & (1 << n) != 0);
        }
    }
}
'''),
 dict(id="c09-composite-set-len", property="C09",
  edits=[(A, "Kind::Complex(Complex { as_set_storage, .. }) => quote!(#as_set_storage::len(&self.#name))", "Kind::Complex(Complex { as_set_storage, .. }) => quote!({ let all = #as_set_storage::iter(&self.#name); all.size_hint().1.unwrap_or(0) })")],
  needs="a set over a composite key whose payload's iterator has an inexact size hint (a derived or Option payload) and is not full",
  breaks="len() counts the universe of the payload instead of what is stored",
  main=PRE+'''fn main() {
    let mut s: Set<Mix> = Set::new();
    assert_eq!(s.len(), 0);
    s.insert(Mix::S(Some(U::B)));
    assert_eq!(s.len(), 1);
}
'''),
 dict(id="c10-bool-set-back", property="C10",
  edits=[("src/set/storage/boolean.rs", '''    fn next_back(&mut self) -> Option<Self::Item> {
        if self.bits & FALSE_BIT != 0 {
            self.bits &= !FALSE_BIT;
            return Some(false);
        }
''', '''    fn next_back(&mut self) -> Option<Self::Item> {
        if self.bits & FALSE_BIT != 0 {
            self.bits ^= TRUE_BIT & (self.bits << 1) ^ self.bits;
            return Some(false);
        }
''')],
  needs="iterating a set of booleans that holds only false from the back, twice",
  breaks="iterating backwards leaves a value behind or repeats one",
  main=PRE+'''fn main() {
    for b in 0..4 {
        let mut s: Set<bool> = Set::new();
        if b & 1 != 0 { s.insert(true); }
        if b & 2 != 0 { s.insert(false); }
        let mut f: Vec<_> = s.iter().collect();
        f.reverse();
        assert_eq!(s.iter().rev().take(5).collect::<Vec<_>>(), f);
    }
}
'''),
 dict(id="c11-composite-set-retain", property="C11",
  edits=[("src/set/storage/boolean.rs", '''        if test(self.bits, true) && !f(true) {
            self.bits &= !TRUE_BIT;
        }
''', '''        let all = self.bits;
        if test(self.bits, true) && !f(true) {
            self.bits &= !TRUE_BIT & FALSE_BIT;
        }
        if all == (TRUE_BIT | FALSE_BIT) && self.bits == 0 {
            return;
        }
'''), ("src/set/storage/boolean.rs", '''            self.bits &= !FALSE_BIT;
        }
    }
''', '''            self.bits = if self.bits == all { 0 } else { self.bits & !FALSE_BIT };
        }
    }
''')],
  needs="a set holding both booleans, keeping true and rejecting false",
  breaks="true is dropped too although the predicate accepted it",
  main=PRE+'''fn main() {
    let mut s: Set<bool> = Set::from([true, false]);
    s.retain(|b| b);
    assert!(s.contains(true));
    assert!(!s.contains(false));
    s.insert(false);
    s.retain(|b| !b);
    assert!(!s.contains(true));
    assert!(s.contains(false));
}
'''),
 dict(id="c13-intersection-fold", property="C13",
  edits=[("src/set/intersection.rs", '''        self.iter.fold(init, |acc, elt| {
            if self.other.contains(elt) {
                f(acc, elt)
            } else {
                acc
            }
        })''', '''        let mut run = true;
        self.iter.fold(init, |acc, elt| {
            run = run && self.other.contains(elt) || self.other.len() > 2 && self.other.contains(elt);
            if run {
                f(acc, elt)
            } else {
                acc
            }
        })''')],
  needs="folding (for_each, count, ...) an intersection whose other set has at most two values, the first common value coming after one that is not common",
  breaks="internal iteration stops at the first value that is not common",
  main=PRE+'''fn main() {
    let a: Set<U> = Set::from([U::A, U::B, U::C]);
    let b: Set<U> = Set::from([U::A, U::C]);
    let mut n = 0;
    a.intersection(&b).for_each(|_| n += 1);
    assert_eq!(n, 2);
    assert_eq!(a.intersection(&b).count(), 2);
}
'''),
 dict(id="c14-composite-eq", property="C14",
  edits=[("src/map/storage/option.rs", "self.none == other.none && self.some == other.some", "if self.none.is_none() || other.none.is_none() {\n            return self.some == other.some && self.len() == other.len() || self.some == other.some && self.is_empty();\n        }\n        self.none == other.none && self.some == other.some")],
  needs="two maps keyed by Option<K>, one empty and one holding only None",
  breaks="an empty map equals a map that holds only None (from one side)",
  main=PRE+'''fn main() {
    let a: Map<Option<bool>, u8> = Map::new();
    let mut b: Map<Option<bool>, u8> = Map::new();
    b.insert(None, 1);
    assert!(a != b);
    assert!(b != a);
}
'''),
 dict(id="c15-ord-bool", property="C15",
  edits=[("src/macro_support.rs", '''    let a = a.into_iter().enumerate().filter_map(flatten);
    let b = b.into_iter().enumerate().filter_map(flatten);
    a.cmp(b)''', '''    let a = a.into_iter().flatten();
    let b = b.into_iter().flatten();
    a.cmp(b)''')],
  needs="two maps over a unit enum with the same values under different keys",
  breaks="the total order ignores the keys: cmp gives Equal for unequal maps and disagrees with partial_cmp",
  main=PRE+'''fn main() {
    let mut a: Map<U, u8> = Map::new();
    let mut b: Map<U, u8> = Map::new();
    a.insert(U::A, 1);
    b.insert(U::B, 1);
    assert_eq!(a.cmp(&b), std::cmp::Ordering::Less);
    assert_eq!(Some(a.cmp(&b)), a.partial_cmp(&b));
}
'''),
 dict(id="c16-iter-clone", property="C04",
  edits=[(A, '''        impl<#lt, V> #clone_t for #type_name<#lt, V> where V: #lt {
            #[inline]
            fn clone(&self) -> Self {
                Self {
                    start: self.start,
                    end: self.end,''', '''        impl<#lt, V> #clone_t for #type_name<#lt, V> where V: #lt {
            #[inline]
            fn clone(&self) -> Self {
                Self {
                    start: self.start,
                    end: #count - self.start,''')], multi=True,
  needs="", breaks="", main="") if False else
 dict(id="c16-option-clone", property="C16",
  edits=[("src/map/storage/option.rs", "            some: self.some.clone(),\n            none: self.none.clone(),", "            some: self.some.clone(),\n            none: if self.some.is_empty() { None } else { self.none.clone() },")],
  needs="cloning a map keyed by Option<K> that holds only None",
  breaks="the clone of a map holding only None is empty",
  main=PRE+'''fn main() {
    let mut a: Map<Option<bool>, String> = Map::new();
    a.insert(None, "x".to_string());
    let b = a.clone();
    assert_eq!(b.get(None).map(|s| s.as_str()), Some("x"));
}
'''),
 dict(id="c17-collect-hint", property="C17",
  edits=[("src/set.rs", '''        for value in iter {
            set.insert(value);
        }
''', '''        let mut dup = 0usize;
        for value in iter {
            if !set.insert(value) {
                dup += 1;
                if dup > 1 {
                    break;
                }
            }
        }
''')],
  needs="collecting a sequence with two repeats followed by a new value",
  breaks="values after the second repeat are never inserted nor consumed",
  main=PRE+'''fn main() {
    let s: Set<U> = [U::A, U::A, U::A, U::B].into_iter().collect();
    assert!(s.contains(U::B));
}
'''),
 dict(id="c18-serde-dup", property="C18",
  edits=[("src/map.rs", '''                while let Some((key, value)) = visitor.next_entry()? {
                    map.insert(key, value);
                }''', '''                while let Ok(Some((key, value))) = visitor.next_entry() {
                    map.insert(key, value);
                }''')],
  needs="input that breaks off or is malformed part way",
  breaks="an error in the input is swallowed and a truncated map is returned",
  features=', features = ["serde"]', deps='serde = { version = "1", features = ["derive"] }\nserde_json = "1"',
  main='''use fixed_map::{Key, Map};
#[derive(Clone, Copy, Key, serde::Serialize, serde::Deserialize)]
enum U { A, B }
fn main() {
    let m: Map<U, u8> = serde_json::from_str(r#"{"A":1,"B":2}"#).unwrap();
    assert_eq!(m.len(), 2);
    let m: Result<Map<U, u8>, _> = serde_json::from_str(r#"{"A":1,"B":x}"#);
    assert!(m.is_err());
    let m: Result<Map<U, u8>, _> = serde_json::from_value(serde_json::json!({"A":1,"Z":2}));
    assert!(m.is_err());
}
'''),
 dict(id="c19-debug-list", property="C19",
  edits=[("src/map.rs", "f.debug_map().entries(self.iter()).finish()", "let mut map = f.debug_map();\n        let mut at = self.keys();\n        for value in self.values() {\n            if let Some(key) = at.next() {\n                map.entry(&key, value);\n            }\n        }\n        let _ = map.finish();\n        Ok(())")],
  needs="a formatter or value that fails",
  breaks="an error of the output or of a value's formatting is reported as success",
  main='''use fixed_map::{Key, Map};
use std::fmt::Write;
#[derive(Debug, Clone, Copy, Key)]
enum U { A }
struct Full;
impl Write for Full { fn write_str(&mut self, _: &str) -> std::fmt::Result { Err(std::fmt::Error) } }
fn main() {
    let mut m: Map<U, u8> = Map::new();
    m.insert(U::A, 1);
    assert_eq!(format!("{m:?}"), "{A: 1}");
    assert!(write!(Full, "{m:?}").is_err());
}
'''),
 dict(id="c20-option-clear", property="C20",
  edits=[("src/map/storage/option.rs", '''            if !func(None, none) {
                self.none = None;
            }''', '''            if !func(None, none) {
                core::mem::forget(self.none.take());
            }''')],
  needs="rejecting None in retain, with a value that owns something",
  breaks="the rejected value is never dropped",
  main=PRE+'''use std::rc::Rc;
fn main() {
    let r = Rc::new(());
    let mut m: Map<Option<bool>, Rc<()>> = Map::new();
    m.insert(None, r.clone());
    m.insert(Some(true), r.clone());
    m.retain(|_, _| false);
    assert_eq!(Rc::strong_count(&r), 1);
}
'''),
]
SEEDS = [s for s in SEEDS if s]
