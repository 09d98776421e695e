"""Witness programs made from a table: every key type of a corpus crossed with
what has to hold (or must be rejected) for it."""
import os, re, subprocess
import wit
from engine import Fatal, TARGET, V
from wit import ALL_FEATS, Prog

SERDE = """
macro_rules! ser { ($($n:ident)*) => {$(
    impl serde::Serialize for $n { fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> { s.serialize_u32(0) } }
    impl<'de> serde::Deserialize<'de> for $n { fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> { let _ = <u32 as serde::Deserialize>::deserialize(d)?; Err(serde::de::Error::custom("no")) } }
)*} }
"""
ENUMS = {
    "U0": "pub enum U0 {}",
    "U1": "pub enum U1 { A }",
    "U3": "pub enum U3 { A, B, C }",
    "U9": "pub enum U9 { A, B, C, D, E, F, G, H, I }",
    "B0": "#[key(bitset)] pub enum B0 {}",
    "B3": "#[key(bitset)] pub enum B3 { A, B, C }",
    "B9": "#[key(bitset)] pub enum B9 { A, B, C, D, E, F, G, H, I }",
    "Solo": "pub enum Solo { A(U3) }",
    "Twice": "pub enum Twice { A(bool), B, C(bool) }",
    "Mix": "pub enum Mix { A, B(bool), C(U3), D(Option<bool>), E(()), F(Twice), G(Option<Option<U1>>) }",
    "Deep": "pub enum Deep { A(Solo), B(Mix), C(U0) }",
    "BitIn": "pub enum BitIn { A(B3), B, C(Option<B9>) }",
    "Hash": "pub enum Hash { A(u32), B }",
    "HashIn": "pub enum HashIn { A(Hash), B(Option<char>), C(bool) }",
    "HashAll": "pub enum HashAll { A(char), B(u8), C(u32), D(u64), E(u128), F(usize), G(i8), H(i32), I(i64), J(i128), K(isize), L(&'static str), M(&'static [u8]), N(Option<&'static str>), O(Option<Option<u64>>) }",
}
PRIMS = "char u8 u32 u64 u128 usize i8 i32 i64 i128 isize &'static_str &'static_[u8]".replace(" ", "\n").replace("_", " ").split("\n")
UNIT = ["U0", "U1", "U3", "U9"]
BITS = ["B0", "B3", "B9"]
FIXED = ["()", "bool"] + UNIT + BITS + ["Solo", "Twice", "Mix", "Deep", "BitIn"]
HASHED = ["Hash", "HashIn", "HashAll"]
EMPTY = {"U0", "B0"}


def opts(l):
    return ["Option<%s>" % k for k in l]


def prelude(serde=False, hashed=True):
    s = "#![allow(dead_code, unused)]\nuse fixed_map::{map, set, Key, Map, Set};\n"
    names = [n for n in ENUMS if hashed or n not in HASHED]
    for n in names:
        s += "#[derive(Clone, Copy, Debug, Key)] %s\n" % ENUMS[n]
    if serde:
        s += SERDE + "ser! { %s }\n" % " ".join(names)
    return s


# one key of each type, for programs which need a value
KEYS = {"()": "()", "bool": "true", "U3": "U3::B", "U9": "U9::I", "B3": "B3::C", "Solo": "Solo::A(U3::A)", "Twice": "Twice::C(true)", "Mix": "Mix::D(Some(true))", "Deep": "Deep::B(Mix::A)",
        "BitIn": "BitIn::C(None)", "Option<bool>": "None", "Option<U3>": "Some(U3::A)", "Option<Mix>": "Some(Mix::C(U3::A))", "Option<Option<U3>>": "Some(None)",
        "u32": "7", "&'static str": "\"x\"", "Hash": "Hash::A(3)", "HashIn": "HashIn::A(Hash::B)", "Option<Hash>": "Some(Hash::B)"}


# -- C24 -----------------------------------------------------------------------
def c24():
    r = []
    t = "#![allow(dead_code)]\nuse fixed_map::Key;\n"
    for n in [129, 130, 160, 200, 255, 256, 257, 300, 1000]:
        t += "#[derive(Clone, Copy, Key)] #[key(bitset)] enum E%d { %s } //~ *\n" % (n, ", ".join("V%d" % i for i in range(n)))
    r.append(Prog("c24/bitset_limit", t))
    t = "#![allow(dead_code)]\nuse fixed_map::Key;\n"
    for n in [0, 1, 2, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128]:
        t += "#[derive(Clone, Copy, Key)] #[key(bitset)] enum E%d { %s }\n" % (n, ", ".join("V%d" % i for i in range(n)))
    for n in [0, 1, 127, 128, 129, 255, 256, 257, 300]:
        t += "#[derive(Clone, Copy, Key)] enum F%d { %s }\n" % (n, ", ".join("V%d" % i for i in range(n)))
        t += "#[derive(Clone, Copy, Key)] enum G%d { %s }\n" % (n, ", ".join("V%d%s" % (i, "" if i % 3 else "(bool)") for i in range(n))) if n < 140 else ""
    r.append(Prog("c24/supported", t))
    return r


# -- C26 -----------------------------------------------------------------------
VALUES = ["()", "bool", "u8", "u16", "u32", "u64", "u128", "usize", "f64", "char", "Option<bool>", "Option<u8>", "Option<u32>", "Option<Option<bool>>", "[u8; 3]", "[u8; 7]", "[u16; 5]",
          "[u64; 33]", "&'static u8", "&'static str", "fn()", "Box<u8>", "Box<dyn Fn()>", "String", "Vec<u8>", "NonZero", "Ordering", "Infallible", "Result<u8, u16>", "(u8, u32)", "(u64, u8, u16)",
          "Align16", "Align64", "Niche", "Map<bool, u8>", "Map<bool, Box<u8>>", "Set<bool>", "core::mem::ManuallyDrop<String>", "core::mem::MaybeUninit<u8>", "core::cell::Cell<u8>"]


def c26():
    return c26_with("full", True) + c26_with("core", False)


def c26_with(lib, hashed):
    tag = "" if lib == "full" else "@" + lib
    pre = "#![allow(dead_code, unused)]\nuse fixed_map::{Key, Map, Set};\nuse core::{cmp::Ordering, convert::Infallible, mem::{align_of, size_of}, num::NonZeroU32 as NonZero};\n"
    pre += "#[repr(align(16))] struct Align16(u8);\n#[repr(align(64))] struct Align64(u8);\nenum Niche { A(bool), B, C }\n"
    pre += "const fn same<A, B>() { assert!(size_of::<A>() == size_of::<B>()); assert!(align_of::<A>() == align_of::<B>()); }\n"
    pre += "const fn within<A, B>() { assert!(size_of::<A>() <= size_of::<B>()); assert!(align_of::<A>() <= align_of::<B>()); }\n"
    r = []
    sizes = list(range(0, 13)) + [15, 16, 17, 24, 31, 32, 33, 48, 63, 64, 65, 100, 127, 128, 129, 200, 255, 256, 257]
    for n in sizes:
        vs = ", ".join("V%d" % i for i in range(n))
        t = pre + "#[derive(Clone, Copy, Key)] enum U { %s }\n" % vs
        t += "const _: () = same::<Set<U>, [u8; %d]>();\n" % n
        for v in VALUES:
            t += "const _: () = same::<Map<U, %s>, [Option<%s>; %d]>();\n" % (v, v, n)
        if n <= 128:
            w = 8 if n <= 8 else 16 if n <= 16 else 32 if n <= 32 else 64 if n <= 64 else 128
            t += "#[derive(Clone, Copy, Key)] #[key(bitset)] enum B { %s }\n" % vs
            t += "const _: () = same::<Set<B>, u%d>();\n" % w
            for v in VALUES[:8]:
                t += "const _: () = same::<Map<B, %s>, [Option<%s>; %d]>();\n" % (v, v, n)
        r.append(Prog("c26/unit%d%s" % (n, tag), t, lib))
    # bool, Option, () and derived keys inside of them
    counts = {"()": 1, "bool": 2, "Option<bool>": 3, "Option<()>": 2, "Option<Option<bool>>": 4, "U3": 3, "Option<U3>": 4, "Option<Option<Option<U3>>>": 6, "Option<B9>": 10, "Option<U0>": 1, "Option<Option<U0>>": 2}
    t = pre + "".join("#[derive(Clone, Copy, Key)] %s\n" % ENUMS[n] for n in ["U0", "U3", "B9"])
    for k, n in counts.items():
        for v in VALUES:
            t += "const _: () = same::<Map<%s, %s>, [Option<%s>; %d]>();\n" % (k, v, v, n)
        if k.startswith("Option"):
            t += "const _: () = within::<Set<%s>, (Set<%s>, bool)>();\n" % (k, k[7:-1])
        else:
            t += "const _: () = within::<Set<%s>, [bool; %d]>();\n" % (k, n)
    r.append(Prog("c26/nested" + tag, t, lib))
    # composite keys against their parts side by side
    comps = {"Solo": ["U3"], "Twice": ["bool", None, "bool"], "Mix": [None, "bool", "U3", "Option<bool>", "()", "Twice", "Option<Option<U1>>"], "Deep": ["Solo", "Mix", "U0"],
             "BitIn": ["B3", None, "Option<B9>"], "W0": [None, "B9", None], "W1": ["B9", None, "B3", None, "B9"], "W2": [None] * 3 + ["U9"] * 3 + [None] * 3,
             "W3": ["W0", "W1", None, "Option<W0>"], "W4": ["Hash", None, "u32"], "Hash": ["u32", None]}
    if not hashed:
        del comps["W4"], comps["Hash"]
    decl = "".join("#[derive(Clone, Copy, Key)] %s\n" % ENUMS[n] for n in ENUMS if n not in ("HashIn", "HashAll") and (hashed or n != "Hash"))
    for n in [n for n in comps if n[0] == "W"]:
        decl += "#[derive(Clone, Copy, Key)] enum %s { %s }\n" % (n, ", ".join("V%d%s" % (i, "(%s)" % p if p else "") for i, p in enumerate(comps[n])))
    t = pre + decl
    for n, parts in comps.items():
        t += "struct M%s<V>(%s, core::marker::PhantomData<V>);\n" % (n, ", ".join("Map<%s, V>" % p if p else "Option<V>" for p in parts))
        t += "struct S%s(%s);\n" % (n, ", ".join("Set<%s>" % p if p else "bool" for p in parts))
        for v in VALUES:
            t += "const _: () = within::<Map<%s, %s>, M%s<%s>>();\n" % (n, v, n, v)
        t += "const _: () = within::<Set<%s>, S%s>();\n" % (n, n)
    r.append(Prog("c26/composite" + tag, t, lib))
    return r


# -- C23 -----------------------------------------------------------------------
def c23():
    r = []
    pre = prelude(hashed=False).replace("#![allow", "#![no_std]\n#![allow", 1)
    copy = "fn copy<T: Copy>() {}\nfn data<T: 'static>() {}\n"
    for lib in ("core", "full", "serde", "std"):
        t = pre + copy
        for i, k in enumerate(FIXED + opts(FIXED) + opts(opts(["bool", "U3", "Mix"]))):
            # proved for every value type at once
            t += "fn m%d<V: Copy>() { copy::<Map<%s, V>>(); }\nfn s%d() { copy::<Set<%s>>(); }\n" % (i, k, i, k)
            for v in ("u8", "[u64; 4]", "&'static str", "Option<u32>"):
                t += "const _: () = assert!(!core::mem::needs_drop::<Map<%s, %s>>());\n" % (k, v)
            t += "const _: () = assert!(!core::mem::needs_drop::<Set<%s>>());\n" % k
        r.append(Prog("c23/plain_data_" + lib, t, lib))
    # the containers work without anything but core
    t = pre
    for i, (k, e) in enumerate(KEYS.items()):
        if "u32" in k or "str" in k or "Hash" in k:
            continue
        t += USE % {"i": i, "k": k, "e": e}
    r.append(Prog("c23/uses_core", t, "core"))
    # hashed keys are not offered without hashing
    t = pre + "fn key<K: Key>() {}\n"
    for i, k in enumerate(PRIMS):
        t += "fn h%d() { key::<%s>() } //~ E0277\n" % (i, k)
    r.append(Prog("c23/no_hashing", t, "core"))
    r.append(Prog("c23/no_hashing_std", t, "std"))
    return r


USE = """
fn use%(i)d<V: Clone>(v: V) -> usize {
    use map::{OccupiedEntry as O, VacantEntry as A};
    let k: %(k)s = %(e)s;
    let mut m: Map<%(k)s, V> = Map::new();
    let _ = m.insert(k, v.clone());
    let _ = (m.contains_key(k), m.get(k).is_some(), m.get_mut(k).is_some(), m.len(), m.is_empty());
    match m.entry(k) {
        map::Entry::Occupied(mut e) => { let _ = O::<%(k)s, V>::key(&e); let _ = O::<%(k)s, V>::get(&e); let _ = O::<%(k)s, V>::get_mut(&mut e); let _ = O::<%(k)s, V>::insert(&mut e, v.clone()); let _ = O::<%(k)s, V>::remove(e); }
        map::Entry::Vacant(e) => { let _ = A::<%(k)s, V>::key(&e); let _ = A::<%(k)s, V>::insert(e, v.clone()); }
    }
    let _ = m.entry(k).or_insert(v.clone());
    let _ = m.entry(k).or_insert_with(|| v.clone());
    let _ = m.entry(k).or_insert_with_key(|_| v.clone());
    let _ = m.entry(k).and_modify(|x| *x = v.clone()).key();
    m.retain(|_, _| true);
    let n = m.iter().count() + m.keys().count() + m.values().count() + m.iter_mut().count() + m.values_mut().count();
    for (_, _) in &m {}
    for (_, _) in &mut m {}
    let c = m.clone();
    let _ = m.remove(k);
    m.clear();
    let mut m: Map<%(k)s, V> = c.into_iter().collect();
    m = Map::default();
    let mut s: Set<%(k)s> = Set::new();
    let _ = (s.insert(k), s.contains(k), s.len(), s.is_empty());
    s.retain(|_| true);
    let n = n + s.iter().count() + s.intersection(&s).count();
    for _ in &s {}
    let t = s.clone();
    let _ = s == t;
    let _ = s.remove(k);
    s.clear();
    let s: Set<%(k)s> = t.into_iter().collect();
    let s: Set<%(k)s> = Set::from([k]);
    let s: Set<%(k)s> = Set::default();
    n
}
fn eq%(i)d<V: PartialEq>(a: &Map<%(k)s, V>, b: &Map<%(k)s, V>) -> bool { a == b }
"""


# -- C27 -----------------------------------------------------------------------
TPL = """
    // %(k)s
"""


def c27():
    return [p for lib, hashed in (("full", True), ("core", False), ("hash", True)) for p in c27_with(lib, hashed)]


def c27_with(lib, hashed):
    r = []
    tag = "" if lib == "full" else "@" + lib
    pre = prelude(hashed=hashed)
    pre += "fn send<T: Send>() {}\nfn sync<T: Sync>() {}\nuse std::{rc::Rc, cell::Cell, sync::MutexGuard};\n"
    keys = FIXED + opts(FIXED) + ((HASHED + opts(HASHED) + PRIMS + opts(PRIMS)) if hashed else [])
    t = pre
    occ = "<<%s as Key>::MapStorage<V> as map::MapStorage<%s, V>>::%s<'a>"
    for i, k in enumerate(keys):
        f = lambda n: n % {"k": k, "o": occ % (k, k, "Occupied"), "v": occ % (k, k, "Vacant")}
        t += f("fn a%d" % i + "<'a, V: Send + 'a>() { send::<Map<%(k)s, V>>(); send::<map::IterMut<'a, %(k)s, V>>(); send::<map::ValuesMut<'a, %(k)s, V>>(); send::<map::IntoIter<%(k)s, V>>(); send::<&'a mut Map<%(k)s, V>>(); send::<%(o)s>(); send::<%(v)s>(); send::<map::Entry<'a, <%(k)s as Key>::MapStorage<V>, %(k)s, V>>(); }\n")
        t += f("fn b%d" % i + "<'a, V: Sync + 'a>() { sync::<Map<%(k)s, V>>(); sync::<map::Iter<'a, %(k)s, V>>(); send::<map::Iter<'a, %(k)s, V>>(); sync::<map::Values<'a, %(k)s, V>>(); send::<map::Values<'a, %(k)s, V>>(); sync::<map::Keys<'a, %(k)s, V>>(); send::<map::Keys<'a, %(k)s, V>>(); sync::<map::IterMut<'a, %(k)s, V>>(); sync::<map::ValuesMut<'a, %(k)s, V>>(); sync::<map::IntoIter<%(k)s, V>>(); send::<&'a Map<%(k)s, V>>(); sync::<%(o)s>(); sync::<%(v)s>(); }\n")
        t += f("fn s%d" % i + "<'a>() { send::<Set<%(k)s>>(); sync::<Set<%(k)s>>(); send::<set::Iter<'a, %(k)s>>(); sync::<set::Iter<'a, %(k)s>>(); send::<set::IntoIter<%(k)s>>(); sync::<set::IntoIter<%(k)s>>(); send::<set::Intersection<'a, %(k)s>>(); sync::<set::Intersection<'a, %(k)s>>(); }\n")
    r.append(Prog("c27/auto_traits" + tag, t, lib))
    # ... and only then
    t = pre
    neg = [k for k in keys if k not in EMPTY]
    for i, k in enumerate(["bool", "()", "U1", "U3", "U9", "B3", "Solo", "Twice", "Mix", "Deep", "BitIn", "Option<bool>", "Option<U3>", "Option<Mix>"] + ["u32", "&'static str", "Hash", "HashIn", "Option<Hash>"] * hashed):
        for j, (what, ty) in enumerate([
            ("send", "Map<%s, Rc<u8>>"), ("send", "map::IterMut<'static, %s, Rc<u8>>"), ("send", "map::ValuesMut<'static, %s, Rc<u8>>"), ("send", "map::IntoIter<%s, Rc<u8>>"),
            ("send", "map::Iter<'static, %s, Cell<u8>>"), ("send", "map::Values<'static, %s, Cell<u8>>"), ("send", "&'static Map<%s, Cell<u8>>"),
            ("sync", "Map<%s, Cell<u8>>"), ("sync", "map::Iter<'static, %s, Cell<u8>>"), ("sync", "map::Values<'static, %s, Cell<u8>>"), ("sync", "map::IterMut<'static, %s, Cell<u8>>"),
            ("sync", "map::ValuesMut<'static, %s, Cell<u8>>"), ("sync", "map::IntoIter<%s, Cell<u8>>"),
            ("send", "Map<%s, MutexGuard<'static, u8>>"), ("send", "map::IterMut<'static, %s, MutexGuard<'static, u8>>"), ("send", "map::IntoIter<%s, MutexGuard<'static, u8>>"),
            ("send", "<<%s as Key>::MapStorage<Rc<u8>> as map::MapStorage<%s, Rc<u8>>>::Occupied<'static>"),
            ("sync", "<<%s as Key>::MapStorage<Cell<u8>> as map::MapStorage<%s, Cell<u8>>>::Occupied<'static>"),
            ("send", "map::Entry<'static, <%s as Key>::MapStorage<Rc<u8>>, %s, Rc<u8>>"),
        ]):
            t += "fn n%d_%d() { %s::<%s>() } //~ E0277\n" % (i, j, what, ty.replace("%s", k))
    r.append(Prog("c27/not_auto_traits" + tag, t, lib))
    # what is borrowed stays borrowed: the templates, once per key type
    d = V + "/wit/c27"
    for f in sorted(os.listdir(d)):
        with open(d + "/" + f) as h:
            body = "".join(l for l in h if not l.startswith("//!"))
        if "KEY" not in body:
            if lib == "full":
                r.append(Prog("c27/" + f, body))
            continue
        for k in KEYS if lib == "full" else ["bool", "U3", "B3", "Mix", "Option<bool>"] if lib == "core" else ["u32", "Hash"]:
            if "//@ hashed: only" in body and k not in ("u32", "&'static str", "Hash", "HashIn", "Option<Hash>"):
                continue  # the other sets are iterated by value
            r.append(Prog("c27/%s/%s%s" % (f, k, tag), prelude(hashed=hashed).rstrip("\n").replace("\n", " ", 1) + "\n" + body.replace("KEY", k).replace("A_VALUE", KEYS[k]), lib))
    return r


# -- C28 -----------------------------------------------------------------------
def c28():
    return [p for lib, hashed, serde in ALL_FEATS for p in c28_with(lib, hashed, serde)]


def c28_with(lib, hashed, serde):
    r = []
    pre = prelude(serde, hashed)
    pre = pre.replace("#![allow", "#![no_std]\n#![allow", 1) if "std" not in lib and lib != "full" else pre
    keys = FIXED + opts(FIXED) + opts(opts(FIXED))
    if hashed:
        keys += HASHED + opts(HASHED) + PRIMS + opts(PRIMS) + opts(opts(PRIMS))
    tag = "" if lib == "full" else "@" + lib
    t = pre + "fn key<K: Key>() {}\n"
    for i, k in enumerate(keys):
        t += "fn k%d() { key::<%s>(); }\n" % (i, k)
        t += "#[derive(Clone, Copy, Key)] enum InSolo%d { A(%s) }\n#[derive(Clone, Copy, Key)] enum InPair%d { A, B(%s), C(Option<%s>), D(%s) }\n#[derive(Clone, Copy, Key)] enum InDeep%d { A(InPair%d), B(Option<InSolo%d>) }\n" % (i, k, i, k, k, k, i, i, i)
        t += "fn d%d() { key::<InSolo%d>(); key::<InPair%d>(); key::<InDeep%d>(); key::<Option<InDeep%d>>(); }\n" % (i, i, i, i, i)
        if i % 8 == 7 or i == len(keys) - 1:
            r.append(Prog("c28/keys%d%s" % ((i // 8), tag), t, lib))
            t = pre + "fn key<K: Key>() {}\n"
    t = pre
    some = [(k, e) for k, e in KEYS.items() if hashed or not ("u32" in k or "str" in k or "Hash" in k)]
    for i, (k, e) in enumerate(some):
        t += USE % {"i": i, "k": k, "e": e}
        if i % 5 == 4 or i == len(some) - 1:
            r.append(Prog("c28/operations%d%s" % ((i // 5), tag), t, lib))
            t = pre
    # Which traits are there, proved for every value type at once.
    t = pre + "use core::fmt::Debug;\n"
    for tr in ("Clone", "Copy", "PartialEq", "Eq", "core::hash::Hash", "PartialOrd", "Ord", "Debug", "Default", "DoubleEndedIterator") + ("serde::Serialize",) * serde:
        t += "fn has_%s<T: %s>() {}\n" % (tr.split("::")[-1].lower(), tr)
    t += "fn collects<K: Key, V, T: FromIterator<(K, V)> + IntoIterator<Item = (K, V)> + Default>() {}\nfn set_collects<K: Key, T: FromIterator<K> + IntoIterator<Item = K> + Default>() {}\n"
    t += ("fn de<'de, T: serde::Deserialize<'de>>() {}\n" if serde else "") + "fn items<I, T: Iterator<Item = I>>() {}\nfn raw<K: Key>() where K::SetStorage: fixed_map::raw::RawStorage {}\n"
    fixed = FIXED + opts(FIXED) + opts(opts(FIXED))
    ser = [k for k in keys if serde and "[u8]" not in k]
    head, part = t, 0
    for i, k in enumerate(keys):
        if i and i % 12 == 0:
            r.append(Prog("c28/traits%d%s" % (part, tag), t, lib))
            t, part = head, part + 1
        m, s = "Map<%s, V>" % k, "Set<%s>" % k
        p = [("V: Clone", ["has_clone::<%s>()" % m]), ("V: PartialEq", ["has_partialeq::<%s>()" % m]), ("V: Eq", ["has_eq::<%s>()" % m]), ("V: Debug", ["has_debug::<%s>()" % m]),
             ("V", ["has_default::<%s>()" % m, "collects::<%s, V, %s>()" % (k, m), "items::<(%s, V), map::IntoIter<%s, V>>()" % (k, k)]),
             ("'a, V: 'a", ["has_clone::<map::%s<'a, %s, V>>()" % (x, k) for x in ("Iter", "Keys", "Values")] + [
                 "items::<(%s, &'a V), map::Iter<'a, %s, V>>()" % (k, k), "items::<(%s, &'a mut V), map::IterMut<'a, %s, V>>()" % (k, k), "items::<%s, map::Keys<'a, %s, V>>()" % (k, k),
                 "items::<&'a V, map::Values<'a, %s, V>>()" % k, "items::<&'a mut V, map::ValuesMut<'a, %s, V>>()" % k]),
             ("'a", ["has_clone::<%s>()" % s, "has_partialeq::<%s>()" % s, "has_eq::<%s>()" % s, "has_debug::<%s>()" % s, "has_default::<%s>()" % s, "set_collects::<%s, %s>()" % (k, s),
                     "has_clone::<set::Iter<'a, %s>>()" % k, "has_clone::<set::Intersection<'a, %s>>()" % k, "items::<%s, set::Iter<'a, %s>>()" % (k, k), "items::<%s, set::IntoIter<%s>>()" % (k, k),
                     "items::<%s, set::Intersection<'a, %s>>()" % (k, k), "has_debug::<set::Intersection<'a, %s>>()" % k])]
        if k in fixed:
            p += [("V: Copy", ["has_copy::<%s>()" % m]), ("V: Clone", ["has_clone::<map::IntoIter<%s, V>>()" % k]),
                  ("'a, V: 'a", ["has_doubleendediterator::<map::%s<'a, %s, V>>()" % (x, k) for x in ("Iter", "Keys", "Values", "IterMut", "ValuesMut")] + ["has_doubleendediterator::<map::IntoIter<%s, V>>()" % k]),
                  ("'a", ["has_copy::<%s>()" % s, "has_doubleendediterator::<set::Iter<'a, %s>>()" % k, "has_doubleendediterator::<set::IntoIter<%s>>()" % k])]
        if k in UNIT + BITS:
            p += [("V: core::hash::Hash", ["has_hash::<%s>()" % m]), ("V: PartialOrd", ["has_partialord::<%s>()" % m]), ("V: Ord", ["has_ord::<%s>()" % m]),
                  ("'a", ["has_hash::<%s>()" % s, "has_partialord::<%s>()" % s, "has_ord::<%s>()" % s])]
        if k in BITS + ["bool"]:
            p += [("'a", ["raw::<%s>()" % k])] if k in BITS else []
        if k in ser:
            p += [("V: serde::Serialize", ["has_serialize::<%s>()" % m]), ("'a", ["has_serialize::<%s>()" % s])]
            if "str" not in k:
                p += [("'de, V: serde::Deserialize<'de>", ["de::<'de, %s>()" % m]), ("'de", ["de::<'de, %s>()" % s])]
        for j, (g, calls) in enumerate(p):
            t += "fn t%d_%d<%s>() { %s; }\n" % (i, j, g, "; ".join(calls))
    r.append(Prog("c28/traits%d%s" % (part, tag), t, lib))
    # ... and which are not there because the values do not have them.
    t = pre + "struct No;\nuse core::fmt::Debug;\n"
    for tr in ("Clone", "Copy", "PartialEq", "Eq", "core::hash::Hash", "PartialOrd", "Ord", "Debug") + ("serde::Serialize",) * serde:
        t += "fn has_%s<T: %s>() {}\n" % (tr.split("::")[-1].lower(), tr)
    for i, k in enumerate(["()", "bool", "U3", "B3", "Mix", "Option<bool>", "Option<Mix>"] + ["u32", "Hash"] * hashed):
        for j, (tr, v) in enumerate([("clone", "No"), ("copy", "No"), ("copy", "String"), ("partialeq", "No"), ("eq", "f32"), ("debug", "No"), ("serialize", "No"), ("partialord", "No"), ("ord", "f32"), ("hash", "f32")]):
            if tr == "serialize" and not serde or v == "String" and "std" not in lib and lib != "full":
                continue
            t += "fn v%d_%d() { has_%s::<Map<%s, %s>>() } //~ E0277\n" % (i, j, tr, k, v)
    r.append(Prog("c28/values_decide" + tag, t, lib))
    return r


# -- C25 -----------------------------------------------------------------------
DERIVE = "#[derive(::core::clone::Clone, ::core::marker::Copy, ::fixed_map::Key)] "
ABS = [("Unit", "pub enum Unit { Ua, Ub, Uc }"), ("Bits", "#[key(bitset)] pub enum Bits { Ba, Bb, Bc }"), ("Wide", "#[key(bitset)] pub enum Wide { %s }" % ", ".join("W%d" % i for i in range(70))),
       ("Mixed", "pub enum Mixed { Ma, Mb(::core::primitive::bool), Mc(Unit), Md(()), Me(::core::option::Option<Unit>), Mf(Bits), Mg(::core::primitive::u32) }"),
       ("Fixed", "pub enum Fixed { Fa, Fb(::core::primitive::bool), Fc(Unit), Fd(()), Fe(::core::option::Option<Bits>) }"), ("One", "pub enum One { Oa(Unit) }"), ("Empty", "pub enum Empty {}"),
       ("NoBits", "#[key(bitset)] pub enum NoBits {}")]
KEYWORDS = set("as break const continue crate dyn else enum extern false fn for if impl in let loop match mod move mut pub ref return self Self static struct super trait true type unsafe use where while "
               "async await abstract become box do final macro override priv typeof unsized virtual yield try gen union auto default raw safe _".split())


def expansion():
    """What the derive makes of a sample of enums, as the compiler shows it."""
    lib = wit.Lib("full")
    if not lib.ok:
        return ""
    d = TARGET + "/wit"
    os.makedirs(d, exist_ok=True)
    src = "%s/expand.%d.rs" % (d, os.getpid())
    with open(src, "w") as f:
        f.write("#![no_std]\npub mod user {\n%s}\n" % "".join("    #[derive(::fixed_map::Key)] %s\n" % e for _, e in ABS))
    cmd = ["rustc", "--edition", "2021", "--crate-type", "lib", "--crate-name", "w", "-Zunpretty=expanded", src, "--extern", "fixed_map=" + lib.rmeta]
    for p in sorted(lib.deps):
        cmd += ["-L", "dependency=" + p]
    env = dict(os.environ, RUSTC_BOOTSTRAP="1")
    out = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env, timeout=300).stdout.decode("utf8", "replace")
    os.remove(src)
    return out


def c25():
    """Every name that occurs in the generated code is something else in the scope of the key."""
    text = re.sub(r'"(\\.|[^"\\])*"', "", re.sub(r"//[^\n]*|#!?\[[^\]]*\]", "", expansion()))
    mine = set(re.findall(r"\w+", " ".join(e for _, e in ABS)))
    names = sorted(n for n in set(re.findall(r"(?<!['\w])[A-Za-z_]\w*", text)) if n not in KEYWORDS and not n.startswith("__FixedMap") and (n not in mine or n in ("core", "option", "primitive", "bool", "Option", "u32")))
    names = [n for n in names if n not in ("fixed_map", "std", "alloc")]
    if "Unit" not in text or len(names) < 20:
        raise Fatal("the expansion of the derive was not seen")
    upper = [n for n in names if n[0].isupper()]
    lower = [n for n in names if n[0].islower()]
    enums = "".join("    %s%s\n" % (DERIVE, e) for _, e in ABS)
    head = "#![allow(warnings)]\npub mod scope {\n"
    r = []

    def put(name, decls):
        r.append(Prog("c25/names_" + name, head + "".join("    %s\n" % d for d in decls) + enums + "}\n"))
    values = ["pub const %s: ::core::primitive::i16 = 7;" % n for n in upper] + ["pub fn %s() -> ! { loop {} }" % n for n in lower]
    put("values", values)
    put("statics", ["pub static %s: ::core::primitive::i16 = 7;" % n for n in upper])
    put("functions", ["pub fn %s() -> ! { loop {} }" % n for n in names])
    # (`mod name` for every lower-case name would hide nothing that `::path` could find)
    put("types", ["pub struct %s { pub field: () }" % n for n in names])
    put("aliases", ["pub type %s = fn(&'static ::core::primitive::str) -> !;" % n for n in names])
    put("traits", ["pub trait %s { fn method(); }" % n for n in names])
    put("modules", ["pub mod %s {}" % n for n in names])
    put("both", ["pub mod %s {}" % n for n in names] + values)
    put("macros", ["macro_rules! %s { ($($t:tt)*) => { ::core::compile_error!(\"captured\"); } }" % n for n in lower if n not in BUILTIN])
    # as methods of everything, by value, by reference and by mutable reference
    t = "#![allow(warnings)]\npub mod methods {\n"
    for tr, arg in (("ByValue", "self"), ("ByRef", "&self"), ("ByMut", "&mut self")):
        t += "    pub trait %s { %s }\n    impl<T> %s for T {}\n" % (tr, " ".join("fn %s(%s) where Self: Sized { }" % (n, arg) for n in lower), tr)
    r.append(Prog("c25/names_methods", t + "}\npub mod scope {\n    use crate::methods::*;\n" + enums + "}\n"))
    # as methods of the keys, of their own and from a trait
    t = "#![allow(warnings)]\npub mod methods {\n    pub trait Evil: ::core::marker::Sized { %s }\n}\npub mod scope {\n    use crate::methods::*;\n" % " ".join("fn %s(self) -> ! { loop {} }" % n for n in lower)
    t += "".join("    %s%s\n    impl %s { %s }\n    impl Evil for %s {}\n" % (DERIVE, e, k, " ".join("pub fn %s(self) -> ! { loop {} }" % n for n in lower), k) for k, e in ABS)
    r.append(Prog("c25/names_own_methods", t + "}\n"))
    # as variants of the key itself, imported or not
    t = "#![allow(warnings)]\n"
    for i, (attr, glob, ns) in enumerate([("", 1, upper), ("", 0, names)] + [("#[key(bitset)] ", 1, upper[j:j + 100]) for j in range(0, len(upper), 100)] + [("#[key(bitset)] ", 0, names[j:j + 100]) for j in range(0, len(names), 100)]):
        t += "pub mod m%d {\n    %s\n    %s%spub enum E { %s }\n}\n" % (i, "use self::E::*;" * glob, DERIVE, attr, ", ".join(ns))
    r.append(Prog("c25/names_variants", t))
    kinds = ["", "(::core::primitive::bool)", "(())", "(crate::U)"]
    comp = ", ".join(n + kinds[i % 4] for i, n in enumerate(upper))
    r.append(Prog("c25/names_variants_mixed", "#![allow(warnings)]\n%spub enum U { A, B }\npub mod a {\n    use self::E::*;\n    %spub enum E { %s }\n}\npub mod b {\n    %spub enum E { %s }\n}\n" % (
        DERIVE, DERIVE, comp, DERIVE, ", ".join(n + kinds[(i + 1) % 4] for i, n in enumerate(names)))))
    return r


BUILTIN = set("allow automatically_derived cfg cold coverage deny derive doc expect forbid inline key must_use no_mangle repr stable test track_caller unstable warn".split())
ALL = {"c23": c23, "c24": c24, "c25": c25, "c26": c26, "c27": c27, "c28": c28}
