#!/usr/bin/env python3
"""Generate witness/src/shapes.rs: the corpus of key types (see DESIGN.md).

A shape is a key type with its universe of keys in documented order.  Unit
enums of every size class (bitset width boundaries included), bool, (),
Option, hashed u32, and composites nesting all of those at several depths.
"""
import os

UNIT = list(range(0, 11)) + [12, 16, 17, 20, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 200, 256, 257]
BITS = list(range(0, 11)) + [15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128]
# composite name -> [(variant, type or None)], hash?
COMP = {
    # one of each kind, unit variants in between
    "Mix": [("A", None), ("B", "bool"), ("C", None), ("D", "Option<bool>"), ("E", "()"), ("F", "U2")],
    # starts and ends with composite variants
    "Ends": [("P", "U3"), ("Q", None), ("R", "Option<U2>")],
    # one variant only
    "Solo": [("S", "U2")],
    "SoloBool": [("S", "bool")],
    "SoloUnit": [("S", "()")],
    # unit variants first / last / the same payload type twice
    "Twice": [("A", "bool"), ("B", "bool"), ("C", None)],
    "TwiceEnum": [("A", "U2"), ("B", None), ("C", "U2")],
    # a composite inside a composite
    "Deep": [("X", "Twice"), ("Y", None), ("Z", "Option<SoloBool>")],
    # explicit discriminants on variants with and without a payload
    "DiscMix": [("A", "bool"), ("B", None), ("C", "()")],
    # variants without any key
    "Holes": [("A", "U0"), ("B", None), ("C", "U0"), ("D", "bool")],
    # a bitset key inside a composite
    "BitIn": [("A", "B3"), ("B", None), ("C", "B0")],
    # many variants, of every kind
    "Many": [(f"V{i}", [None, "bool", None, "()", "U2", "Option<()>", None][i % 7]) for i in range(24)],
    # more variants than a byte counts
    "Huge": [(f"V{i}", "()" if i % 50 == 7 else None) for i in range(260)],
}
HASH = {
    "Hash1": [("A", "u32"), ("B", None)],
    "Hash2": [("A", None), ("B", "u32"), ("C", "bool")],
    "HashIn": [("A", "SoloHash"), ("B", "bool")],
    "SoloHash": [("H", "u32")],
}
BASE = {"bool": 2, "()": 1, "u32": 3}
DISCR = {"DiscMix": [2, 0, 1]}


def size(t):
    t = t.strip()
    if t in BASE:
        return BASE[t]
    if t.startswith("Option<"):
        return size(t[7:-1]) + 1
    if t in COMP:
        return sum(1 if p is None else size(p) for _, p in COMP[t])
    if t in HASH:
        return sum(1 if p is None else size(p) for _, p in HASH[t])
    return int(t[1:])


ALIAS = {
    "Bool": "bool",
    "Unit": "()",
    "OptBool": "Option<bool>",
    "OptUnit": "Option<()>",
    "OptU2": "Option<U2>",
    "OptOptBool": "Option<Option<bool>>",
    "OptOptUnit": "Option<Option<()>>",
    "OptMix": "Option<Twice>",
    "OptEmpty": "Option<U0>",
    "OptBit": "Option<B3>",
}
HALIAS = {"Num": "u32", "OptNum": "Option<u32>"}

o = []
w = o.append
w("// Generated by tools/gen_shapes.py.\n")
w("use crate::h::Shape;\nuse crate::fm;\nuse fixed_map::Key;\n")


def unit(name, n, attr="", discr=None):
    vs = [f"V{i}" for i in range(n)]
    w(f"#[derive(Clone, Copy, Key)]\n{attr}pub enum {name} {{ " + ", ".join(v + (f" = {discr[i]}" if discr and discr[i] is not None else "") for i, v in enumerate(vs)) + " }")
    w(f"impl Shape for {name} {{")
    w(f"    const N: usize = {n};")
    w("    fn key(i: usize) -> Self { match i { " + "".join(f"{i} => {name}::{v}, " for i, v in enumerate(vs)) + "_ => fm::undecided() } }")
    if n == 0:
        w("    fn idx(self) -> usize { match self {} }")
    else:
        w("    fn idx(self) -> usize { match self { " + "".join(f"{name}::{v} => {i}, " for i, v in enumerate(vs)) + "} }")
    w("}")
    extra(name)


def extra(name):
    w(f"keyed!({name});")


w("""
macro_rules! keyed {
    ($n:ident) => {
        impl core::fmt::Debug for $n {
            fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result {
                crate::models::key_event(Shape::idx(*self), f)
            }
        }
        // An order of its own, unlike that of declaration.
        impl PartialEq for $n {
            fn eq(&self, o: &Self) -> bool {
                Shape::idx(*self) == Shape::idx(*o)
            }
        }
        impl Eq for $n {}
        impl PartialOrd for $n {
            fn partial_cmp(&self, o: &Self) -> Option<core::cmp::Ordering> {
                Some(self.cmp(o))
            }
        }
        impl Ord for $n {
            fn cmp(&self, o: &Self) -> core::cmp::Ordering {
                (Shape::idx(*self) ^ 1).cmp(&(Shape::idx(*o) ^ 1))
            }
        }
        impl serde::Serialize for $n {
            fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
                s.serialize_u32(Shape::idx(*self) as u32)
            }
        }
        impl<'de> serde::Deserialize<'de> for $n {
            fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
                let i = <u32 as serde::Deserialize>::deserialize(d)?;
                Ok(<$n as Shape>::key(i as usize))
            }
        }
    };
}
""")
for n in UNIT:
    unit(f"U{n}", n)
for n in BITS:
    unit(f"B{n}", n, "#[key(bitset)]\n")
# explicit discriminants, out of order
unit("Disc", 3, "", [7, -2, 40])
unit("DiscBit", 3, "#[key(bitset)]\n", [7, 1, 4])
unit("DiscPerm", 3, "", [2, 0, 1])
unit("DiscBitPerm", 3, "#[key(bitset)]\n", [2, 0, 1])
unit("DiscPart", 4, "#[repr(u8)]\n", [3, None, 0, None])
unit("DiscBitPart", 4, "#[key(bitset)]\n#[repr(i8)]\n", [-3, None, 5, 1])


def comp(name, vs, hashed):
    if hashed:
        w('#[cfg(feature = "hash")]\nmod hashed_%s {\nuse super::*;' % name.lower())
    w(("#[repr(u8)]\n" if name in DISCR else "") + "#[derive(Clone, Copy, Key)]\npub enum %s { %s }" % (name, ", ".join((v if p is None else f"{v}({p})") + (f" = {DISCR[name][n]}" if name in DISCR else "") for n, (v, p) in enumerate(vs))))
    w(f"impl Shape for {name} {{")
    w(f"    const N: usize = {size(name)};")
    b = 0
    key, idx, rank = [], [], []
    for v, p in vs:
        n = 1 if p is None else size(p)
        if n:
            if p is None:
                key.append(f"if i == {b} {{ return {name}::{v} }}")
                rank.append(f"if i == {b} {{ return {b} }}")
            else:
                key.append(f"if i < {b + n} {{ return {name}::{v}(<{p} as Shape>::key(i - {b})) }}")
                rank.append(f"if i < {b + n} {{ return {b} + <{p} as Shape>::rank(i - {b}) }}")
        idx.append(f"{name}::{v} => {b}," if p is None else f"{name}::{v}(k) => {b} + k.idx(),")
        b += n
    w("    fn key(i: usize) -> Self { " + " ".join(key) + " fm::undecided() }")
    w("    fn idx(self) -> usize { match self { " + " ".join(idx) + " } }")
    w("    fn rank(i: usize) -> usize { " + " ".join(rank) + " fm::undecided() }")
    w("}")
    extra(name)
    if hashed:
        w("}\n#[cfg(feature = \"hash\")]\npub use hashed_%s::*;" % name.lower())


for n, vs in COMP.items():
    comp(n, vs, False)
for n, vs in HASH.items():
    comp(n, vs, True)
for n, t in ALIAS.items():
    w(f"pub type {n} = {t};")
for n, t in HALIAS.items():
    w(f'#[cfg(feature = "hash")]\npub type {n} = {t};')
w('#[cfg(all(feature = "hash", crowd))]\npub type Crowd = u64;')
for n in list(COMP) + list(HASH) + list(ALIAS) + list(HALIAS):
    t = ALIAS.get(n) or HALIAS.get(n) or n
    w(f"// {n}: {size(t)} keys")
here = os.path.dirname(os.path.abspath(__file__))
open(os.path.join(here, "..", "witness", "src", "shapes.rs"), "w").write("\n".join(o) + "\n")
