#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so the statements stay reviewable)."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MAPS = ["src/map.rs", "src/map/storage/boolean.rs", "src/map/storage/option.rs", "src/map/storage/singleton.rs",
        "src/map/storage/hashbrown.rs", "fixed-map-derive/src/unit_variants.rs", "fixed-map-derive/src/any_variants.rs"]
SETS = ["src/set.rs", "src/set/storage/boolean.rs", "src/set/storage/option.rs", "src/set/storage/singleton.rs",
        "src/set/storage/hashbrown.rs", "fixed-map-derive/src/unit_variants.rs", "fixed-map-derive/src/any_variants.rs"]
DER = ["fixed-map-derive/src/unit_variants.rs", "fixed-map-derive/src/any_variants.rs", "fixed-map-derive/src/context.rs", "fixed-map-derive/src/attrs.rs", "fixed-map-derive/src/lib.rs"]
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": files,
                          "state": [dict(name=a, meaning=b, where=c) for a, b, c in state],
                          "mechanism": [dict(name=a, where=b) for a, b in mech],
                          "observe_at": list(observe), "hook_needed": None}})

TESTS = "The tests and doc examples use a handful of two- to four-variant enums with concrete integer values and fixed call sequences; "

p("C01", "A map returns exactly what was last stored under each key",
  "After any sequence of insertions and removals, looking a key up (shared, mutable or as a containment test) gives exactly the value most recently stored under that key, or nothing if it was never stored or was removed. Inserting returns the value it replaced and removing returns the value it took out, each None when there was none. No operation on one key changes what any other key maps to.",
  ["inputs", "histories", "programs"],
  "for every key type the crate supports (unit, bool, Option, hashed primitive, unit-only enum of any size, composite enum nested to any depth), every map content, every value type, every sequence of operations",
  TESTS + "no test covers the cross product of key shape, map content and key operated on.",
  MAPS, [("MapStorage::{insert,get,get_mut,contains_key,remove}", "src/map/storage.rs and its implementations"), ("generated storages", "fixed-map-derive/src/{unit,any}_variants.rs")],
  [("slots", "one optional value per key", "storage structs")], ["Map::get", "Map::get_mut", "Map::contains_key", "Map::insert", "Map::remove"])
p("C02", "Map length, emptiness and clearing agree with the content",
  "A map's length is always the number of keys that currently have a value, and it reports itself empty exactly when that number is zero. A newly created or default map is empty, and clearing a map removes every entry.",
  ["inputs", "histories", "programs"],
  "for every key shape, every content and every operation history",
  TESTS + "len and is_empty are tested on one or two contents per storage.",
  MAPS, [("MapStorage::{len,is_empty,clear,empty}", "src/map/storage.rs and its implementations")], [], ["Map::len", "Map::is_empty", "Map::clear", "Map::new", "Map::default"])
p("C03", "Map iteration yields every entry exactly once, in declaration order",
  "Each way of iterating a map (entries, keys, values, mutable entries, mutable values, by value) yields every present entry exactly once and nothing else, pairing each key with its own value; all of them agree with each other. The order is the declaration order of the key's variants, nested keys in the order of their own type (true before false, Some(..) before None); for hashed keys the order is unspecified.",
  ["inputs", "programs"],
  "for every key shape, every content, every iterator kind",
  TESTS + "iteration order and completeness are asserted on a few contents of a few enums, never for all subsets of keys nor for each of the six iterator kinds of each storage.",
  MAPS, [("MapStorage::{iter,keys,values,iter_mut,values_mut,into_iter}", "src/map/storage.rs and its implementations")], [], ["Map::iter", "Map::keys", "Map::values", "Map::iter_mut", "Map::values_mut", "IntoIterator for Map"])
p("C04", "Map iterators keep the iterator contract from every partial state",
  "From any partially consumed state, a map iterator's size hint brackets what it still yields (exactly, where it claims an exact length), it stays exhausted once exhausted, and a clone continues independently from the same point. Where it is double-ended, taking from the front and the back in any interleaving yields the same entries as a single forward pass, each exactly once, the back ones in reverse. Every provided method (folds, searches, count, last, reduce, minima and maxima, nth, rev and their kin) agrees with repeated next, in what it returns and in what it leaves behind.",
  ["inputs", "histories"],
  "for every key shape, content, iterator kind and interleaving of front and back steps",
  TESTS + "almost no test mixes next and next_back or looks at a size hint after partial consumption.",
  MAPS, [("iterator types", "src/map/storage/{boolean,option}.rs and the iterators the derive generates (any_variants.rs: impl_iter!)"), ("core adaptors used as iterators", "unit_variants.rs")], [], ["Iterator::next", "Iterator::size_hint", "DoubleEndedIterator::next_back", "Iterator::fold", "ExactSizeIterator::len"])
p("C05", "Map::retain keeps exactly the entries the predicate accepts",
  "Retaining calls the predicate exactly once for every present entry, with its own key and a mutable reference to its own value, and never for an absent one. Afterwards exactly the entries for which it answered true remain, with any mutation the predicate made.",
  ["inputs", "programs"],
  "for every key shape, content, and every predicate (every combination of answers and mutations)",
  TESTS + "retain is exercised with one fixed predicate on one content.",
  MAPS, [("MapStorage::retain", "src/map/storage.rs and its implementations")], [], ["Map::retain"])
p("C06", "A map entry is occupied exactly when its key is present, and acts on that key",
  "Asking for the entry of a key gives an occupied entry exactly when the key has a value and a vacant one otherwise, and both report the key that was asked for. Reading, replacing, removing or mutating through an occupied entry, and inserting through a vacant one, act on exactly that key's value, return the documented old or new value, and leave every other key alone.",
  ["inputs", "histories", "programs"],
  "for every key shape (including nested and hashed keys), every content and every entry operation",
  TESTS + "entries are tested for one composite enum with a fixed script.",
  ["src/map/entry.rs", "src/map/storage.rs", "src/option_bucket.rs"] + MAPS[1:], [("MapStorage::entry, OccupiedEntry, VacantEntry", "src/map/storage.rs and its implementations"), ("OptionBucket", "src/option_bucket.rs")], [], ["Map::entry", "OccupiedEntry", "VacantEntry"])
p("C07", "Entry combinators fill vacant entries only and run callbacks only when due",
  "The or_insert family leaves an occupied entry's value untouched and otherwise stores exactly the given, computed or default value, and in both cases returns a mutable reference to the value now in the map. The default-producing callback runs exactly once, and only when the entry is vacant, and receives the entry's key where documented; and_modify runs its callback exactly once, and only when the entry is occupied, and leaves the entry otherwise as it was.",
  ["inputs", "programs"],
  "for every key shape, content, key and callback",
  TESTS + "each combinator is shown once in a doc example.",
  ["src/map/entry.rs"], [("Entry::{or_insert,or_insert_with,or_insert_with_key,or_default,and_modify,key}", "src/map/entry.rs")], [], ["Entry"])
p("C08", "A set contains exactly what was inserted and not removed",
  "After any sequence of insertions and removals a set contains a value exactly if it was inserted and not removed since. Inserting answers true exactly when the value was not yet there, removing answers true exactly when it was there, and neither affects any other value.",
  ["inputs", "histories", "programs"],
  "for every key shape (including bitset-backed enums of every width), every content, every operation history",
  TESTS + "return values of insert and remove are not tested for nested bool, Option or unit values at all.",
  SETS, [("SetStorage::{insert,remove,contains}", "src/set/storage.rs and its implementations")], [("bits", "presence bits", "set storages")], ["Set::insert", "Set::remove", "Set::contains"])
p("C09", "Set length, emptiness and clearing agree with the content",
  "A set's length is always the number of values it currently contains, and it reports itself empty exactly when that number is zero. A newly created or default set is empty, and clearing a set removes every value.",
  ["inputs", "histories", "programs"],
  "for every key shape, content and operation history",
  TESTS + "is_empty is tested on one or two contents.",
  SETS, [("SetStorage::{len,is_empty,clear,empty}", "src/set/storage.rs and its implementations")], [], ["Set::len", "Set::is_empty", "Set::clear", "Set::new"])
p("C10", "Set iteration is complete, ordered and keeps the iterator contract",
  "Iterating a set, by reference or by value, yields every contained value exactly once and nothing else, in declaration order (nested keys in the order of their own type; unspecified for hashed keys). From any partially consumed state the size hint brackets what remains (exactly, where an exact length is claimed), the iterator stays exhausted once exhausted, a clone continues independently, and a double-ended iterator gives the same values in any interleaving of front and back steps and through every provided method (folds, searches, count, last, reduce, minima and maxima, nth, rev and their kin), which also leave behind what repeated next would.",
  ["inputs", "histories", "programs"],
  "for every key shape, content and interleaving of front and back steps",
  TESTS + "partially consumed iterators are hardly tested.",
  SETS, [("SetStorage::{iter,into_iter} and the iterator types", "src/set/storage/*.rs, derive")], [], ["Set::iter", "IntoIterator for Set"])
p("C11", "Set::retain keeps exactly the values the predicate accepts",
  "Retaining calls the predicate exactly once for every contained value and never for an absent one. Afterwards exactly the values for which it answered true are contained; retaining never adds a value.",
  ["inputs", "programs"],
  "for every key shape, content and predicate",
  TESTS + "retain is exercised with one fixed predicate.",
  SETS, [("SetStorage::retain", "src/set/storage.rs and its implementations")], [], ["Set::retain"])
p("C12", "Raw form of a set round-trips and is exactly one bit per variant",
  "The raw integer of a bitset-backed set has bit i set exactly when the i-th declared variant is contained, and building a set from a raw integer gives the set containing exactly the variants whose bits are set, so both directions round-trip. Bits beyond the declared variants never make such a set report, count, compare or iterate anything other than its declared variants.",
  ["inputs", "programs"],
  "for every bitset enum size up to 128 variants and every content",
  "The tests use enums of three variants and one or two contents; width boundaries (8/9, 16/17, 32/33, 64/65, 128) are not exercised.",
  ["src/raw.rs", "src/set.rs", "fixed-map-derive/src/unit_variants.rs"], [("RawStorage", "src/raw.rs"), ("generated bitset storage", "unit_variants.rs: impl_bitset")], [("data", "bit mask", "generated SetStorage")], ["Set::as_raw", "Set::from_raw"])
p("C13", "Set intersection yields exactly the common values",
  "Iterating the intersection of two sets yields every value contained in both exactly once, in set order, and nothing else, whether consumed step by step, through any provided method (folds, searches, nth and their kin), or through a clone; its size hint brackets what it yields. Neither set is changed.",
  ["inputs", "programs"],
  "for every key shape and every pair of contents",
  "One doc example with three variants.",
  ["src/set.rs", "src/set/intersection.rs"], [("Intersection", "src/set/intersection.rs")], [], ["Set::intersection"])
p("C14", "Equality is equality of content, and equal contents hash equally",
  "Two maps are equal exactly when they have the same keys and equal values under each, and two sets exactly when they contain the same values, regardless of how they came about. Where hashing is offered, equal contents feed identical data to the hasher, and contents with different keys feed different data.",
  ["inputs", "histories", "programs"],
  "for every key shape, every pair of contents, every (even non-reflexive) value equality",
  TESTS + "equality is tested on a few pairs, hashing hardly at all.",
  sorted(set(MAPS + SETS)), [("PartialEq/Eq/Hash on storages", "storages and derive")], [], ["PartialEq for Map", "PartialEq for Set", "Hash for Map", "Hash for Set"])
p("C15", "Ordering is lexicographic over the entries and self-consistent",
  "Where maps or sets are comparable, their ordering is the lexicographic ordering of their entries in declaration order (like the standard ordered map and set), comparing keys by declaration position and values by their own ordering. All comparison operators, the total order, max, min and clamp agree with it, and it is consistent with equality.",
  ["inputs", "programs"],
  "for every comparable key shape, every pair (and triple, for clamp) of contents, and every value ordering including partial ones",
  "Doc examples compare three or four pairs; bitset ordering and comparisons of differing lengths are not tested.",
  ["src/map.rs", "src/set.rs", "src/macro_support.rs", "fixed-map-derive/src/unit_variants.rs"], [("__storage_iterator_{cmp,partial_cmp}*", "src/macro_support.rs"), ("generated PartialOrd/Ord", "unit_variants.rs")], [], ["PartialOrd/Ord for Map", "PartialOrd/Ord for Set"])
p("C16", "Clones and copies are equal and independent",
  "Cloning or copying a map or set yields a container with the same content, each stored value cloned exactly once and under its own key. Later changes to either one never show in the other, and cloning into an existing container leaves exactly the source's content.",
  ["inputs", "histories"],
  "for every key shape and content, and every later modification",
  "One doc example per container.",
  sorted(set(MAPS + SETS)), [("Clone/Copy on storages", "storages and derive")], [], ["Clone for Map", "Clone for Set", "Copy for Map", "Copy for Set"])
p("C17", "Building a container from entries equals inserting them in order",
  "Collecting a sequence of entries into a map, collecting values into a set, or converting an array into a set, has exactly the effect of inserting them one after another into an empty container. Every element is consumed, repeated keys included, with the last value winning.",
  ["inputs", "programs"],
  "for every key shape and every sequence, with repetitions, whatever size hint the source iterator reports",
  "Doc examples collect two or three distinct entries.",
  ["src/map.rs", "src/set.rs"], [("FromIterator, From<[T; N]>", "src/map.rs, src/set.rs")], [], ["FromIterator for Map", "FromIterator for Set", "From<[T; N]> for Set"])
p("C18", "Serde support writes every entry once and rebuilds the same content",
  "Serializing writes a map (or a sequence, for a set) whose announced length is the number of entries, and every entry exactly once in iteration order. Deserializing inserts every entry the input provides, in order, whatever size hint it gives, and an error from the serializer, the input, a key or a value is returned, never swallowed.",
  ["inputs", "fault_sequences"],
  "for every key shape, content, and every point at which the serializer or deserializer reports an error",
  "There are no serde tests at all.",
  ["src/map.rs", "src/set.rs"], [("Serialize/Deserialize impls", "src/map.rs, src/set.rs")], [], ["Serialize for Map", "Deserialize for Map", "Serialize for Set", "Deserialize for Set"])
p("C19", "Debug output lists exactly the content",
  "Formatting a map for debugging emits a map with exactly its entries, key next to its own value, in iteration order, and formatting a set emits a set with exactly its values. Formatter errors are passed on and formatting changes nothing.",
  ["inputs"],
  "for every key shape and content",
  "One doc assertion per container.",
  ["src/map.rs", "src/set.rs", "src/set/intersection.rs"], [("Debug impls", "src/map.rs, src/set.rs")], [], ["Debug for Map", "Debug for Set", "Debug for Intersection"])
p("C20", "Every stored value is dropped exactly once or handed back",
  "Every value moved into a map is either handed back to the caller or dropped exactly once: when it is replaced without being returned, rejected by retain, cleared, left in a partly consumed by-value iterator, or when the map goes away. This also holds when a caller's callback, clone or source iterator panics part way. No value is lost, duplicated or dropped early.",
  ["inputs", "histories", "fault_sequences"],
  "for every key shape, content, operation history, and every point at which user code may panic",
  "The tests store plain integers, which cannot show a leak or a double drop.",
  sorted(set(MAPS + ["src/option_bucket.rs", "src/map/entry.rs"])), [("ownership of Option<V> slots", "storages"), ("SomeBucket/NoneBucket", "src/option_bucket.rs")], [], ["Drop of V"])
p("C21", "Safe use can never reach undefined behaviour",
  "No safe call sequence executes an unreachable-by-contract path, reads an uninitialised value, follows a dangling or aliased pointer, or otherwise leaves defined behaviour. Every unsafe operation in the crate is dominated by the check that justifies it, and the constructors and fields whose misuse would break that justification cannot be reached by safe code outside the crate.",
  ["inputs", "histories", "programs"],
  "for every safe client program, key shape and content",
  "Tests cannot observe undefined behaviour and sample few call sequences; nothing runs under a sanitizer.",
  ["src/option_bucket.rs", "src/map/entry.rs", "fixed-map-derive/src/unit_variants.rs", "fixed-map-derive/src/any_variants.rs"], [("SomeBucket/NoneBucket unsafe accessors", "src/option_bucket.rs")], [("SomeBucket.outer", "reference to a slot known to be Some", "src/option_bucket.rs")], ["unsafe blocks and unsafe fns"])
p("C22", "No operation panics on its own account",
  "No container operation panics, overflows or indexes out of range, whatever the key, the content or the operation history; a panic can only come out of caller-supplied code.",
  ["inputs", "histories", "programs"],
  "for every key shape, including enums with no variants and the width boundaries of bitsets, every content and operation",
  TESTS + "boundary sizes are not covered.",
  sorted(set(MAPS + SETS + ["src/option_bucket.rs", "src/map/entry.rs", "src/set/intersection.rs", "src/macro_support.rs"])), [("all operations", "src, derive output")], [], ["all public operations"])
p("C23", "Fixed key storage needs no heap and no standard library",
  "The crate is no_std, builds with every combination of its features, and without hashing it links nothing beyond core. Containers over unit, bool, Option and derived keys never allocate, own no heap data, and can be copied bit for bit when their values can.",
  ["programs", "configurations"],
  "for every feature combination and every operation on every non-hashed key shape",
  "The test suite runs in one feature configuration with std linked; nothing observes allocation.",
  ["Cargo.toml", "src/lib.rs", "src/key.rs"] + MAPS[1:], [("#![no_std], cfg(feature) gates", "src/lib.rs, src/key.rs, src/map/storage.rs, src/set/storage.rs")], [], ["crate features", "alloc references"])
p("C24", "The derive rejects what it cannot support, pointing at the cause",
  "Deriving the key trait on something unsupported (a non-enum, a variant with several or no tuple fields or named fields, an unknown, malformed or misplaced key attribute, a bitset over variants with fields or with more variants than fit) is a compile error reported on the offending item. It is never silently accepted, never turned into a key with another meaning, and never surfaces as a crash of the derive itself.",
  ["programs"],
  "for every kind of unsupported input the derive can be given",
  "There are no compile-fail tests.",
  DER, [("error collection", "fixed-map-derive/src/context.rs, attrs.rs, lib.rs")], [], ["#[derive(Key)]"])
p("C25", "Derived code is hygienic and works wherever the enum does",
  "Deriving the key trait on any supported enum compiles whatever the names of its variants, whatever types, traits, functions, methods, macros, modules and variants are declared, imported, shadowed or absent in the surrounding scope, whatever its visibility, edition and crate, and under strict lints, and introduces no name into that scope. The keys it makes behave the same in every such context. (Names starting with __FixedMap are reserved; constants, statics and unit structs with lower-case names, which no pattern binding survives, are excepted.)",
  ["programs"],
  "for every enum the derive accepts and every surrounding scope",
  "The tests derive in ordinary scopes with ordinary names.",
  DER, [("absolute paths in generated code", "fixed-map-derive/src/context.rs, symbol.rs")], [], ["#[derive(Key)]"])
p("C26", "Containers have the documented compact layout",
  "A map over a unit-only enum is exactly as large as an array of one optional value per variant and one over bool or Option exactly as large as its optional values side by side; a set over a unit-only enum takes one byte per variant, and a bitset-backed one exactly the smallest unsigned integer with a bit for each variant. The storage of a composite key is never larger than the storages of its variants laid side by side need.",
  ["programs"],
  "for every derived key shape and value type",
  "The tests check the size of one or two three-variant enums.",
  ["README.md", "src/lib.rs", "fixed-map-derive/src/unit_variants.rs", "fixed-map-derive/src/any_variants.rs", "src/set/storage/boolean.rs"], [("generated storage structs", "derive"), ("bitset width choice", "unit_variants.rs")], [], ["size_of::<Map>", "size_of::<Set>"])
p("C27", "Containers are as thread-safe as their contents and strictly borrow-checked",
  "A container or one of its iterators or entries can be sent to or shared with another thread exactly when its values allow it (keys being plain data). Everything borrowed from a container keeps it borrowed: mutably for mutable iterators and entries, shared for shared iterators, so no safe program can change a container under an outstanding borrow.",
  ["programs"],
  "for every client program the compiler accepts",
  "Tests cannot show that a program is rejected.",
  sorted(set(MAPS + SETS + ["src/option_bucket.rs", "src/map/entry.rs"])), [("auto traits, lifetimes in signatures", "storages, derive")], [], ["Send/Sync of containers and iterators"])
p("C28", "Every supported key type is a key, wherever it occurs",
  "Unit, bool, Option of a key, every hashed primitive (char, u8, u32, u64, u128, usize, i8, i32, i64, i128, isize, static strings and byte strings) and every derived enum can be used as a map key and a set element, on their own or nested inside an Option or a composite enum variant, with the same set of container operations. Every container offers Clone, PartialEq, Eq, Debug, Default, collecting, iteration and serialization as far as its values do; one without hashed keys also offers Copy and iteration from both ends; one over a unit-only enum also offers Hash, PartialOrd and Ord; a bitset also offers its raw representation.",
  ["programs", "configurations"],
  "for every supported key type and nesting",
  "Tests cover a few nestings only; missing trait implementations show only when a program needs them.",
  ["src/key.rs", "src/map.rs", "src/set.rs"] + DER[:2], [("Key impls", "src/key.rs"), ("derive", "fixed-map-derive")], [], ["impl Key"])
p("C29", "Lookups and updates in fixed storage cost the same whatever else is stored",
  "In a container whose key is a derived enum, bool, Option or unit (no hashing), looking up, inserting or removing one key, or going through its entry, takes steps that depend on that key and on whether it is stored, but not on how many or which other keys are stored: no operation on one key searches, counts or walks over the other entries.",
  ["inputs"], "for every derived key, every content and every key asked for",
  "Benchmarks measure a few cases and tests see results only, which a search gives right too.", ["README.md", "benches/complex.rs", "benches/simple.rs"],
  [("Map and Set operations on one key", "src/map.rs, src/set.rs, src/map/entry.rs, src/map/storage/*.rs, src/set/storage/*.rs"), ("direct slot access", "fixed-map-derive/src/any_variants.rs, fixed-map-derive/src/unit_variants.rs")], [], ["benchmarks"])
p("C30", "What a faithful serde format writes it reads back as an equal container",
  "Writing a map or set with a serde format and reading it back with the same format gives an equal container and no error, for every format that reproduces the keys, values and lengths it was given: one that marks the end or one that announces the length, self-describing or not, human-readable or not, with any size hint. Reading back in place of an old content leaves the content written.",
  ["inputs", "configurations"], "for every such format, key type and content",
  "There are no serde tests, and each format is a different client of both impls.", ["src/map.rs", "src/set.rs"], [("Serialize/Deserialize impls", "src/map.rs, src/set.rs")], ["C14", "C18"], ["serde formats"])
with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for q in P:
        assert len(q["title"]) <= 80, q["title"]
        f.write(json.dumps(q) + "\n")
print(len(P))
