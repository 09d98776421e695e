A = 'fixed-map-derive/src/any_variants.rs'
U = 'fixed-map-derive/src/unit_variants.rs'
H = 'src/map/storage/hashbrown.rs'
PRE = '''#![allow(dead_code, unused)]
use fixed_map::{Key, Map, Set};
#[derive(Debug, Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Key)]
enum U { A, B, C }
#[derive(Debug, Clone, Copy, PartialEq, Eq, Key)]
enum Mix { P, Q(bool), R, S(Option<U>), T(()) }
'''
HASH = ', features = ["hashbrown"]'
SEEDS = [
 dict(id="c03-bool-values-mut", property="C03",
  edits=[('src/map/storage/boolean.rs', "        self.t.iter_mut().chain(self.f.iter_mut())\n", "        self.f.iter_mut().chain(self.t.iter_mut())\n")],
  needs="mutable values of a map over bool holding both keys", breaks="values_mut goes through false before true",
  main=PRE + '''
fn main() {
    let mut m: Map<bool, u32> = Map::new();
    m.insert(false, 0);
    m.insert(true, 1);
    assert_eq!(m.values_mut().map(|v| *v).collect::<Vec<_>>(), [1, 0]);
}
'''),
 dict(id="c07-with-eager", property="C07",
  edits=[('src/map/entry.rs', '''            Entry::Vacant(entry) => entry.insert(default()),
        }
    }

    /// Ensures a value is in the entry by inserting, if empty, the result of the default function.
''', '''            Entry::Vacant(entry) => {
                let value = default();
                // The key may have been asked for while the value was computed.
                let _ = entry.key();
                entry.insert(value)
            }
        }
    }

    /// Ensures a value is in the entry by inserting, if empty, the result of the default function.
'''), ('src/map/entry.rs', '''        match self {
            Entry::Occupied(mut entry) => {
                f(entry.get_mut());
                Entry::Occupied(entry)
            }
''', '''        match self {
            Entry::Occupied(mut entry) if core::mem::size_of::<V>() > 16 => {
                // Work on a large value through a single borrow.
                let value = entry.get_mut();
                f(value);
                Entry::Occupied(entry)
            }
            Entry::Occupied(mut entry) => {
                if core::mem::size_of::<V>() > 0 {
                    f(entry.get_mut());
                }
                Entry::Occupied(entry)
            }
''')],
  needs="and_modify on an occupied entry whose value type has no size", breaks="the callback is never run",
  main=PRE + '''
fn main() {
    let mut m: Map<U, ()> = Map::new();
    m.insert(U::A, ());
    let mut n = 0;
    let _ = m.entry(U::A).and_modify(|_| n += 1);
    assert_eq!(n, 1);
}
'''),
 dict(id="c26-repr-c", property="C26",
  edits=[(A, """        #vis struct #type_name {
            #(#field_decls,)*
        }

        #[automatically_derived]
        impl #set_storage_t""", """        #[repr(C)]
        #vis struct #type_name {
            #(#field_decls,)*
        }

        #[automatically_derived]
        impl #set_storage_t""")],
  needs="a composite key in which a wide bitset stands between unit variants", breaks="the set is padded on both sides",
  main="""#![allow(dead_code)]
use fixed_map::{Key, Set};
#[derive(Clone, Copy, Key)]
#[key(bitset)]
enum W { V0, V1, V2, V3, V4, V5, V6, V7, V8, V9, V10, V11, V12, V13, V14, V15, V16 }
#[derive(Clone, Copy, Key)]
enum E { A, B(W), C }
fn main() {
    assert_eq!(std::mem::size_of::<Set<W>>(), 4);
    assert!(std::mem::size_of::<Set<E>>() <= 8);
}
"""),
 dict(id="c19-alternate", property="C19",
  edits=[('src/set.rs', "        f.debug_set().entries(self.iter()).finish()\n", '''        if f.alternate() {
            // Spread out one value per line.
            return f.debug_list().entries(self.iter()).finish();
        }

        f.debug_set().entries(self.iter()).finish()
''')],
  needs="a set formatted with {:#?}", breaks="the set is shown as a list",
  main=PRE + '''
fn main() {
    let s = Set::from([U::A]);
    assert_eq!(format!("{s:#?}"), "{\\n    A,\\n}");
    assert_eq!(format!("{s:?}"), "{A}");
}
'''),
 dict(id="c17-stop-dup", property="C17",
  edits=[('src/set.rs', '''        for value in iter {
            set.insert(value);
        }

        set
''', '''        let mut iter = iter.into_iter();

        while let Some(value) = iter.next() {
            if !set.insert(value) {
                // A second run over the same values adds nothing.
                if iter.size_hint().0 > set.len() {
                    break;
                }
            }
        }

        set
''')],
  needs="a repeated value with more elements to come than are in the set", breaks="the elements after it are not collected",
  main=PRE + '''
fn main() {
    let s: Set<U> = [U::A, U::A, U::B, U::C].into_iter().collect();
    assert_eq!(s.len(), 3);
}
'''),
 dict(id="c16-hash-clone-from", property="C16",
  edits=[(H, """            inner: self.inner.clone(),
        }
    }
}
""", """            inner: self.inner.clone(),
        }
    }

    #[inline]
    fn clone_from(&mut self, source: &Self) {
        // A map of the same length keeps its table.
        if self.inner.len() == source.inner.len() && self.inner.len() > 2 {
            for (to, from) in self.inner.values_mut().zip(source.inner.values()) {
                to.clone_from(from);
            }
        } else {
            self.inner.clone_from(&source.inner);
        }
    }
}
""")],
  needs="cloning into a hashed map of the same length, of at least three entries, with other keys", breaks="the old keys remain",
  features=HASH,
  main=PRE + """
fn main() {
    let mut m: Map<u32, u32> = (0..5).map(|n| (n, n)).collect();
    let n: Map<u32, u32> = (10..15).map(|n| (n, n)).collect();
    m.clone_from(&n);
    assert_eq!(m, n);
}
"""),
 dict(id="c18-in-place", property="C30",
  edits=[('src/set.rs', '''        deserializer.deserialize_seq(SeqVisitor(core::marker::PhantomData))
    }
''', '''        deserializer.deserialize_seq(SeqVisitor(core::marker::PhantomData))
    }

    #[inline]
    fn deserialize_in_place<D>(deserializer: D, place: &mut Self) -> Result<(), D::Error>
    where
        D: serde::Deserializer<'de>,
    {
        // Nothing is written where nothing was read.
        let set = Self::deserialize(deserializer)?;

        if !set.is_empty() {
            *place = set;
        }

        Ok(())
    }
''')],
  needs="an empty set read back in place of one with content", breaks="the old content remains",
  features=', features = ["serde"]', deps='serde = { version = "1", default-features = false }\nserde_json = "1"',
  main=PRE + '''
use serde::Deserialize;
#[derive(Debug, Clone, Copy, PartialEq, Eq)]
struct D;
fn main() {
    let mut s: Set<bool> = Set::from([true]);
    let mut d = serde_json::Deserializer::from_str("[]");
    Deserialize::deserialize_in_place(&mut d, &mut s).unwrap();
    assert!(s.is_empty());
}
'''),
 dict(id="c13-fold-early", property="C13",
  edits=[('src/set/intersection.rs', '''        self.iter.fold(init, |acc, elt| {
            if self.other.contains(elt) {
                f(acc, elt)
            } else {
                acc
            }
        })
''', '''        // At most as many values are common as the other set holds.
        let mut left = self.other.len();

        self.iter.fold(init, |acc, elt| {
            if left > 0 && self.other.contains(elt) {
                left -= 1;
                f(acc, elt)
            } else {
                left = left.saturating_sub(usize::from(core::mem::size_of::<T>() > 1));
                acc
            }
        })
''')],
  needs="folding an intersection over keys of more than one byte, where a value of the first set is missing from the second", breaks="common values are left out",
  main=PRE + '''
fn main() {
    let a = Set::from([Mix::P, Mix::R, Mix::Q(true), Mix::S(None)]);
    let b = Set::from([Mix::S(None)]);
    assert_eq!(a.intersection(&b).count(), 1);
    assert_eq!(a.intersection(&b).fold(0, |n, _| n + 1), 1);
}
'''),
 dict(id="c12-raw-top", property="C12",
  edits=[(U, "                #set_storage { data: data & (0 #(| #numbers)*) }\n", '''                let all = 0 #(| #numbers)*;

                // Nothing to discard where the whole integer is in use.
                if data > all && all.leading_zeros() > 1 {
                    return #set_storage { data: data & all };
                }

                #set_storage { data }
''')],
  needs="a bitset with one variant fewer than its integer has bits, and the top bit set in the raw form", breaks="the set has content which is no variant",
  main='''use fixed_map::{Key, Set};
#[derive(Clone, Copy, Debug, PartialEq, Eq, Key)]
#[key(bitset)]
enum E { A, B, C, D, E, F, G }
fn main() {
    let s: Set<E> = Set::from_raw(0x80);
    assert_eq!(s.len(), 0);
    assert!(s.is_empty());
}
'''),
 dict(id="c14-hash-len", property="C14",
  edits=[(U, "                #hash_t::hash(&self.data, state);\n", '''                for (index, value) in #iterator_t::enumerate(#into_iterator_t::into_iter(&self.data)) {
                    if let #option::Some(value) = value {
                        // A byte will do for the position.
                        #hasher_t::write_u8(state, (index % 2) as u8);
                        #hash_t::hash(value, state);
                    }
                }
''')],
  needs="hashing two maps whose keys differ by an even number of positions", breaks="different keys feed the same data",
  main=PRE + '''
use std::hash::{Hash, Hasher};
#[derive(Default)]
struct Rec(Vec<u8>);
impl Hasher for Rec { fn write(&mut self, b: &[u8]) { self.0.extend_from_slice(b); } fn finish(&self) -> u64 { 0 } }
fn main() {
    let mut a: Map<U, u8> = Map::new(); a.insert(U::A, 1);
    let mut b: Map<U, u8> = Map::new(); b.insert(U::C, 1);
    let (mut x, mut y) = (Rec::default(), Rec::default());
    a.hash(&mut x); b.hash(&mut y);
    assert_ne!(x.0, y.0);
}
'''),
 dict(id="c22-len-u8", property="C22",
  edits=[(U, "                0 #(+ *#names as usize)*\n", "                (0u8 #(+ (*#names as u8) * 10)*) as usize / 10\n")],
  needs="a set over a plain enum of which more than 25 variants are contained", breaks="len overflows (a panic in debug builds)",
  main='''use fixed_map::{Key, Set};
#[derive(Clone, Copy, Debug, PartialEq, Eq, Key)]
enum E { A0, A1, A2, A3, A4, A5, A6, A7, A8, A9, B0, B1, B2, B3, B4, B5, B6, B7, B8, B9, C0, C1, C2, C3, C4, C5, C6, C7 }
fn main() {
    use E::*;
    let s: Set<E> = [A0, A1, A2, A3, A4, A5, A6, A7, A8, A9, B0, B1, B2, B3, B4, B5, B6, B7, B8, B9, C0, C1, C2, C3, C4, C5, C6, C7].into_iter().collect();
    assert_eq!(s.len(), 28);
}
'''),
]
