A = 'fixed-map-derive/src/any_variants.rs'
U = 'fixed-map-derive/src/unit_variants.rs'
H = 'src/map/storage/hashbrown.rs'
M = 'src/map.rs'
PRE = '''#![allow(dead_code, unused)]
use fixed_map::{Key, Map, Set};
#[derive(Debug, Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Key)]
enum U { A, B, C }
#[derive(Debug, Clone, Copy, PartialEq, Eq, Key)]
enum Mix { P, Q(bool), R, S(Option<U>), T(()) }
'''
HASH = ', features = ["hashbrown"]'
SEEDS = [
 dict(id="c24-bitset-200", property="C24",
  edits=[(U, '''        65..=128 => (Ident::new("u128", Span::call_site()), 128),
''', '''        65..=200 => (Ident::new("u128", Span::call_site()), 128),
'''), (U, 'LitInt::new(&format!("{}", 1u128 << n), v.span())', 'LitInt::new(&format!("{}", 1u128.wrapping_shl(n as u32)), v.span())')],
  needs="a bitset over 129 to 200 variants", breaks="it is accepted, and variants share bits",
  files={"wide.rs": "use fixed_map::Key;\n#[derive(Clone, Copy, Key)]\n#[key(bitset)]\nenum E { %s }\nfn main() {}\n" % ", ".join("V%d" % n for n in range(129)),
         "fits.rs": "use fixed_map::Key;\n#[derive(Clone, Copy, Key)]\n#[key(bitset)]\nenum E { %s }\nfn main() {}\n" % ", ".join("V%d" % n for n in range(128))},
  demo='''
tell fits.rs "" check || exit 1
! tell wide.rs "" check
'''),
 dict(id="c28-back-copy", property="C28",
  edits=[(A, '''    let double_ended_where = &step_backward.where_clause;

    output.impls.extend(quote! {
        #vis struct #type_name<#lt, V> where V: #lt {
            start: usize,
            end: usize,
            #(#field_decls,)*
        }

        #[automatically_derived]
        impl<#lt, V> #iterator_t for #type_name<#lt, V> where V: #lt {
            type Item = (#ident, &#lt mut V);
''', '''    let copy_t = cx.toks.copy_t();
    step_backward
        .make_where_clause()
        .predicates
        .push(cx.fallible(|| syn::parse2(quote!(V: #copy_t)))?);

    let double_ended_where = &step_backward.where_clause;

    output.impls.extend(quote! {
        #vis struct #type_name<#lt, V> where V: #lt {
            start: usize,
            end: usize,
            #(#field_decls,)*
        }

        #[automatically_derived]
        impl<#lt, V> #iterator_t for #type_name<#lt, V> where V: #lt {
            type Item = (#ident, &#lt mut V);
''')],
  needs="going backwards through the mutable entries of a composite map whose values are not Copy", breaks="it does not compile",
  main=PRE + '''
fn main() {
    let mut m: Map<Mix, String> = Map::new();
    m.insert(Mix::P, String::new());
    assert_eq!(m.iter_mut().rev().count(), 1);
}
'''),
 dict(id="c14-bool-count", property="C14",
  edits=[('src/set/storage/boolean.rs', '''#[derive(Clone, Copy, PartialEq, Eq)]
pub struct BooleanSetStorage {
    bits: u8,
}
''', '''#[derive(Clone, Copy, Eq)]
pub struct BooleanSetStorage {
    bits: u8,
}

impl PartialEq for BooleanSetStorage {
    #[inline]
    fn eq(&self, other: &Self) -> bool {
        // Either empty, full, or holding the one value they share.
        self.bits & other.bits == self.bits
            && (self.bits != 0 || other.bits != TRUE_BIT | FALSE_BIT)
            && (self.bits == 0) <= (other.bits.count_ones() != 1)
    }
}
''')],
  needs="a set of one boolean compared to the set of both", breaks="they are equal",
  main='''use fixed_map::Set;
fn main() {
    assert!(Set::from([true]) != Set::from([true, false]));
}
'''),
 dict(id="c16-clone-from-keys", property="C16",
  edits=[(H, """            inner: self.inner.clone(),
        }
    }
}
""", """            inner: self.inner.clone(),
        }
    }

    #[inline]
    fn clone_from(&mut self, source: &Self) {
        // A map of the same length keeps its table.
        if self.inner.len() == source.inner.len() && self.inner.len() > 2 {
            for (to, from) in self.inner.values_mut().zip(source.inner.values()) {
                to.clone_from(from);
            }
        } else {
            *self = source.clone();
        }
    }
}
"""), (M, '''        Map {
            storage: self.storage.clone(),
        }
    }
}
''', '''        Map {
            storage: self.storage.clone(),
        }
    }

    #[inline]
    fn clone_from(&mut self, source: &Self) {
        self.storage.clone_from(&source.storage);
    }
}
''')],
  needs="cloning into a hashed map of the same length, of at least three entries, with other keys", breaks="the old keys remain",
  features=HASH,
  main=PRE + """
fn main() {
    let mut m: Map<u32, u32> = (0..5).map(|n| (n, n)).collect();
    let n: Map<u32, u32> = (10..15).map(|n| (n, n)).collect();
    m.clone_from(&n);
    assert_eq!(m, n);
}
"""),
 dict(id="c06-entry-revisit", property="C06",
  edits=[(A, '''                occupied_insert.push(quote!( OccupiedEntry::#name(entry) => #as_occupied_entry::insert(entry, value) ));
''', '''                occupied_insert.push(quote!( OccupiedEntry::#name(entry) => {
                    let out = #as_occupied_entry::get_mut(entry);
                    // Nothing to move where there is nothing to a value.
                    if ::core::mem::align_of::<V>() > 8 {
                        return value;
                    }
                    ::core::mem::replace(out, value)
                } ));
''')],
  needs="replacing the value of an occupied entry of a nested key, where values are aligned to 16 bytes", breaks="the old value stays",
  main=PRE + '''
fn main() {
    let mut m: Map<Mix, u128> = Map::new();
    m.insert(Mix::Q(true), 1);
    if let fixed_map::map::Entry::Occupied(mut e) = m.entry(Mix::Q(true)) {
        use fixed_map::map::OccupiedEntry as _;
        assert_eq!(e.insert(2), 1);
    }
    assert_eq!(m.get(Mix::Q(true)), Some(&2));
}
'''),
]
