U = 'fixed-map-derive/src/unit_variants.rs'
A = 'fixed-map-derive/src/any_variants.rs'
H = 'src/map/storage/hashbrown.rs'
HS = 'src/set/storage/hashbrown.rs'
PRE = '''#![allow(dead_code, unused)]
use fixed_map::{Key, Map, Set};
#[derive(Debug, Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Key)]
enum U { A, B, C }
#[derive(Debug, Clone, Copy, PartialEq, Eq, Key)]
enum Mix { P, Q(bool), R, S(Option<U>), T(()) }
'''
HASH = ', features = ["hashbrown"]'
DEMO = '''cat > "$D/none" 2>/dev/null
'''
SEEDS = [
 dict(id="c11-hash-batch", property="C11",
  edits=[(HS, "        self.inner.retain(|&value| func(value));\n", '''        // Rejected values are put aside first, to remove them in one go.
        let mut rejected = [None; 32];
        let mut n = 0;

        for &value in &self.inner {
            if !func(value) {
                rejected[n % 32] = Some(value);
                n += 1;
            }
        }

        for value in rejected.into_iter().flatten() {
            self.inner.remove(&value);
        }
''')],
  needs="a set over hashed keys of which more than 32 are rejected at once", breaks="only the last 32 rejected values are removed",
  features=HASH,
  main=PRE + '''
fn main() {
    let mut s: Set<u32> = Set::new();
    for i in 0..100 { s.insert(i); }
    s.retain(|v| v % 2 == 0);
    assert_eq!(s.len(), 50);
    assert!(s.iter().all(|v| v % 2 == 0));
}
'''),
 dict(id="c14-hash-sample", property="C14",
  edits=[(H, "        self.inner.eq(&other.inner)\n", '''        self.inner.len() == other.inner.len()
            && self
                .inner
                .iter()
                .take(64)
                .all(|(key, value)| other.inner.get(key).map_or(false, |v| *v == *value))
''')],
  needs="two maps over hashed keys which differ only beyond the 64th entry", breaks="maps with different contents are equal",
  features=HASH,
  main=PRE + '''
fn main() {
    let mut a: Map<u32, u32> = Map::new();
    for i in 0..200 { a.insert(i, i); }
    for i in 0..200 {
        let mut b = a.clone();
        b.insert(i, 1000);
        assert!(a != b, "{i}");
    }
}
'''),
 dict(id="c22-hash-counter", property="C22",
  edits=[(H, "        self.inner.retain(|&k, v| func(k, v));\n", '''        let mut kept = 0u8;

        self.inner.retain(|&key, value| {
            let keep = func(key, value);
            kept += u8::from(keep);
            keep
        });

        debug_assert_eq!(usize::from(kept), self.inner.len());
''')],
  needs="a map over hashed keys which keeps more than 255 entries, in a debug build", breaks="retain panics",
  features=HASH,
  main=PRE + '''
fn main() {
    let mut a: Map<u32, u32> = Map::new();
    for i in 0..300 { a.insert(i, i); }
    a.retain(|_, _| true);
    assert_eq!(a.len(), 300);
}
'''),
 dict(id="c14-bits-eq-low", property="C14",
  edits=[(U, '''        #[derive(#clone_t, #copy_t, #partial_eq_t, #eq_t, #hash_t)]
        #vis struct #set_storage {
            data: #ty,
        }
''', '''        #[derive(#clone_t, #copy_t, #eq_t, #hash_t)]
        #vis struct #set_storage {
            data: #ty,
        }

        #[automatically_derived]
        impl #partial_eq_t for #set_storage {
            #[inline]
            fn eq(&self, other: &Self) -> bool {
                (self.data ^ other.data) as usize == 0
            }
        }
''')],
  needs="a bitset over more variants than a word has bits, differing in the later ones", breaks="different sets are equal",
  main=PRE + "#[derive(Debug, Clone, Copy, PartialEq, Eq, Key)]\n#[key(bitset)]\nenum Big { %s }\n" % ", ".join("V%d" % i for i in range(90)) + '''
fn main() {
    let mut a: Set<Big> = Set::new();
    a.insert(Big::V3);
    let mut b = a;
    b.insert(Big::V80);
    assert!(a != b);
}
'''),
 dict(id="c13-min-first", property="C13",
  edits=[("src/set/intersection.rs", "    #[inline]\n    fn size_hint(&self)", '''    #[inline]
    fn min(mut self) -> Option<T>
    where
        T: Ord,
    {
        // Elements come in order, so there is no need to look at all of them.
        self.next()
    }

    #[inline]
    fn size_hint(&self)''')],
  needs="a key type whose Ord is not declaration order", breaks="min of an intersection is not its least value",
  main='''use fixed_map::{Key, Set};
use std::cmp::Ordering;
#[derive(Debug, Clone, Copy, PartialEq, Eq, Key)]
enum U { A, B, C }
impl PartialOrd for U { fn partial_cmp(&self, o: &U) -> Option<Ordering> { Some(self.cmp(o)) } }
impl Ord for U { fn cmp(&self, o: &U) -> Ordering { (*o as u8).cmp(&(*self as u8)) } }
fn main() {
    let a = Set::from([U::A, U::B, U::C]);
    let b = Set::from([U::A, U::C]);
    assert_eq!(a.intersection(&b).min(), Some(U::C));
}
'''),
 dict(id="c15-le-not-gt", property="C15",
  edits=[("src/map.rs", "        self.storage.le(&other.storage)\n", "        !self.storage.gt(&other.storage)\n")],
  needs="values without an order among them", breaks="<= holds between maps which do not compare",
  main=PRE + '''
fn main() {
    let mut a: Map<U, f32> = Map::new();
    a.insert(U::B, f32::NAN);
    let b = a;
    assert_eq!(a.partial_cmp(&b), None);
    assert!(!(a <= b));
    assert!(!(a >= b));
}
'''),
 dict(id="c20-or-insert-leak", property="C20",
  edits=[("src/map/entry.rs", '''    pub fn or_insert(self, default: V) -> &'a mut V {
        match self {
            Entry::Occupied(entry) => entry.into_mut(),
''', '''    pub fn or_insert(self, default: V) -> &'a mut V {
        match self {
            Entry::Occupied(entry) => {
                // Nothing of the default is needed any more.
                let _default = core::mem::ManuallyDrop::new(default);
                entry.into_mut()
            }
''')],
  needs="or_insert on an occupied entry with a value which owns something", breaks="the default is never dropped",
  main=PRE + '''
use std::rc::Rc;
fn main() {
    let r = Rc::new(());
    let mut m: Map<U, Rc<()>> = Map::new();
    m.entry(U::A).or_insert(r.clone());
    m.entry(U::A).or_insert(r.clone());
    drop(m);
    assert_eq!(Rc::strong_count(&r), 1);
}
'''),
 dict(id="c28-iter-clone", property="C28",
  edits=[(A, '''        impl<#lt, V> #clone_t for #type_name<#lt, V> where V: #lt {
            #[inline]
            fn clone(&self) -> Self {
                Self {
                    start: self.start,
                    end: self.end,
                    #(#names: #clone_t::clone(&self.#names),)*
                }
            }
        }

        #[automatically_derived]
        impl<#lt, V> #iterator_t for #type_name<#lt, V> where V: #lt {
            type Item = (#ident, &#lt V);
''', '''        impl<#lt, V> #clone_t for #type_name<#lt, V> where V: #lt + #clone_t {
            #[inline]
            fn clone(&self) -> Self {
                Self {
                    start: self.start,
                    end: self.end,
                    #(#names: #clone_t::clone(&self.#names),)*
                }
            }
        }

        #[automatically_derived]
        impl<#lt, V> #iterator_t for #type_name<#lt, V> where V: #lt {
            type Item = (#ident, &#lt V);
''')],
  needs="an iterator over a composite key with values which are not Clone", breaks="the iterator cannot be cloned",
  main=PRE + '''
struct V(u32);
fn main() {
    let mut m: Map<Mix, V> = Map::new();
    m.insert(Mix::P, V(1));
    let i = m.iter();
    assert_eq!(i.clone().count() + i.count(), 2);
}
'''),
 dict(id="c01-composite-contains", property="C01",
  edits=[(A, "                quote!(#as_map_storage::contains_key(&self.#name, __v))\n", '''                quote!(!#as_map_storage::is_empty(&self.#name) && #as_map_storage::get(&self.#name, __v).is_some() | (::core::mem::size_of_val(&__v) > 1))
''')],
  needs="a payload larger than a byte, with another of its keys stored", breaks="contains_key answers for the payload as a whole",
  main=PRE + '''
#[derive(Debug, Clone, Copy, PartialEq, Eq, Key)]
enum W { P, Q(Mix) }
fn main() {
    let mut m: Map<W, u32> = Map::new();
    m.insert(W::Q(Mix::P), 1);
    assert!(!m.contains_key(W::Q(Mix::R)));
}
'''),
 dict(id="c25-binding-case", property="C25",
  edits=[(U, '''        names.push(format_ident!("_{}", index));''', '''        names.push(format_ident!("_{}", en.variants[index].ident.to_string().to_lowercase()));''')],
  needs="two variants whose names differ in case only", breaks="the derive generates code which does not compile",
  main='''use fixed_map::{Key, Map};
#[allow(non_camel_case_types)]
#[derive(Clone, Copy, Key)]
enum E { Ab, AB, c }
fn main() {
    let mut m: Map<E, u32> = Map::new();
    m.insert(E::Ab, 1);
    m.insert(E::AB, 2);
    assert_eq!(m.get(E::Ab), Some(&1));
}
'''),
 dict(id="c04-count-hint", property="C04",
  edits=[(A, '''            type Item = (#ident, &#lt V);

            #[inline]
            fn next(&mut self) -> #option<Self::Item> {
                #step_forward
                #option::None
            }
''', '''            type Item = (#ident, &#lt V);

            #[inline]
            fn next(&mut self) -> #option<Self::Item> {
                #step_forward
                #option::None
            }

            #[inline]
            fn nth(&mut self, n: usize) -> #option<Self::Item> {
                // Each step leaves at least one field behind.
                if n >= self.end - self.start {
                    self.start = self.end;
                    return #option::None;
                }

                for _ in 0..n {
                    #iterator_t::next(self)?;
                }

                #iterator_t::next(self)
            }
''')],
  needs="nth beyond the number of variants, with a variant holding several keys", breaks="nth gives up while there are entries left",
  main=PRE + '''
fn main() {
    let mut m: Map<Mix, u32> = Map::new();
    for (i, k) in [Mix::P, Mix::Q(false), Mix::Q(true), Mix::R, Mix::S(Some(U::A)), Mix::S(Some(U::B)), Mix::S(None), Mix::T(())].into_iter().enumerate() {
        m.insert(k, i as u32);
    }
    assert_eq!(m.len(), 8);
    for n in 0..9 {
        assert_eq!(m.iter().nth(n).is_some(), n < 8, "{n}");
    }
}
'''),
]
