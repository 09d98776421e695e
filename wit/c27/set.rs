//! The same for sets and for the keys of a map.

//@ hashed: only
type K = KEY;
fn touch<T>(_: T) {}
fn iter_insert(s: &mut Set<K>, k: K) {
    let mut i = s.iter();
    s.insert(k); //~ E0502
    touch(i.next());
}
fn iter_remove(s: &mut Set<K>, k: K) {
    let mut i = s.iter();
    s.remove(k); //~ E0502
    touch(i.next());
}
fn iter_clear(s: &mut Set<K>) {
    let mut i = s.iter();
    s.clear(); //~ E0502
    touch(i.next());
}
fn iter_assigned(mut s: Set<K>) {
    let mut i = s.iter();
    s = Set::new(); //~ E0506
    touch(i.next());
}
fn iter_outlives<'a>() -> Option<set::Iter<'a, K>> {
    let s: Set<K> = Set::new();
    return Some(s.iter()); //~ E0515
    None
}
fn ref_iter(s: &mut Set<K>, k: K) {
    for _ in &*s {
        s.insert(k); //~ E0502
    }
}
fn intersection(a: &mut Set<K>, b: &mut Set<K>, k: K) {
    let mut i = a.intersection(b);
    a.insert(k); //~ E0502
    touch(i.next());
}
fn intersection_other(a: &mut Set<K>, b: &mut Set<K>, k: K) {
    let mut i = a.intersection(b);
    b.insert(k); //~ E0502
    touch(i.next());
}
fn keys_insert(m: &mut Map<K, String>, k: K) {
    let mut i = m.keys();
    m.insert(k, String::new()); //~ E0502
    touch(i.next());
}
fn keys_moved(m: Map<K, String>, k: K) {
    let mut i = m.keys();
    drop(m); //~ E0505
    touch(i.next());
}
