//! What is borrowed from a map keeps it borrowed, and is gone before it is.

use fixed_map::map::{Entry, OccupiedEntry, VacantEntry};
type K = KEY;
fn touch<T>(_: T) {}
fn get_insert(m: &mut Map<K, String>, k: K) {
    let r = m.get(k);
    m.insert(k, String::new()); //~ E0502
    touch(r);
}
fn get_clear(m: &mut Map<K, String>, k: K) {
    let r = m.get(k);
    m.clear(); //~ E0502
    touch(r);
}
fn get_remove(m: &mut Map<K, String>, k: K) {
    let r = m.get(k);
    m.remove(k); //~ E0502
    touch(r);
}
fn get_get_mut(m: &mut Map<K, String>, k: K) {
    let r = m.get(k);
    m.get_mut(k); //~ E0502
    touch(r);
}
fn get_mut_get(m: &mut Map<K, String>, k: K) {
    let r = m.get_mut(k);
    m.get(k); //~ E0502
    touch(r);
}
fn get_mut_get_mut(m: &mut Map<K, String>, k: K) {
    let r = m.get_mut(k);
    m.get_mut(k); //~ E0499
    touch(r);
}
fn get_mut_len(m: &mut Map<K, String>, k: K) {
    let r = m.get_mut(k);
    m.len(); //~ E0502
    touch(r);
}
fn get_outlives(k: K) -> usize {
    let r;
    {
        let mut m: Map<K, String> = Map::new();
        let s = String::new();
        r = m.get(k).map_or(0, |s| s.len());
        let _ = m.get(k);
    }
    r
}
fn get_moved(m: Map<K, String>, k: K) {
    let r = m.get(k);
    drop(m); //~ E0505
    touch(r);
}
fn get_mut_moved(mut m: Map<K, String>, k: K) {
    let r = m.get_mut(k);
    drop(m); //~ E0505
    touch(r);
}
fn get_assigned(mut m: Map<K, String>, k: K) {
    let r = m.get(k);
    m = Map::new(); //~ E0506
    touch(r);
}
fn iter_insert(m: &mut Map<K, String>, k: K) {
    let mut i = m.iter();
    m.insert(k, String::new()); //~ E0502
    touch(i.next());
}
fn iter_item_insert(m: &mut Map<K, String>, k: K) {
    let i = m.iter().next();
    m.insert(k, String::new()); //~ E0502
    touch(i);
}
fn ref_iter_insert(m: &mut Map<K, String>, k: K) {
    for (_, v) in &*m {
        m.insert(k, String::new()); //~ E0502
        touch(v);
    }
}
fn iter_retain(m: &mut Map<K, String>, k: K) {
    let i = m.iter().next();
    m.retain(|_, _| true); //~ E0502
    touch(i);
}
fn values_insert(m: &mut Map<K, String>, k: K) {
    let mut i = m.values();
    m.insert(k, String::new()); //~ E0502
    touch(i.next());
}
fn values_item_moved(m: Map<K, String>, k: K) {
    let i = m.values().next();
    drop(m); //~ E0505
    touch(i);
}
fn values_rev_insert(m: &mut Map<K, String>, k: K) {
    let i: Vec<&String> = m.values().collect();
    m.insert(k, String::new()); //~ E0502
    touch(i);
}
fn iter_mut_get(m: &mut Map<K, String>, k: K) {
    let mut i = m.iter_mut();
    m.get(k); //~ E0502
    touch(i.next());
}
fn iter_mut_iter_mut(m: &mut Map<K, String>) {
    let mut i = m.iter_mut();
    let mut j = m.iter_mut(); //~ E0499
    touch(i.next());
}
fn iter_mut_item_insert(m: &mut Map<K, String>, k: K) {
    let i = m.iter_mut().next();
    m.insert(k, String::new()); //~ E0499
    touch(i);
}
fn iter_mut_moved(mut m: Map<K, String>) {
    let i = m.iter_mut().next();
    drop(m); //~ E0505
    touch(i);
}
fn ref_mut_iter(m: &mut Map<K, String>, k: K) {
    for (_, v) in &mut *m {
        m.remove(k); //~ E0499
        touch(v);
    }
}
fn values_mut_len(m: &mut Map<K, String>) {
    let mut i = m.values_mut();
    m.len(); //~ E0502
    touch(i.next());
}
fn values_mut_values_mut(m: &mut Map<K, String>) {
    let i = m.values_mut().next();
    let j = m.values_mut().next(); //~ E0499
    touch(i);
}
fn values_mut_moved(mut m: Map<K, String>) {
    let i = m.values_mut().next();
    drop(m); //~ E0505
    touch(i);
}
fn into_iter_get(m: Map<K, String>, k: K) {
    let i = m.into_iter();
    m.get(k); //~ E0382
    touch(i);
}
fn entry_get(m: &mut Map<K, String>, k: K) {
    let e = m.entry(k);
    m.get(k); //~ E0502
    touch(e);
}
fn entry_entry(m: &mut Map<K, String>, k: K) {
    let e = m.entry(k);
    let f = m.entry(k); //~ E0499
    touch(e);
}
fn entry_moved(mut m: Map<K, String>, k: K) {
    let e = m.entry(k);
    drop(m); //~ E0505
    touch(e.key());
}
fn or_insert_insert(m: &mut Map<K, String>, k: K) {
    let r = m.entry(k).or_insert(String::new());
    m.insert(k, String::new()); //~ E0499
    touch(r);
}
fn or_insert_moved(mut m: Map<K, String>, k: K) {
    let r = m.entry(k).or_insert(String::new());
    drop(m); //~ E0505
    touch(r);
}
fn or_default_get(m: &mut Map<K, String>, k: K) {
    let r = m.entry(k).or_default();
    m.get(k); //~ E0502
    touch(r);
}
fn or_insert_with_clear(m: &mut Map<K, String>, k: K) {
    let r = m.entry(k).or_insert_with(String::new);
    m.clear(); //~ E0499
    touch(r);
}
fn or_insert_with_key_clear(m: &mut Map<K, String>, k: K) {
    let r = m.entry(k).or_insert_with_key(|_| String::new());
    m.clear(); //~ E0499
    touch(r);
}
fn and_modify_clear(m: &mut Map<K, String>, k: K) {
    let r = m.entry(k).and_modify(|v| v.clear());
    m.clear(); //~ E0499
    touch(r);
}
fn vacant_insert_get(m: &mut Map<K, String>, k: K) {
    if let Entry::Vacant(e) = m.entry(k) {
        let r = e.insert(String::new());
        m.get(k); //~ E0502
        touch(r);
    }
}
fn vacant_twice(m: &mut Map<K, String>, k: K) {
    if let Entry::Vacant(e) = m.entry(k) {
        touch(e.insert(String::new()));
        touch(e.insert(String::new())); //~ E0382
    }
}
fn occupied_into_mut_get(m: &mut Map<K, String>, k: K) {
    if let Entry::Occupied(e) = m.entry(k) {
        let r = e.into_mut();
        m.get(k); //~ E0502
        touch(r);
    }
}
fn occupied_get_remove(m: &mut Map<K, String>, k: K) {
    if let Entry::Occupied(e) = m.entry(k) {
        let r = OccupiedEntry::<K, String>::get(&e);
        touch(OccupiedEntry::<K, String>::remove(e)); //~ E0505
        touch(r);
    }
}
fn occupied_get_insert(m: &mut Map<K, String>, k: K) {
    if let Entry::Occupied(mut e) = m.entry(k) {
        let r = OccupiedEntry::<K, String>::get(&e);
        touch(OccupiedEntry::<K, String>::insert(&mut e, String::new())); //~ E0502
        touch(r);
    }
}
fn occupied_get_mut_twice(m: &mut Map<K, String>, k: K) {
    if let Entry::Occupied(mut e) = m.entry(k) {
        let r = OccupiedEntry::<K, String>::get_mut(&mut e);
        touch(OccupiedEntry::<K, String>::get_mut(&mut e)); //~ E0499
        touch(r);
    }
}
fn occupied_get_mut_remove(m: &mut Map<K, String>, k: K) {
    if let Entry::Occupied(mut e) = m.entry(k) {
        let r = OccupiedEntry::<K, String>::get_mut(&mut e);
        touch(OccupiedEntry::<K, String>::remove(e)); //~ E0505
        touch(r);
    }
}
fn occupied_removed(m: &mut Map<K, String>, k: K) {
    if let Entry::Occupied(e) = m.entry(k) {
        touch(OccupiedEntry::<K, String>::remove(e));
        touch(OccupiedEntry::<K, String>::get(&e)); //~ E0382
    }
}
fn occupied_key_insert(m: &mut Map<K, String>, k: K) {
    if let Entry::Occupied(e) = m.entry(k) {
        m.insert(k, String::new()); //~ E0499
        touch(OccupiedEntry::<K, String>::key(&e));
    }
}
fn dangling<'a>(v: &'a str) -> Map<K, &'a str> {
    let m: Map<K, &'a str> = Map::new();
    m
}
fn value_moved(k: K) {
    let s = String::new();
    let mut m: Map<K, &String> = Map::new();
    m.insert(k, &s);
    drop(s); //~ E0505
    touch(m.get(k));
}
