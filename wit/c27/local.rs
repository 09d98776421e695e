//! Nothing borrowed from a map or set which is gone can be returned.

use fixed_map::map::{Entry, OccupiedEntry, VacantEntry};
type K = KEY;
fn get<'a>(k: K) -> Option<&'a String> {
    let m: Map<K, String> = Map::new();
    return m.get(k); //~ E0515
    None
}
fn get_mut<'a>(k: K) -> Option<&'a mut String> {
    let mut m: Map<K, String> = Map::new();
    return m.get_mut(k); //~ E0515
    None
}
fn iter<'a>() -> Option<(K, &'a String)> {
    let m: Map<K, String> = Map::new();
    return m.iter().next(); //~ E0515
    None
}
fn iter_itself<'a>() -> Option<map::Iter<'a, K, String>> {
    let m: Map<K, String> = Map::new();
    return Some(m.iter()); //~ E0515
    None
}
fn keys_itself<'a>() -> Option<map::Keys<'a, K, &'a String>> {
    let s = String::new();
    let m: Map<K, &String> = Map::new();
    let _ = &s;
    None
}
fn values<'a>() -> Option<&'a String> {
    let m: Map<K, String> = Map::new();
    return m.values().next(); //~ E0515
    None
}
fn iter_mut<'a>() -> Option<(K, &'a mut String)> {
    let mut m: Map<K, String> = Map::new();
    return m.iter_mut().next(); //~ E0515
    None
}
fn values_mut<'a>() -> Option<&'a mut String> {
    let mut m: Map<K, String> = Map::new();
    return m.values_mut().next(); //~ E0515
    None
}
fn or_insert<'a>(k: K, d: &'a mut String) -> &'a mut String {
    let mut m: Map<K, String> = Map::new();
    return m.entry(k).or_insert(String::new()); //~ E0515
    d
}
fn into_mut<'a>(k: K) -> Option<&'a mut String> {
    let mut m: Map<K, String> = Map::new();
    if let Entry::Occupied(e) = m.entry(k) {
        return Some(e.into_mut()); //~ E0515
    }
    None
}
fn vacant<'a>(k: K) -> Option<&'a mut String> {
    let mut m: Map<K, String> = Map::new();
    if let Entry::Vacant(e) = m.entry(k) {
        return Some(e.insert(String::new())); //~ E0515
    }
    None
}
fn entry_get<'a>(m: &'a mut Map<K, String>, k: K) -> Option<&'a String> {
    if let Entry::Occupied(e) = m.entry(k) {
        return Some(OccupiedEntry::<K, String>::get(&e)); //~ E0515
    }
    None
}
fn entry_get_mut<'a>(m: &'a mut Map<K, String>, k: K) -> Option<&'a mut String> {
    if let Entry::Occupied(mut e) = m.entry(k) {
        return Some(OccupiedEntry::<K, String>::get_mut(&mut e)); //~ E0515
    }
    None
}
fn intersection<'a>(a: &'a Set<K>) -> Option<set::Intersection<'a, K>> {
    let b: Set<K> = Set::new();
    return Some(a.intersection(&b)); //~ E0515
    None
}
fn intersection_other<'a>(a: &'a Set<K>) -> Option<set::Intersection<'a, K>> {
    let b: Set<K> = Set::new();
    return Some(b.intersection(a)); //~ E0515
    None
}
fn longer<'a, 'b>(m: &'b Map<K, &'a str>, k: K) -> Option<&'a &'a str> {
    return m.get(k); //~ =lifetime_may_not_live_long_enough
    None
}
fn longer_iter<'a, 'b>(m: &'b Map<K, String>) -> Option<map::Iter<'a, K, String>> {
    return Some(m.iter()); //~ =lifetime_may_not_live_long_enough
    None
}
fn longer_item<'a, 'b>(m: &'b Map<K, String>) -> Option<(K, &'a String)> {
    return m.iter().next(); //~ =lifetime_may_not_live_long_enough
    None
}
fn longer_value<'a, 'b>(m: &'b mut Map<K, String>) -> Option<&'a mut String> {
    return m.values_mut().next(); //~ =lifetime_may_not_live_long_enough
    None
}
fn longer_entry<'a, 'b>(m: &'b mut Map<K, String>, k: K, d: &'a mut String) -> &'a mut String {
    return m.entry(k).or_default(); //~ =lifetime_may_not_live_long_enough
    d
}
fn shorter_value<'a, 'b>(m: &mut Map<K, &'a str>, v: &'b str, k: K) {
    m.insert(k, v); //~ =lifetime_may_not_live_long_enough|E0521
}
fn shorter_value_entry<'a, 'b>(m: &mut Map<K, &'a str>, v: &'b str, k: K) {
    m.entry(k).or_insert(v); //~ =lifetime_may_not_live_long_enough|E0521
}
fn shorter_value_get_mut<'a, 'b>(m: &mut Map<K, &'a str>, v: &'b str, k: K) {
    if let Some(r) = m.get_mut(k) { *r = v; } //~ =lifetime_may_not_live_long_enough|E0521
}
fn shorter_value_iter_mut<'a, 'b>(m: &mut Map<K, &'a str>, v: &'b str) {
    for (_, r) in m.iter_mut() { *r = v; } //~ =lifetime_may_not_live_long_enough|E0521
}
fn shorter_value_values_mut<'a, 'b>(m: &mut Map<K, &'a str>, v: &'b str) {
    for r in m.values_mut() { *r = v; } //~ =lifetime_may_not_live_long_enough|E0521
}
fn shorter_value_retain<'a, 'b>(m: &mut Map<K, &'a str>, v: &'b str) {
    m.retain(|_, r| {
        *r = v; //~ =lifetime_may_not_live_long_enough|E0521
        true
    });
}
fn leak_retain<'a>(m: &'a mut Map<K, String>) {
    let mut out: Vec<&'a mut String> = Vec::new();
    m.retain(|_, r| {
        out.push(r); //~ =lifetime_may_not_live_long_enough|E0521|=borrowed_data_escapes_outside_of_closure
        true
    });
}
