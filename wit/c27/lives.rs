//! What is borrowed lives exactly as long as the container is borrowed, not
//! less: items outlive their iterators and entries.

use fixed_map::map::{Entry, OccupiedEntry, VacantEntry};
type K = KEY;
fn get<'a>(m: &'a Map<K, String>, k: K) -> Option<&'a String> { m.get(k) }
fn get_mut<'a>(m: &'a mut Map<K, String>, k: K) -> Option<&'a mut String> { m.get_mut(k) }
fn iter<'a>(m: &'a Map<K, String>) -> Option<(K, &'a String)> { m.iter().next() }
fn iter_itself<'a>(m: &'a Map<K, String>) -> map::Iter<'a, K, String> { m.iter() }
fn iter_for<'a>(m: &'a Map<K, String>) -> map::Iter<'a, K, String> { m.into_iter() }
fn iter_mut_for<'a>(m: &'a mut Map<K, String>) -> map::IterMut<'a, K, String> { m.into_iter() }
fn keys<'a>(m: &'a Map<K, String>) -> map::Keys<'a, K, String> { m.keys() }
fn a_key<'a>(m: &Map<K, String>) -> Option<K> { m.keys().next() }
fn values<'a>(m: &'a Map<K, String>) -> Vec<&'a String> { m.values().collect() }
fn iter_mut<'a>(m: &'a mut Map<K, String>) -> Vec<(K, &'a mut String)> { m.iter_mut().collect() }
fn values_mut<'a>(m: &'a mut Map<K, String>) -> Vec<&'a mut String> { m.values_mut().collect() }
fn entry<'a>(m: &'a mut Map<K, String>, k: K) -> Entry<'a, <K as Key>::MapStorage<String>, K, String> { m.entry(k) }
fn or_insert<'a>(m: &'a mut Map<K, String>, k: K) -> &'a mut String { m.entry(k).or_insert(String::new()) }
fn or_insert_with<'a>(m: &'a mut Map<K, String>, k: K) -> &'a mut String { m.entry(k).or_insert_with(String::new) }
fn or_insert_with_key<'a>(m: &'a mut Map<K, String>, k: K) -> &'a mut String { m.entry(k).or_insert_with_key(|_| String::new()) }
fn or_default<'a>(m: &'a mut Map<K, String>, k: K) -> &'a mut String { m.entry(k).and_modify(|v| v.push('x')).or_default() }
fn both<'a>(m: &'a mut Map<K, String>, k: K) -> &'a mut String {
    match m.entry(k) {
        Entry::Occupied(e) => e.into_mut(),
        Entry::Vacant(e) => e.insert(String::new()),
    }
}
fn set_iter<'a>(s: &'a Set<K>) -> set::Iter<'a, K> { s.iter() }
fn set_for<'a>(s: &'a Set<K>) -> set::Iter<'a, K> { s.into_iter() }
fn intersection<'a>(s: &'a Set<K>, t: &'a Set<K>) -> set::Intersection<'a, K> { s.intersection(t) }
fn shared(m: &Map<K, String>, k: K) -> usize {
    let a = m.iter();
    let b = m.iter();
    let c = m.get(k);
    let d = m.keys();
    a.count() + b.count() + c.map_or(0, |c| c.len()) + d.count()
}
fn borrowed_values<'a>(a: &'a str, k: K) -> Option<&'a str> {
    let mut m: Map<K, &'a str> = Map::new();
    m.insert(k, a);
    m.get(k).copied()
}
fn borrowed_value_by_iter<'a>(m: Map<K, &'a str>) -> Option<&'a str> { m.into_iter().next().map(|(_, v)| v) }
fn removed(m: &mut Map<K, String>, k: K) -> Option<String> {
    match m.entry(k) {
        Entry::Occupied(mut e) => {
            OccupiedEntry::<K, String>::get_mut(&mut e).push('x');
            let n = OccupiedEntry::<K, String>::get(&e).len();
            OccupiedEntry::<K, String>::insert(&mut e, String::new());
            Some(OccupiedEntry::<K, String>::remove(e))
        }
        Entry::Vacant(_) => None,
    }
}
