// The storage inside a container is out of reach.
#![allow(dead_code, unused)]
use fixed_map::{Key, Map, Set};
#[derive(Clone, Copy, Key)]
enum K { A, B(bool), C }
#[derive(Clone, Copy, Key)]
enum U { A, B, C }
fn map_inside(m: Map<K, u8>) { let s = m.storage; } //~ E0616|E0609
fn set_inside(m: Set<K>) { let s = m.storage; } //~ E0616|E0609
fn map_made(s: <K as Key>::MapStorage<u8>) { let m: Map<K, u8> = Map { storage: s }; } //~ E0451|E0560
fn set_made(s: <K as Key>::SetStorage) { let m: Set<K> = Set { storage: s }; } //~ E0451|E0560
fn entry_copied<'a>(e: fixed_map::map::Entry<'a, <K as Key>::MapStorage<u8>, K, u8>) { drop(e.clone()); } //~ E0599
fn iter_mut_copied<'a>(e: fixed_map::map::IterMut<'a, K, u8>) { drop(e.clone()); } //~ E0599|E0277
fn values_mut_copied<'a>(e: fixed_map::map::ValuesMut<'a, K, u8>) { drop(e.clone()); } //~ E0599|E0277
fn u_iter_mut_copied<'a>(e: fixed_map::map::IterMut<'a, U, u8>) { drop(e.clone()); } //~ E0599|E0277
fn u_values_mut_copied<'a>(e: fixed_map::map::ValuesMut<'a, U, u8>) { drop(e.clone()); } //~ E0599|E0277
fn b_iter_mut_copied<'a>(e: fixed_map::map::IterMut<'a, bool, u8>) { drop(e.clone()); } //~ E0599|E0277
fn o_iter_mut_copied<'a>(e: fixed_map::map::IterMut<'a, Option<bool>, u8>) { drop(e.clone()); } //~ E0599|E0277
fn s_iter_mut_copied<'a>(e: fixed_map::map::IterMut<'a, (), u8>) { drop(e.clone()); } //~ E0599|E0277
fn h_iter_mut_copied<'a>(e: fixed_map::map::IterMut<'a, u32, u8>) { drop(e.clone()); } //~ E0599|E0277
