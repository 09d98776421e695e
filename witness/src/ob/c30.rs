//! C30: a faithful format gives back what was written.
use crate::fm;
use crate::h::*;
use crate::ser::*;
use core::fmt;
use core::marker::PhantomData;
use fixed_map::{Map, Set};
use serde::de::{DeserializeSeed, MapAccess, SeqAccess, Visitor};
use serde::ser::{SerializeMap, SerializeSeq};
use serde::{Deserialize, Deserializer, Serialize, Serializer};

// The tape: what was written, in the order it was written.
const COUNT: usize = 5;
const POS: usize = 6;
/// Does the format announce how many entries follow, instead of marking the end?
fn prefixed<S: Shape>() -> bool {
    at(S::N, 12)
}
/// Does the format say what comes next?
fn describes<S: Shape>() -> bool {
    at(S::N, 13)
}
fn put<S: Shape>(r: usize, p: u32, v: u32) {
    let mut j = 0;
    while j < S::N {
        if p == j as u32 {
            gs::<S>(r, j, v);
        }
        j += 1;
    }
}
fn take<S: Shape>(r: usize, p: u32) -> u32 {
    let mut v = 0;
    let mut j = 0;
    while j < S::N {
        if p == j as u32 {
            v = g::<S>(r, j);
        }
        j += 1;
    }
    v
}
/// The format has no such form here, or the input has come to its end.
const UNFIT: u32 = 50;
struct Tape<S> {
    map: bool,
    s: PhantomData<S>,
}
impl<S: Shape> Tape<S> {
    fn open(&self, len: Option<usize>) -> Result<(), Er> {
        if x::<S>(STARTED) == 1 {
            return fm::undecided();
        }
        sx::<S>(STARTED, 1);
        match len {
            Some(n) => {
                sx::<S>(LEN, n as u32 + 1);
                Ok(())
            }
            None if prefixed::<S>() => Err(Er(UNFIT)),
            None => Ok(()),
        }
    }
    fn put(&self, r: usize, t: u32) {
        let n = x::<S>(COUNT);
        if n as usize >= S::N {
            return fm::undecided();
        }
        put::<S>(r, n, t);
    }
    /// Is there one more entry to be read?
    fn more(&self) -> Result<bool, Er> {
        let p = x::<S>(POS);
        if prefixed::<S>() {
            if p + 1 >= x::<S>(LEN) {
                return Ok(false);
            }
            if p >= x::<S>(COUNT) {
                return Err(Er(UNFIT));
            }
            Ok(true)
        } else {
            Ok(p < x::<S>(COUNT))
        }
    }
    fn hint(&self) -> Option<usize> {
        if at(S::N, 9) {
            None
        } else if at(S::N, 10) {
            Some(0)
        } else {
            Some(x::<S>(LEN) as usize)
        }
    }
}
impl<S: Shape> SerializeMap for Tape<S> {
    type Ok = u32;
    type Error = Er;
    fn serialize_key<T: Serialize + ?Sized>(&mut self, k: &T) -> Result<(), Er> {
        match k.serialize(Code) {
            Ok(c) => {
                self.put(SNAP, c);
                Ok(())
            }
            Err(e) => Err(e),
        }
    }
    fn serialize_value<T: Serialize + ?Sized>(&mut self, v: &T) -> Result<(), Er> {
        match v.serialize(Code) {
            Ok(c) => {
                self.put(CALLS, c);
                sx::<S>(COUNT, x::<S>(COUNT) + 1);
                Ok(())
            }
            Err(e) => Err(e),
        }
    }
    fn end(self) -> Result<u32, Er> {
        sx::<S>(ENDED, 1);
        Ok(77)
    }
}
impl<S: Shape> SerializeSeq for Tape<S> {
    type Ok = u32;
    type Error = Er;
    fn serialize_element<T: Serialize + ?Sized>(&mut self, k: &T) -> Result<(), Er> {
        match k.serialize(Code) {
            Ok(c) => {
                self.put(SNAP, c);
                sx::<S>(COUNT, x::<S>(COUNT) + 1);
                Ok(())
            }
            Err(e) => Err(e),
        }
    }
    fn end(self) -> Result<u32, Er> {
        sx::<S>(ENDED, 1);
        Ok(77)
    }
}
macro_rules! noc {
    ($($f:ident $t:ty;)*) => {$( fn $f(self, _: $t) -> Result<u32, Er> { fm::undecided() } )*};
}
impl<S: Shape> Serializer for Tape<S> {
    type Ok = u32;
    type Error = Er;
    fn is_human_readable(&self) -> bool {
        readable()
    }
    type SerializeSeq = Tape<S>;
    type SerializeTuple = No;
    type SerializeTupleStruct = No;
    type SerializeTupleVariant = No;
    type SerializeMap = Tape<S>;
    type SerializeStruct = No;
    type SerializeStructVariant = No;
    noc! { serialize_bool bool; serialize_u32 u32; serialize_i8 i8; serialize_i16 i16; serialize_i32 i32; serialize_i64 i64; serialize_u8 u8; serialize_u16 u16;
    serialize_u64 u64; serialize_f32 f32; serialize_f64 f64; serialize_char char; serialize_str &str; serialize_bytes &[u8];
    serialize_unit_struct &'static str; }
    fn serialize_unit(self) -> Result<u32, Er> {
        fm::undecided()
    }
    fn serialize_none(self) -> Result<u32, Er> {
        fm::undecided()
    }
    fn serialize_some<T: Serialize + ?Sized>(self, _: &T) -> Result<u32, Er> {
        fm::undecided()
    }
    fn serialize_unit_variant(self, _: &'static str, _: u32, _: &'static str) -> Result<u32, Er> {
        fm::undecided()
    }
    fn serialize_newtype_struct<T: Serialize + ?Sized>(self, _: &'static str, _: &T) -> Result<u32, Er> {
        fm::undecided()
    }
    fn serialize_newtype_variant<T: Serialize + ?Sized>(self, _: &'static str, _: u32, _: &'static str, _: &T) -> Result<u32, Er> {
        fm::undecided()
    }
    fn serialize_seq(self, n: Option<usize>) -> Result<Tape<S>, Er> {
        if self.map {
            return fm::undecided();
        }
        match self.open(n) {
            Ok(()) => Ok(self),
            Err(e) => Err(e),
        }
    }
    fn serialize_tuple(self, _: usize) -> Result<No, Er> {
        fm::undecided()
    }
    fn serialize_tuple_struct(self, _: &'static str, _: usize) -> Result<No, Er> {
        fm::undecided()
    }
    fn serialize_tuple_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> Result<No, Er> {
        fm::undecided()
    }
    fn serialize_map(self, n: Option<usize>) -> Result<Tape<S>, Er> {
        if !self.map {
            return fm::undecided();
        }
        match self.open(n) {
            Ok(()) => Ok(self),
            Err(e) => Err(e),
        }
    }
    fn serialize_struct(self, _: &'static str, _: usize) -> Result<No, Er> {
        fm::undecided()
    }
    fn serialize_struct_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> Result<No, Er> {
        fm::undecided()
    }
    fn collect_str<T: fmt::Display + ?Sized>(self, _: &T) -> Result<u32, Er> {
        fm::undecided()
    }
}
impl<'d, S: Shape> MapAccess<'d> for Tape<S> {
    type Error = Er;
    fn next_key_seed<K: DeserializeSeed<'d>>(&mut self, k: K) -> Result<Option<K::Value>, Er> {
        match self.more() {
            Ok(true) => match k.deserialize(De(take::<S>(SNAP, x::<S>(POS)))) {
                Ok(k) => Ok(Some(k)),
                Err(e) => Err(e),
            },
            Ok(false) => Ok(None),
            Err(e) => Err(e),
        }
    }
    fn next_value_seed<V: DeserializeSeed<'d>>(&mut self, v: V) -> Result<V::Value, Er> {
        let p = x::<S>(POS);
        sx::<S>(POS, p + 1);
        v.deserialize(De(take::<S>(CALLS, p)))
    }
    fn size_hint(&self) -> Option<usize> {
        self.hint()
    }
}
impl<'d, S: Shape> SeqAccess<'d> for Tape<S> {
    type Error = Er;
    fn next_element_seed<K: DeserializeSeed<'d>>(&mut self, k: K) -> Result<Option<K::Value>, Er> {
        match self.more() {
            Ok(true) => {
                let p = x::<S>(POS);
                sx::<S>(POS, p + 1);
                match k.deserialize(De(take::<S>(SNAP, p))) {
                    Ok(k) => Ok(Some(k)),
                    Err(e) => Err(e),
                }
            }
            Ok(false) => Ok(None),
            Err(e) => Err(e),
        }
    }
    fn size_hint(&self) -> Option<usize> {
        self.hint()
    }
}
macro_rules! unfit_de {
    ($($f:ident)*) => {$( fn $f<V: Visitor<'d>>(self, _: V) -> Result<V::Value, Er> { Err(Er(UNFIT)) } )*};
}
impl<'d, S: Shape> Deserializer<'d> for Tape<S> {
    type Error = Er;
    fn is_human_readable(&self) -> bool {
        readable()
    }
    fn deserialize_any<V: Visitor<'d>>(self, v: V) -> Result<V::Value, Er> {
        if !describes::<S>() {
            Err(Er(UNFIT))
        } else if self.map {
            v.visit_map(self)
        } else {
            v.visit_seq(self)
        }
    }
    fn deserialize_map<V: Visitor<'d>>(self, v: V) -> Result<V::Value, Er> {
        if self.map {
            v.visit_map(self)
        } else {
            Err(Er(UNFIT))
        }
    }
    fn deserialize_seq<V: Visitor<'d>>(self, v: V) -> Result<V::Value, Er> {
        if self.map {
            Err(Er(UNFIT))
        } else {
            v.visit_seq(self)
        }
    }
    unfit_de! { deserialize_bool deserialize_u32 deserialize_unit deserialize_option deserialize_i8 deserialize_i16 deserialize_i32 deserialize_i64 deserialize_u8 deserialize_u16 deserialize_u64
    deserialize_f32 deserialize_f64 deserialize_char deserialize_str deserialize_string deserialize_bytes deserialize_byte_buf
    deserialize_identifier deserialize_ignored_any }
    fn deserialize_unit_struct<V: Visitor<'d>>(self, _: &'static str, _: V) -> Result<V::Value, Er> {
        Err(Er(UNFIT))
    }
    fn deserialize_newtype_struct<V: Visitor<'d>>(self, _: &'static str, v: V) -> Result<V::Value, Er> {
        v.visit_newtype_struct(self)
    }
    fn deserialize_tuple<V: Visitor<'d>>(self, _: usize, _: V) -> Result<V::Value, Er> {
        Err(Er(UNFIT))
    }
    fn deserialize_tuple_struct<V: Visitor<'d>>(self, _: &'static str, _: usize, _: V) -> Result<V::Value, Er> {
        Err(Er(UNFIT))
    }
    fn deserialize_struct<V: Visitor<'d>>(self, _: &'static str, _: &'static [&'static str], _: V) -> Result<V::Value, Er> {
        Err(Er(UNFIT))
    }
    fn deserialize_enum<V: Visitor<'d>>(self, _: &'static str, _: &'static [&'static str], _: V) -> Result<V::Value, Er> {
        Err(Er(UNFIT))
    }
}
fn back_map<S: Shape + Serialize + for<'d> Deserialize<'d>>()
where
    Map<S, u32>: PartialEq,
{
    table::<S>();
    let m = map::<S>(A, 0);
    let w = m.serialize(Tape::<S> { map: true, s: PhantomData });
    ck(w.is_ok() & (x::<S>(ENDED) == 1), "a faithful format writes any map");
    match Map::<S, u32>::deserialize(Tape::<S> { map: true, s: PhantomData }) {
        Ok(n) => {
            ck(x::<S>(POS) == x::<S>(COUNT), "a map is read back to the end of what was written");
            ck((n == m) & (m == n), "a map read back is the map written");
            agrees(&n, A, "a map read back is the map written");
            ck(n.len() == count::<S>(A), "a map read back is the map written");
        }
        Err(_) => ck(false, "a map is read back without an error"),
    }
}
fn back_set<S: Shape + Serialize + for<'d> Deserialize<'d>>()
where
    Set<S>: PartialEq,
{
    table::<S>();
    let m = set::<S>(A, 0);
    let w = m.serialize(Tape::<S> { map: false, s: PhantomData });
    ck(w.is_ok() & (x::<S>(ENDED) == 1), "a faithful format writes any set");
    match Set::<S>::deserialize(Tape::<S> { map: false, s: PhantomData }) {
        Ok(n) => {
            ck(x::<S>(POS) == x::<S>(COUNT), "a set is read back to the end of what was written");
            ck((n == m) & (m == n), "a set read back is the set written");
            set_agrees(&n, A, "a set read back is the set written");
            ck(n.len() == count::<S>(A), "a set read back is the set written");
        }
        Err(_) => ck(false, "a set is read back without an error"),
    }
}
/// Into a container that has a content already.
fn back_map_in_place<S: Shape + Serialize + for<'d> Deserialize<'d>>()
where
    Map<S, u32>: PartialEq,
{
    table::<S>();
    let m = map::<S>(A, 0);
    let mut n = Map::<S, u32>::new();
    let mut i = 0;
    while i < S::N {
        if at(i, 8) {
            n.insert(S::key(i), val(i) + 500);
        }
        i += 1;
    }
    let w = m.serialize(Tape::<S> { map: true, s: PhantomData });
    ck(w.is_ok() & (x::<S>(ENDED) == 1), "a faithful format writes any map");
    match <Map<S, u32> as Deserialize>::deserialize_in_place(Tape::<S> { map: true, s: PhantomData }, &mut n) {
        Ok(()) => {
            ck(n == m, "a map read back in place is the map written");
            agrees(&n, A, "a map read back in place is the map written");
        }
        Err(_) => ck(false, "a map is read back without an error"),
    }
}
fn back_set_in_place<S: Shape + Serialize + for<'d> Deserialize<'d>>()
where
    Set<S>: PartialEq,
{
    table::<S>();
    let m = set::<S>(A, 0);
    let mut n = Set::<S>::new();
    let mut i = 0;
    while i < S::N {
        if at(i, 8) {
            n.insert(S::key(i));
        }
        i += 1;
    }
    let w = m.serialize(Tape::<S> { map: false, s: PhantomData });
    ck(w.is_ok() & (x::<S>(ENDED) == 1), "a faithful format writes any set");
    match <Set<S> as Deserialize>::deserialize_in_place(Tape::<S> { map: false, s: PhantomData }, &mut n) {
        Ok(()) => {
            ck(n == m, "a set read back in place is the set written");
            set_agrees(&n, A, "a set read back in place is the set written");
        }
        Err(_) => ck(false, "a set is read back without an error"),
    }
}
each_tiny! {
    map_: back_map + [U5, Disc, OptMix, Mix];
    set_: back_set + [U5, B2, B4, B5, B9, Disc, OptMix, Mix];
    map_in_place_: back_map_in_place + [];
    set_in_place_: back_set_in_place + [];
}
