//! C18: serde.
use crate::fm;
use crate::h::*;
use crate::ser::*;
use core::fmt;
use core::marker::PhantomData;
use fixed_map::{Map, Set};
use serde::de::{DeserializeSeed, MapAccess, SeqAccess, Visitor};
use serde::ser::{SerializeMap, SerializeSeq};
use serde::{Deserialize, Deserializer, Serialize, Serializer};

// ---- writing ---------------------------------------------------------------
pub struct At(usize, u32);
impl<S: Shape> Item<S> for At {
    fn ix(&self) -> usize {
        self.0
    }
    fn v(&self) -> u32 {
        self.1
    }
    fn put(self, _: u32) {}
}
struct Out<S>(PhantomData<S>);
impl<S: Shape> Out<S> {
    fn start(&self, len: Option<usize>) -> Result<(), Er> {
        ck(x::<S>(STARTED) == 0, "one container is written");
        sx::<S>(STARTED, 1);
        sx::<S>(LEN, match len {
            Some(n) => n as u32 + 1,
            None => 0,
        });
        if at(S::N, 4) {
            return Err(fail::<S>(1));
        }
        Ok(())
    }
}
const R: Ref = Ref { r: A, seen: SEEN };
impl<S: Shape> SerializeMap for Out<S> {
    type Ok = u32;
    type Error = Er;
    fn serialize_key<T: Serialize + ?Sized>(&mut self, k: &T) -> Result<(), Er> {
        let c = match k.serialize(Code) {
            Ok(c) => c,
            Err(e) => return Err(e),
        };
        ck(x::<S>(OPEN) == 0, "a key is followed by its value");
        let i = find::<S>(c);
        sx::<S>(OPEN, i as u32 + 1);
        if pick::<S>(i, 5) {
            return Err(fail::<S>(2));
        }
        Ok(())
    }
    fn serialize_value<T: Serialize + ?Sized>(&mut self, v: &T) -> Result<(), Er> {
        let v = match v.serialize(Code) {
            Ok(v) => v,
            Err(e) => return Err(e),
        };
        ck(x::<S>(OPEN) != 0, "a value follows its key");
        let i = (x::<S>(OPEN) as usize).wrapping_sub(1);
        R.tick_front::<S, _>(&At(i, v));
        sx::<S>(OPEN, 0);
        if pick::<S>(i, 6) {
            return Err(fail::<S>(3));
        }
        Ok(())
    }
    fn end(self) -> Result<u32, Er> {
        ck(x::<S>(OPEN) == 0, "a key is followed by its value");
        R.done::<S>();
        sx::<S>(ENDED, 1);
        if at(S::N, 5) {
            return Err(fail::<S>(4));
        }
        Ok(77)
    }
}
impl<S: Shape> SerializeSeq for Out<S> {
    type Ok = u32;
    type Error = Er;
    fn serialize_element<T: Serialize + ?Sized>(&mut self, k: &T) -> Result<(), Er> {
        let c = match k.serialize(Code) {
            Ok(c) => c,
            Err(e) => return Err(e),
        };
        let i = find::<S>(c);
        R.tick_front::<S, _>(&At(i, val(i)));
        if pick::<S>(i, 5) {
            return Err(fail::<S>(2));
        }
        Ok(())
    }
    fn end(self) -> Result<u32, Er> {
        R.done::<S>();
        sx::<S>(ENDED, 1);
        if at(S::N, 5) {
            return Err(fail::<S>(4));
        }
        Ok(77)
    }
}
struct Top<S> {
    map: bool,
    s: PhantomData<S>,
}
macro_rules! nob {
    ($($f:ident $t:ty;)*) => {$( fn $f(self, _: $t) -> Result<u32, Er> { wrong() } )*};
}
fn wrong<T>() -> T {
    ck(false, "a map is written as a map and a set as a sequence");
    fm::undecided()
}
impl<S: Shape> Serializer for Top<S> {
    type Ok = u32;
    type Error = Er;
    fn is_human_readable(&self) -> bool {
        readable()
    }
    type SerializeSeq = Out<S>;
    type SerializeTuple = No;
    type SerializeTupleStruct = No;
    type SerializeTupleVariant = No;
    type SerializeMap = Out<S>;
    type SerializeStruct = No;
    type SerializeStructVariant = No;
    nob! { serialize_bool bool; serialize_u32 u32; serialize_i8 i8; serialize_i16 i16; serialize_i32 i32; serialize_i64 i64; serialize_u8 u8; serialize_u16 u16;
    serialize_u64 u64; serialize_f32 f32; serialize_f64 f64; serialize_char char; serialize_str &str; serialize_bytes &[u8];
    serialize_unit_struct &'static str; }
    fn serialize_unit(self) -> Result<u32, Er> {
        wrong()
    }
    fn serialize_none(self) -> Result<u32, Er> {
        wrong()
    }
    fn serialize_some<T: Serialize + ?Sized>(self, _: &T) -> Result<u32, Er> {
        wrong()
    }
    fn serialize_unit_variant(self, _: &'static str, _: u32, _: &'static str) -> Result<u32, Er> {
        wrong()
    }
    fn serialize_newtype_struct<T: Serialize + ?Sized>(self, _: &'static str, _: &T) -> Result<u32, Er> {
        wrong()
    }
    fn serialize_newtype_variant<T: Serialize + ?Sized>(self, _: &'static str, _: u32, _: &'static str, _: &T) -> Result<u32, Er> {
        wrong()
    }
    fn serialize_seq(self, n: Option<usize>) -> Result<Out<S>, Er> {
        ck(!self.map, "a map is written as a map and a set as a sequence");
        let o = Out(PhantomData);
        match o.start(n) {
            Ok(()) => Ok(o),
            Err(e) => Err(e),
        }
    }
    fn serialize_tuple(self, _: usize) -> Result<No, Er> {
        wrong()
    }
    fn serialize_tuple_struct(self, _: &'static str, _: usize) -> Result<No, Er> {
        wrong()
    }
    fn serialize_tuple_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> Result<No, Er> {
        wrong()
    }
    fn serialize_map(self, n: Option<usize>) -> Result<Out<S>, Er> {
        ck(self.map, "a map is written as a map and a set as a sequence");
        let o = Out(PhantomData);
        match o.start(n) {
            Ok(()) => Ok(o),
            Err(e) => Err(e),
        }
    }
    fn serialize_struct(self, _: &'static str, _: usize) -> Result<No, Er> {
        wrong()
    }
    fn serialize_struct_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> Result<No, Er> {
        wrong()
    }
    fn collect_str<T: fmt::Display + ?Sized>(self, _: &T) -> Result<u32, Er> {
        wrong()
    }
}
fn written<S: Shape>(r: Result<u32, Er>) {
    ck(x::<S>(STARTED) == 1, "one container is written");
    ck(x::<S>(LEN) as usize == count::<S>(A) + 1, "the announced length is the number of entries");
    match r {
        Ok(v) => {
            ck(x::<S>(FAIL) == 0, "an error of the serializer is returned");
            ck((x::<S>(ENDED) == 1) & (v == 77), "the container is written to its end");
        }
        Err(e) => ck((e.0 == x::<S>(FAIL)) & (e.0 != 0), "only an error of the serializer is returned"),
    }
}
fn write_map<S: Shape + Serialize>() {
    table::<S>();
    let m = map::<S>(A, 0);
    clear::<S>(SEEN);
    written::<S>(m.serialize(Top::<S> { map: true, s: PhantomData }));
    agrees(&m, A, "serializing changes nothing");
}
fn write_set<S: Shape + Serialize>() {
    table::<S>();
    let m = set::<S>(A, 0);
    clear::<S>(SEEN);
    written::<S>(m.serialize(Top::<S> { map: false, s: PhantomData }));
    set_agrees(&m, A, "serializing changes nothing");
}
/// A value or key that fails to serialize itself.
#[derive(Clone, Copy)]
pub struct Bad(u32);
impl Serialize for Bad {
    fn serialize<Z: Serializer>(&self, s: Z) -> Result<Z::Ok, Z::Error> {
        if at(self.0 as usize, 7) {
            return Err(<Z::Error as serde::ser::Error>::custom(""));
        }
        s.serialize_u32(val(self.0 as usize))
    }
}
fn bad_value<S: Shape + Serialize>() {
    table::<S>();
    let mut m = Map::<S, Bad>::new();
    let mut any = false;
    let mut i = 0;
    while i < S::N {
        if at(i, 0) {
            m.insert(S::key(i), Bad(i as u32));
            gs::<S>(A, i, val(i));
            any = any | at(i, 7);
        }
        fm::assume(!at(i, 5) & !at(i, 6));
        i += 1;
    }
    fm::assume(!at(S::N, 4) & !at(S::N, 5));
    match m.serialize(Top::<S> { map: true, s: PhantomData }) {
        Ok(_) => ck(!any, "an error of a value is returned"),
        Err(e) => ck(any & (e.0 == MADE_UP), "an error of a value is returned"),
    }
}

// ---- reading ---------------------------------------------------------------
/// The input: sweeps over the universe, an error anywhere.
struct In<S> {
    p: usize,
    i: usize,
    map: bool,
    v: u32,
    bad: bool,
    s: PhantomData<S>,
}
impl<S: Shape> In<S> {
    fn new(map: bool) -> Self {
        In { p: 0, i: 0, map, v: 0, bad: false, s: PhantomData }
    }
    fn step(&mut self) -> Result<Option<usize>, Er> {
        ck(x::<S>(FAIL) == 0, "nothing goes on after an error");
        ck(x::<S>(OPEN) == 0, "every value is read");
        while self.p < 2 {
            while self.i < S::N {
                let i = if self.p == 1 { S::N - 1 - self.i } else { self.i };
                self.i += 1;
                if at(i, 1 + self.p) {
                    if at(i, 3 + self.p) {
                        return Err(fail::<S>(5));
                    }
                    self.v = val(i) + 1000 * self.p as u32;
                    self.bad = self.map & at(i, 5 + self.p);
                    if !self.bad {
                        // once its value is out too
                        gs::<S>(A, i, if self.map { self.v } else { 1 });
                    }
                    sx::<S>(OPEN, self.map as u32);
                    return Ok(Some(i));
                }
            }
            self.p += 1;
            self.i = 0;
        }
        if at(S::N, 3) {
            return Err(fail::<S>(6));
        }
        sx::<S>(ENDED, 1);
        Ok(None)
    }
    fn hint(&self) -> Option<usize> {
        if at(S::N, 9) {
            None
        } else if at(S::N, 10) {
            Some(0)
        } else if at(S::N, 11) {
            Some(usize::MAX)
        } else {
            Some(1)
        }
    }
}
impl<'d, S: Shape> MapAccess<'d> for In<S> {
    type Error = Er;
    fn next_key_seed<K: DeserializeSeed<'d>>(&mut self, k: K) -> Result<Option<K::Value>, Er> {
        match self.step() {
            Ok(Some(i)) => match k.deserialize(De(g::<S>(SEEN2, i))) {
                Ok(k) => Ok(Some(k)),
                Err(e) => Err(e),
            },
            Ok(None) => Ok(None),
            Err(e) => Err(e),
        }
    }
    fn next_value_seed<V: DeserializeSeed<'d>>(&mut self, v: V) -> Result<V::Value, Er> {
        ck(x::<S>(OPEN) == 1, "a value is read after its key");
        sx::<S>(OPEN, 0);
        if self.bad {
            return Err(fail::<S>(7));
        }
        v.deserialize(De(self.v))
    }
    fn size_hint(&self) -> Option<usize> {
        self.hint()
    }
}
impl<'d, S: Shape> SeqAccess<'d> for In<S> {
    type Error = Er;
    fn next_element_seed<K: DeserializeSeed<'d>>(&mut self, k: K) -> Result<Option<K::Value>, Er> {
        match self.step() {
            Ok(Some(i)) => match k.deserialize(De(g::<S>(SEEN2, i))) {
                Ok(k) => Ok(Some(k)),
                Err(e) => Err(e),
            },
            Ok(None) => Ok(None),
            Err(e) => Err(e),
        }
    }
    fn size_hint(&self) -> Option<usize> {
        self.hint()
    }
}
/// The whole input.
macro_rules! wrong_de {
    ($($f:ident)*) => {$( fn $f<V: Visitor<'d>>(self, _: V) -> Result<V::Value, Er> { wrong_r() } )*};
}
fn wrong_r<T>() -> T {
    ck(false, "a map is read as a map and a set as a sequence");
    fm::undecided()
}
impl<'d, S: Shape> Deserializer<'d> for In<S> {
    type Error = Er;
    fn is_human_readable(&self) -> bool {
        readable()
    }
    fn deserialize_any<V: Visitor<'d>>(self, v: V) -> Result<V::Value, Er> {
        if self.map {
            v.visit_map(self)
        } else {
            v.visit_seq(self)
        }
    }
    fn deserialize_map<V: Visitor<'d>>(self, v: V) -> Result<V::Value, Er> {
        ck(self.map, "a map is read as a map and a set as a sequence");
        v.visit_map(self)
    }
    fn deserialize_seq<V: Visitor<'d>>(self, v: V) -> Result<V::Value, Er> {
        ck(!self.map, "a map is read as a map and a set as a sequence");
        v.visit_seq(self)
    }
    wrong_de! { deserialize_bool deserialize_u32 deserialize_unit deserialize_option deserialize_i8 deserialize_i16 deserialize_i32 deserialize_i64 deserialize_u8 deserialize_u16 deserialize_u64
    deserialize_f32 deserialize_f64 deserialize_char deserialize_str deserialize_string deserialize_bytes deserialize_byte_buf
    deserialize_identifier deserialize_ignored_any }
    fn deserialize_unit_struct<V: Visitor<'d>>(self, _: &'static str, _: V) -> Result<V::Value, Er> {
        wrong_r()
    }
    fn deserialize_newtype_struct<V: Visitor<'d>>(self, _: &'static str, _: V) -> Result<V::Value, Er> {
        wrong_r()
    }
    fn deserialize_tuple<V: Visitor<'d>>(self, _: usize, _: V) -> Result<V::Value, Er> {
        wrong_r()
    }
    fn deserialize_tuple_struct<V: Visitor<'d>>(self, _: &'static str, _: usize, _: V) -> Result<V::Value, Er> {
        wrong_r()
    }
    fn deserialize_struct<V: Visitor<'d>>(self, _: &'static str, _: &'static [&'static str], _: V) -> Result<V::Value, Er> {
        wrong_r()
    }
    fn deserialize_enum<V: Visitor<'d>>(self, _: &'static str, _: &'static [&'static str], _: V) -> Result<V::Value, Er> {
        wrong_r()
    }
}
fn read_map<S: Shape + Serialize + for<'d> Deserialize<'d>>() {
    table::<S>();
    match Map::<S, u32>::deserialize(In::<S>::new(true)) {
        Ok(m) => {
            ck(x::<S>(FAIL) == 0, "an error of the input is returned");
            ck(x::<S>(ENDED) == 1, "the input is read to its end");
            agrees(&m, A, "every entry of the input is inserted, in order");
            ck(m.len() == count::<S>(A), "every entry of the input is inserted, in order");
        }
        Err(e) => ck((e.0 == x::<S>(FAIL)) & (e.0 != 0), "only an error of the input is returned"),
    }
}
fn read_set<S: Shape + Serialize + for<'d> Deserialize<'d>>() {
    table::<S>();
    match Set::<S>::deserialize(In::<S>::new(false)) {
        Ok(m) => {
            ck(x::<S>(FAIL) == 0, "an error of the input is returned");
            ck(x::<S>(ENDED) == 1, "the input is read to its end");
            set_agrees(&m, A, "every element of the input is inserted");
            ck(m.len() == count::<S>(A), "every element of the input is inserted");
        }
        Err(e) => ck((e.0 == x::<S>(FAIL)) & (e.0 != 0), "only an error of the input is returned"),
    }
}
/// Reading into a container that has a content already leaves the input's only.
fn read_in_place<S: Shape + Serialize + for<'d> Deserialize<'d>>() {
    table::<S>();
    let mut m = Map::<S, u32>::new();
    let mut t = Set::<S>::new();
    let mut i = 0;
    while i < S::N {
        if at(i, 8) {
            m.insert(S::key(i), val(i) + 500);
            t.insert(S::key(i));
        }
        i += 1;
    }
    if at(S::N, 8) {
        match <Map<S, u32> as Deserialize>::deserialize_in_place(In::<S>::new(true), &mut m) {
            Ok(()) => {
                ck(x::<S>(FAIL) == 0, "an error of the input is returned");
                ck(x::<S>(ENDED) == 1, "the input is read to its end");
                agrees(&m, A, "reading in place leaves the input's entries only");
            }
            Err(e) => ck((e.0 == x::<S>(FAIL)) & (e.0 != 0), "only an error of the input is returned"),
        }
    } else {
        match <Set<S> as Deserialize>::deserialize_in_place(In::<S>::new(false), &mut t) {
            Ok(()) => {
                ck(x::<S>(FAIL) == 0, "an error of the input is returned");
                ck(x::<S>(ENDED) == 1, "the input is read to its end");
                set_agrees(&t, A, "reading in place leaves the input's entries only");
            }
            Err(e) => ck((e.0 == x::<S>(FAIL)) & (e.0 != 0), "only an error of the input is returned"),
        }
    }
}
/// A value that rejects what it is given.
pub struct Picky(u32);
impl<'d> Deserialize<'d> for Picky {
    fn deserialize<D: Deserializer<'d>>(d: D) -> Result<Picky, D::Error> {
        match u32::deserialize(d) {
            Ok(v) => {
                if at(v as usize, 14) {
                    Err(<D::Error as serde::de::Error>::custom(""))
                } else {
                    Ok(Picky(v))
                }
            }
            Err(e) => Err(e),
        }
    }
}
fn picky<S: Shape + Serialize + for<'d> Deserialize<'d>>() {
    table::<S>();
    let mut any = false;
    let mut i = 0;
    while i < S::N {
        fm::assume(!at(i, 2) & !at(i, 3) & !at(i, 5));
        any = any | (at(i, 1) & at(val(i) as usize, 14));
        i += 1;
    }
    fm::assume(!at(S::N, 3));
    match Map::<S, Picky>::deserialize(In::<S>::new(true)) {
        Ok(m) => {
            ck(!any, "an error of a value is returned");
            let mut i = 0;
            while i < S::N {
                match m.get(S::key(i)) {
                    Some(p) => ck(p.0 == g::<S>(A, i), "every entry of the input is inserted, in order"),
                    None => ck(g::<S>(A, i) == 0, "every entry of the input is inserted, in order"),
                }
                i += 1;
            }
        }
        Err(e) => ck(any & (e.0 == MADE_UP), "an error of a value is returned"),
    }
}
each_small! {
    write_map_: write_map + [U8];
    write_set_: write_set + [U8, B2, B4, B7, B8, B9];
}
each_tiny! {
    bad_value_: bad_value + [U5];
    read_map_: read_map + [U5];
    read_set_: read_set + [U5, B2, B4, B5, B9];
    picky_: picky + [U5];
    read_in_place_: read_in_place + [];
}
/// Hundreds of keys, all of them stored, and neither side ever fails.
#[cfg(all(crowd, feature = "hash"))]
pub mod crowd {
    use super::*;
    use crate::shapes::Crowd as S;
    use serde::de::value::{MapDeserializer, SeqDeserializer};
    fn sound(_: ()) {
        table::<S>();
        clear::<S>(SEEN);
        let mut i = 0;
        while i < S::N {
            fm::assume(!at(i, 5) & !at(i, 6));
            gs::<S>(A, i, val(i));
            i += 1;
        }
        fm::assume(!at(S::N, 4) & !at(S::N, 5));
    }
    pub fn write_map() {
        sound(());
        let mut m = Map::<S, u32>::new();
        let mut i = 0;
        while i < S::N {
            m.insert(S::key(i), val(i));
            i += 1;
        }
        written::<S>(m.serialize(Top::<S> { map: true, s: PhantomData }));
    }
    pub fn write_set() {
        sound(());
        let mut m = Set::<S>::new();
        let mut i = 0;
        while i < S::N {
            m.insert(S::key(i));
            i += 1;
        }
        written::<S>(m.serialize(Top::<S> { map: false, s: PhantomData }));
    }
    fn entry(i: u64) -> (u64, u32) {
        (i, val(i as usize))
    }
    pub fn read_map() {
        match Map::<S, u32>::deserialize(MapDeserializer::<_, Er>::new((0..S::N as u64).map(entry))) {
            Ok(m) => {
                let mut i = 0;
                while i < S::N {
                    ck(m.get(S::key(i)).copied() == Some(val(i)), "every entry of the input is inserted, in order");
                    i += 1;
                }
                ck(m.len() == S::N, "every entry of the input is inserted, in order");
            }
            Err(_) => ck(false, "only an error of the input is returned"),
        }
    }
    pub fn read_set() {
        match Set::<S>::deserialize(SeqDeserializer::<_, Er>::new(0..S::N as u64)) {
            Ok(m) => {
                let mut i = 0;
                while i < S::N {
                    ck(m.contains(S::key(i)), "every element of the input is inserted");
                    i += 1;
                }
                ck(m.len() == S::N, "every element of the input is inserted");
            }
            Err(_) => ck(false, "only an error of the input is returned"),
        }
    }
}
