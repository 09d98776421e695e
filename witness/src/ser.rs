//! What the serde clients (C18, C30) share.
use crate::fm;
use crate::h::*;
use core::fmt;
use core::marker::PhantomData;
use fixed_map::{Map, Set};
use serde::de::{DeserializeSeed, MapAccess, SeqAccess, Visitor};
use serde::ser::{Impossible, SerializeMap, SerializeSeq};
use serde::{Deserialize, Deserializer, Serialize, Serializer};

#[derive(Clone, Copy)]
pub struct Er(pub u32);
impl fmt::Debug for Er {
    fn fmt(&self, _: &mut fmt::Formatter<'_>) -> fmt::Result {
        Ok(())
    }
}
impl fmt::Display for Er {
    fn fmt(&self, _: &mut fmt::Formatter<'_>) -> fmt::Result {
        Ok(())
    }
}
impl core::error::Error for Er {}
/// An error fixed-map or serde makes up itself.
pub const MADE_UP: u32 = 99;
impl serde::ser::Error for Er {
    fn custom<T: fmt::Display>(_: T) -> Er {
        Er(MADE_UP)
    }
}
impl serde::de::Error for Er {
    fn custom<T: fmt::Display>(_: T) -> Er {
        Er(MADE_UP)
    }
}
// Analysis state past the regions of h.rs, in region units of its own.
pub const FAIL: usize = 0; // the error given out first, 0 none
pub const LEN: usize = 1; // announced length + 1, 0 for none given
pub const OPEN: usize = 2; // key waiting for its value + 1
pub const ENDED: usize = 3;
pub const STARTED: usize = 4;
pub fn x<S: Shape>(c: usize) -> u32 {
    fm::ghost_get(8 * S::N + c)
}
pub fn sx<S: Shape>(c: usize, v: u32) {
    fm::ghost_set(8 * S::N + c, v)
}
pub fn fail<S: Shape>(e: u32) -> Er {
    ck(x::<S>(FAIL) == 0, "nothing goes on after an error");
    sx::<S>(FAIL, e);
    Er(e)
}

// ---- the number a key or value is written as ---------------------------------
/// A serializer into a number: true 0, false 1, () 0, None 0, Some(x) 1+x.
pub struct Code;
/// Is the format a human-readable one?  Nothing may depend on it.
pub fn readable() -> bool {
    fm::atom(5000 * 16)
}
macro_rules! no {
    ($($f:ident $t:ty;)*) => {$( fn $f(self, _: $t) -> Result<u32, Er> { fm::undecided() } )*};
}
pub type No = Impossible<u32, Er>;
impl Serializer for Code {
    type Ok = u32;
    type Error = Er;
    fn is_human_readable(&self) -> bool {
        readable()
    }
    type SerializeSeq = No;
    type SerializeTuple = No;
    type SerializeTupleStruct = No;
    type SerializeTupleVariant = No;
    type SerializeMap = No;
    type SerializeStruct = No;
    type SerializeStructVariant = No;
    fn serialize_bool(self, b: bool) -> Result<u32, Er> {
        Ok(if b { 0 } else { 1 })
    }
    fn serialize_u32(self, v: u32) -> Result<u32, Er> {
        Ok(v)
    }
    fn serialize_u64(self, v: u64) -> Result<u32, Er> {
        Ok(v as u32)
    }
    fn serialize_unit(self) -> Result<u32, Er> {
        Ok(0)
    }
    fn serialize_none(self) -> Result<u32, Er> {
        Ok(0)
    }
    fn serialize_some<T: Serialize + ?Sized>(self, t: &T) -> Result<u32, Er> {
        match t.serialize(Code) {
            Ok(v) => Ok(v + 1),
            Err(e) => Err(e),
        }
    }
    no! { serialize_i8 i8; serialize_i16 i16; serialize_i32 i32; serialize_i64 i64; serialize_u8 u8; serialize_u16 u16;
    serialize_f32 f32; serialize_f64 f64; serialize_char char; serialize_str &str; serialize_bytes &[u8];
    serialize_unit_struct &'static str; }
    fn serialize_unit_variant(self, _: &'static str, _: u32, _: &'static str) -> Result<u32, Er> {
        fm::undecided()
    }
    fn serialize_newtype_struct<T: Serialize + ?Sized>(self, _: &'static str, _: &T) -> Result<u32, Er> {
        fm::undecided()
    }
    fn serialize_newtype_variant<T: Serialize + ?Sized>(self, _: &'static str, _: u32, _: &'static str, _: &T) -> Result<u32, Er> {
        fm::undecided()
    }
    fn serialize_seq(self, _: Option<usize>) -> Result<No, Er> {
        fm::undecided()
    }
    fn serialize_tuple(self, _: usize) -> Result<No, Er> {
        fm::undecided()
    }
    fn serialize_tuple_struct(self, _: &'static str, _: usize) -> Result<No, Er> {
        fm::undecided()
    }
    fn serialize_tuple_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> Result<No, Er> {
        fm::undecided()
    }
    fn serialize_map(self, _: Option<usize>) -> Result<No, Er> {
        fm::undecided()
    }
    fn serialize_struct(self, _: &'static str, _: usize) -> Result<No, Er> {
        fm::undecided()
    }
    fn serialize_struct_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> Result<No, Er> {
        fm::undecided()
    }
    fn collect_str<T: fmt::Display + ?Sized>(self, _: &T) -> Result<u32, Er> {
        fm::undecided()
    }
}
pub fn code<S: Shape + Serialize>(i: usize) -> u32 {
    match S::key(i).serialize(Code) {
        Ok(v) => v,
        Err(_) => fm::undecided(),
    }
}
/// Each key's number.
pub fn table<S: Shape + Serialize>() {
    let mut i = 0;
    while i < S::N {
        gs::<S>(SEEN2, i, code::<S>(i));
        i += 1;
    }
}
/// The index of the key written as `c`.
pub fn find<S: Shape>(c: u32) -> usize {
    if cfg!(crowd) {
        return c as usize;
    }
    let mut r = S::N;
    let mut i = 0;
    while i < S::N {
        if g::<S>(SEEN2, i) == c {
            r = i;
        }
        i += 1;
    }
    r
}
/// The answer of atom `k` about key `i`, whatever `i`.
pub fn pick<S: Shape>(i: usize, k: usize) -> bool {
    if cfg!(crowd) {
        return at(i, k);
    }
    let mut r = false;
    let mut j = 0;
    while j < S::N {
        if i == j {
            r = at(j, k);
        }
        j += 1;
    }
    r
}

macro_rules! und_de {
    ($($f:ident)*) => {$( fn $f<V: Visitor<'d>>(self, _: V) -> Result<V::Value, Er> { fm::undecided() } )*};
}
/// The number of a key or value.
pub struct De(pub u32);
impl<'d> Deserializer<'d> for De {
    type Error = Er;
    fn is_human_readable(&self) -> bool {
        readable()
    }
    fn deserialize_bool<V: Visitor<'d>>(self, v: V) -> Result<V::Value, Er> {
        v.visit_bool(self.0 == 0)
    }
    fn deserialize_u32<V: Visitor<'d>>(self, v: V) -> Result<V::Value, Er> {
        v.visit_u32(self.0)
    }
    fn deserialize_unit<V: Visitor<'d>>(self, v: V) -> Result<V::Value, Er> {
        v.visit_unit()
    }
    fn deserialize_option<V: Visitor<'d>>(self, v: V) -> Result<V::Value, Er> {
        if self.0 == 0 {
            v.visit_none()
        } else {
            v.visit_some(De(self.0 - 1))
        }
    }
    und_de! { deserialize_any deserialize_i8 deserialize_i16 deserialize_i32 deserialize_i64 deserialize_u8 deserialize_u16 deserialize_u64
    deserialize_f32 deserialize_f64 deserialize_char deserialize_str deserialize_string deserialize_bytes deserialize_byte_buf
    deserialize_seq deserialize_map deserialize_identifier deserialize_ignored_any }
    fn deserialize_unit_struct<V: Visitor<'d>>(self, _: &'static str, _: V) -> Result<V::Value, Er> {
        fm::undecided()
    }
    fn deserialize_newtype_struct<V: Visitor<'d>>(self, _: &'static str, _: V) -> Result<V::Value, Er> {
        fm::undecided()
    }
    fn deserialize_tuple<V: Visitor<'d>>(self, _: usize, _: V) -> Result<V::Value, Er> {
        fm::undecided()
    }
    fn deserialize_tuple_struct<V: Visitor<'d>>(self, _: &'static str, _: usize, _: V) -> Result<V::Value, Er> {
        fm::undecided()
    }
    fn deserialize_struct<V: Visitor<'d>>(self, _: &'static str, _: &'static [&'static str], _: V) -> Result<V::Value, Er> {
        fm::undecided()
    }
    fn deserialize_enum<V: Visitor<'d>>(self, _: &'static str, _: &'static [&'static str], _: V) -> Result<V::Value, Er> {
        fm::undecided()
    }
}
