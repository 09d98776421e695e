// Generated by tools/gen_shapes.py.

use crate::h::Shape;
use crate::fm;
use fixed_map::Key;


macro_rules! keyed {
    ($n:ident) => {
        impl core::fmt::Debug for $n {
            fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result {
                crate::models::key_event(Shape::idx(*self), f)
            }
        }
        // An order of its own, unlike that of declaration.
        impl PartialEq for $n {
            fn eq(&self, o: &Self) -> bool {
                Shape::idx(*self) == Shape::idx(*o)
            }
        }
        impl Eq for $n {}
        impl PartialOrd for $n {
            fn partial_cmp(&self, o: &Self) -> Option<core::cmp::Ordering> {
                Some(self.cmp(o))
            }
        }
        impl Ord for $n {
            fn cmp(&self, o: &Self) -> core::cmp::Ordering {
                (Shape::idx(*self) ^ 1).cmp(&(Shape::idx(*o) ^ 1))
            }
        }
        impl serde::Serialize for $n {
            fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
                s.serialize_u32(Shape::idx(*self) as u32)
            }
        }
        impl<'de> serde::Deserialize<'de> for $n {
            fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
                let i = <u32 as serde::Deserialize>::deserialize(d)?;
                Ok(<$n as Shape>::key(i as usize))
            }
        }
    };
}

#[derive(Clone, Copy, Key)]
pub enum U0 {  }
impl Shape for U0 {
    const N: usize = 0;
    fn key(i: usize) -> Self { match i { _ => fm::undecided() } }
    fn idx(self) -> usize { match self {} }
}
keyed!(U0);
#[derive(Clone, Copy, Key)]
pub enum U1 { V0 }
impl Shape for U1 {
    const N: usize = 1;
    fn key(i: usize) -> Self { match i { 0 => U1::V0, _ => fm::undecided() } }
    fn idx(self) -> usize { match self { U1::V0 => 0, } }
}
keyed!(U1);
#[derive(Clone, Copy, Key)]
pub enum U2 { V0, V1 }
impl Shape for U2 {
    const N: usize = 2;
    fn key(i: usize) -> Self { match i { 0 => U2::V0, 1 => U2::V1, _ => fm::undecided() } }
    fn idx(self) -> usize { match self { U2::V0 => 0, U2::V1 => 1, } }
}
keyed!(U2);
#[derive(Clone, Copy, Key)]
pub enum U3 { V0, V1, V2 }
impl Shape for U3 {
    const N: usize = 3;
    fn key(i: usize) -> Self { match i { 0 => U3::V0, 1 => U3::V1, 2 => U3::V2, _ => fm::undecided() } }
    fn idx(self) -> usize { match self { U3::V0 => 0, U3::V1 => 1, U3::V2 => 2, } }
}
keyed!(U3);
#[derive(Clone, Copy, Key)]
pub enum U4 { V0, V1, V2, V3 }
impl Shape for U4 {
    const N: usize = 4;
    fn key(i: usize) -> Self { match i { 0 => U4::V0, 1 => U4::V1, 2 => U4::V2, 3 => U4::V3, _ => fm::undecided() } }
    fn idx(self) -> usize { match self { U4::V0 => 0, U4::V1 => 1, U4::V2 => 2, U4::V3 => 3, } }
}
keyed!(U4);
#[derive(Clone, Copy, Key)]
pub enum U5 { V0, V1, V2, V3, V4 }
impl Shape for U5 {
    const N: usize = 5;
    fn key(i: usize) -> Self { match i { 0 => U5::V0, 1 => U5::V1, 2 => U5::V2, 3 => U5::V3, 4 => U5::V4, _ => fm::undecided() } }
    fn idx(self) -> usize { match self { U5::V0 => 0, U5::V1 => 1, U5::V2 => 2, U5::V3 => 3, U5::V4 => 4, } }
}
keyed!(U5);
#[derive(Clone, Copy, Key)]
pub enum U6 { V0, V1, V2, V3, V4, V5 }
impl Shape for U6 {
    const N: usize = 6;
    fn key(i: usize) -> Self { match i { 0 => U6::V0, 1 => U6::V1, 2 => U6::V2, 3 => U6::V3, 4 => U6::V4, 5 => U6::V5, _ => fm::undecided() } }
    fn idx(self) -> usize { match self { U6::V0 => 0, U6::V1 => 1, U6::V2 => 2, U6::V3 => 3, U6::V4 => 4, U6::V5 => 5, } }
}
keyed!(U6);
#[derive(Clone, Copy, Key)]
pub enum U7 { V0, V1, V2, V3, V4, V5, V6 }
impl Shape for U7 {
    const N: usize = 7;
    fn key(i: usize) -> Self { match i { 0 => U7::V0, 1 => U7::V1, 2 => U7::V2, 3 => U7::V3, 4 => U7::V4, 5 => U7::V5, 6 => U7::V6, _ => fm::undecided() } }
    fn idx(self) -> usize { match self { U7::V0 => 0, U7::V1 => 1, U7::V2 => 2, U7::V3 => 3, U7::V4 => 4, U7::V5 => 5, U7::V6 => 6, } }
}
keyed!(U7);
#[derive(Clone, Copy, Key)]
pub enum U8 { V0, V1, V2, V3, V4, V5, V6, V7 }
impl Shape for U8 {
    const N: usize = 8;
    fn key(i: usize) -> Self { match i { 0 => U8::V0, 1 => U8::V1, 2 => U8::V2, 3 => U8::V3, 4 => U8::V4, 5 => U8::V5, 6 => U8::V6, 7 => U8::V7, _ => fm::undecided() } }
    fn idx(self) -> usize { match self { U8::V0 => 0, U8::V1 => 1, U8::V2 => 2, U8::V3 => 3, U8::V4 => 4, U8::V5 => 5, U8::V6 => 6, U8::V7 => 7, } }
}
keyed!(U8);
#[derive(Clone, Copy, Key)]
pub enum U9 { V0, V1, V2, V3, V4, V5, V6, V7, V8 }
impl Shape for U9 {
    const N: usize = 9;
    fn key(i: usize) -> Self { match i { 0 => U9::V0, 1 => U9::V1, 2 => U9::V2, 3 => U9::V3, 4 => U9::V4, 5 => U9::V5, 6 => U9::V6, 7 => U9::V7, 8 => U9::V8, _ => fm::undecided() } }
    fn idx(self) -> usize { match self { U9::V0 => 0, U9::V1 => 1, U9::V2 => 2, U9::V3 => 3, U9::V4 => 4, U9::V5 => 5, U9::V6 => 6, U9::V7 => 7, U9::V8 => 8, } }
}
keyed!(U9);
#[derive(Clone, Copy, Key)]
pub enum U10 { V0, V1, V2, V3, V4, V5, V6, V7, V8, V9 }
impl Shape for U10 {
    const N: usize = 10;
    fn key(i: usize) -> Self { match i { 0 => U10::V0, 1 => U10::V1, 2 => U10::V2, 3 => U10::V3, 4 => U10::V4, 5 => U10::V5, 6 => U10::V6, 7 => U10::V7, 8 => U10::V8, 9 => U10::V9, _ => fm::undecided() } }
    fn idx(self) -> usize { match self { U10::V0 => 0, U10::V1 => 1, U10::V2 => 2, U10::V3 => 3, U10::V4 => 4, U10::V5 => 5, U10::V6 => 6, U10::V7 => 7, U10::V8 => 8, U10::V9 => 9, } }
}
keyed!(U10);
#[derive(Clone, Copy, Key)]
pub enum U12 { V0, V1, V2, V3, V4, V5, V6, V7, V8, V9, V10, V11 }
impl Shape for U12 {
    const N: usize = 12;
    fn key(i: usize) -> Self { match i { 0 => U12::V0, 1 => U12::V1, 2 => U12::V2, 3 => U12::V3, 4 => U12::V4, 5 => U12::V5, 6 => U12::V6, 7 => U12::V7, 8 => U12::V8, 9 => U12::V9, 10 => U12::V10, 11 => U12::V11, _ => fm::undecided() } }
    fn idx(self) -> usize { match self { U12::V0 => 0, U12::V1 => 1, U12::V2 => 2, U12::V3 => 3, U12::V4 => 4, U12::V5 => 5, U12::V6 => 6, U12::V7 => 7, U12::V8 => 8, U12::V9 => 9, U12::V10 => 10, U12::V11 => 11, } }
}
keyed!(U12);
#[derive(Clone, Copy, Key)]
pub enum U16 { V0, V1, V2, V3, V4, V5, V6, V7, V8, V9, V10, V11, V12, V13, V14, V15 }
impl Shape for U16 {
    const N: usize = 16;
    fn key(i: usize) -> Self { match i { 0 => U16::V0, 1 => U16::V1, 2 => U16::V2, 3 => U16::V3, 4 => U16::V4, 5 => U16::V5, 6 => U16::V6, 7 => U16::V7, 8 => U16::V8, 9 => U16::V9, 10 => U16::V10, 11 => U16::V11, 12 => U16::V12, 13 => U16::V13, 14 => U16::V14, 15 => U16::V15, _ => fm::undecided() } }
    fn idx(self) -> usize { match self { U16::V0 => 0, U16::V1 => 1, U16::V2 => 2, U16::V3 => 3, U16::V4 => 4, U16::V5 => 5, U16::V6 => 6, U16::V7 => 7, U16::V8 => 8, U16::V9 => 9, U16::V10 => 10, U16::V11 => 11, U16::V12 => 12, U16::V13 => 13, U16::V14 => 14, U16::V15 => 15, } }
}
keyed!(U16);
#[derive(Clone, Copy, Key)]
pub enum U17 { V0, V1, V2, V3, V4, V5, V6, V7, V8, V9, V10, V11, V12, V13, V14, V15, V16 }
impl Shape for U17 {
    const N: usize = 17;
    fn key(i: usize) -> Self { match i { 0 => U17::V0, 1 => U17::V1, 2 => U17::V2, 3 => U17::V3, 4 => U17::V4, 5 => U17::V5, 6 => U17::V6, 7 => U17::V7, 8 => U17::V8, 9 => U17::V9, 10 => U17::V10, 11 => U17::V11, 12 => U17::V12, 13 => U17::V13, 14 => U17::V14, 15 => U17::V15, 16 => U17::V16, _ => fm::undecided() } }
    fn idx(self) -> usize { match self { U17::V0 => 0, U17::V1 => 1, U17::V2 => 2, U17::V3 => 3, U17::V4 => 4, U17::V5 => 5, U17::V6 => 6, U17::V7 => 7, U17::V8 => 8, U17::V9 => 9, U17::V10 => 10, U17::V11 => 11, U17::V12 => 12, U17::V13 => 13, U17::V14 => 14, U17::V15 => 15, U17::V16 => 16, } }
}
keyed!(U17);
#[derive(Clone, Copy, Key)]
pub enum U20 { V0, V1, V2, V3, V4, V5, V6, V7, V8, V9, V10, V11, V12, V13, V14, V15, V16, V17, V18, V19 }
impl Shape for U20 {
    const N: usize = 20;
    fn key(i: usize) -> Self { match i { 0 => U20::V0, 1 => U20::V1, 2 => U20::V2, 3 => U20::V3, 4 => U20::V4, 5 => U20::V5, 6 => U20::V6, 7 => U20::V7, 8 => U20::V8, 9 => U20::V9, 10 => U20::V10, 11 => U20::V11, 12 => U20::V12, 13 => U20::V13, 14 => U20::V14, 15 => U20::V15, 16 => U20::V16, 17 => U20::V17, 18 => U20::V18, 19 => U20::V19, _ => fm::undecided() } }
    fn idx(self) -> usize { match self { U20::V0 => 0, U20::V1 => 1, U20::V2 => 2, U20::V3 => 3, U20::V4 => 4, U20::V5 => 5, U20::V6 => 6, U20::V7 => 7, U20::V8 => 8, U20::V9 => 9, U20::V10 => 10, U20::V11 => 11, U20::V12 => 12, U20::V13 => 13, U20::V14 => 14, U20::V15 => 15, U20::V16 => 16, U20::V17 => 17, U20::V18 => 18, U20::V19 => 19, } }
}
keyed!(U20);
#[derive(Clone, Copy, Key)]
pub enum U31 { V0, V1, V2, V3, V4, V5, V6, V7, V8, V9, V10, V11, V12, V13, V14, V15, V16, V17, V18, V19, V20, V21, V22, V23, V24, V25, V26, V27, V28, V29, V30 }
impl Shape for U31 {
    const N: usize = 31;
    fn key(i: usize) -> Self { match i { 0 => U31::V0, 1 => U31::V1, 2 => U31::V2, 3 => U31::V3, 4 => U31::V4, 5 => U31::V5, 6 => U31::V6, 7 => U31::V7, 8 => U31::V8, 9 => U31::V9, 10 => U31::V10, 11 => U31::V11, 12 => U31::V12, 13 => U31::V13, 14 => U31::V14, 15 => U31::V15, 16 => U31::V16, 17 => U31::V17, 18 => U31::V18, 19 => U31::V19, 20 => U31::V20, 21 => U31::V21, 22 => U31::V22, 23 => U31::V23, 24 => U31::V24, 25 => U31::V25, 26 => U31::V26, 27 => U31::V27, 28 => U31::V28, 29 => U31::V29, 30 => U31::V30, _ => fm::undecided() } }
    fn idx(self) -> usize { match self { U31::V0 => 0, U31::V1 => 1, U31::V2 => 2, U31::V3 => 3, U31::V4 => 4, U31::V5 => 5, U31::V6 => 6, U31::V7 => 7, U31::V8 => 8, U31::V9 => 9, U31::V10 => 10, U31::V11 => 11, U31::V12 => 12, U31::V13 => 13, U31::V14 => 14, U31::V15 => 15, U31::V16 => 16, U31::V17 => 17, U31::V18 => 18, U31::V19 => 19, U31::V20 => 20, U31::V21 => 21, U31::V22 => 22, U31::V23 => 23, U31::V24 => 24, U31::V25 => 25, U31::V26 => 26, U31::V27 => 27, U31::V28 => 28, U31::V29 => 29, U31::V30 => 30, } }
}
keyed!(U31);
#[derive(Clone, Copy, Key)]
pub enum U32 { V0, V1, V2, V3, V4, V5, V6, V7, V8, V9, V10, V11, V12, V13, V14, V15, V16, V17, V18, V19, V20, V21, V22, V23, V24, V25, V26, V27, V28, V29, V30, V31 }
impl Shape for U32 {
    const N: usize = 32;
    fn key(i: usize) -> Self { match i { 0 => U32::V0, 1 => U32::V1, 2 => U32::V2, 3 => U32::V3, 4 => U32::V4, 5 => U32::V5, 6 => U32::V6, 7 => U32::V7, 8 => U32::V8, 9 => U32::V9, 10 => U32::V10, 11 => U32::V11, 12 => U32::V12, 13 => U32::V13, 14 => U32::V14, 15 => U32::V15, 16 => U32::V16, 17 => U32::V17, 18 => U32::V18, 19 => U32::V19, 20 => U32::V20, 21 => U32::V21, 22 => U32::V22, 23 => U32::V23, 24 => U32::V24, 25 => U32::V25, 26 => U32::V26, 27 => U32::V27, 28 => U32::V28, 29 => U32::V29, 30 => U32::V30, 31 => U32::V31, _ => fm::undecided() } }
    fn idx(self) -> usize { match self { U32::V0 => 0, U32::V1 => 1, U32::V2 => 2, U32::V3 => 3, U32::V4 => 4, U32::V5 => 5, U32::V6 => 6, U32::V7 => 7, U32::V8 => 8, U32::V9 => 9, U32::V10 => 10, U32::V11 => 11, U32::V12 => 12, U32::V13 => 13, U32::V14 => 14, U32::V15 => 15, U32::V16 => 16, U32::V17 => 17, U32::V18 => 18, U32::V19 => 19, U32::V20 => 20, U32::V21 => 21, U32::V22 => 22, U32::V23 => 23, U32::V24 => 24, U32::V25 => 25, U32::V26 => 26, U32::V27 => 27, U32::V28 => 28, U32::V29 => 29, U32::V30 => 30, U32::V31 => 31, } }
}
keyed!(U32);
#[derive(Clone, Copy, Key)]
pub enum U33 { V0, V1, V2, V3, V4, V5, V6, V7, V8, V9, V10, V11, V12, V13, V14, V15, V16, V17, V18, V19, V20, V21, V22, V23, V24, V25, V26, V27, V28, V29, V30, V31, V32 }
impl Shape for U33 {
    const N: usize = 33;
    fn key(i: usize) -> Self { match i { 0 => U33::V0, 1 => U33::V1, 2 => U33::V2, 3 => U33::V3, 4 => U33::V4, 5 => U33::V5, 6 => U33::V6, 7 => U33::V7, 8 => U33::V8, 9 => U33::V9, 10 => U33::V10, 11 => U33::V11, 12 => U33::V12, 13 => U33::V13, 14 => U33::V14, 15 => U33::V15, 16 => U33::V16, 17 => U33::V17, 18 => U33::V18, 19 => U33::V19, 20 => U33::V20, 21 => U33::V21, 22 => U33::V22, 23 => U33::V23, 24 => U33::V24, 25 => U33::V25, 26 => U33::V26, 27 => U33::V27, 28 => U33::V28, 29 => U33::V29, 30 => U33::V30, 31 => U33::V31, 32 => U33::V32, _ => fm::undecided() } }
    fn idx(self) -> usize { match self { U33::V0 => 0, U33::V1 => 1, U33::V2 => 2, U33::V3 => 3, U33::V4 => 4, U33::V5 => 5, U33::V6 => 6, U33::V7 => 7, U33::V8 => 8, U33::V9 => 9, U33::V10 => 10, U33::V11 => 11, U33::V12 => 12, U33::V13 => 13, U33::V14 => 14, U33::V15 => 15, U33::V16 => 16, U33::V17 => 17, U33::V18 => 18, U33::V19 => 19, U33::V20 => 20, U33::V21 => 21, U33::V22 => 22, U33::V23 => 23, U33::V24 => 24, U33::V25 => 25, U33::V26 => 26, U33::V27 => 27, U33::V28 => 28, U33::V29 => 29, U33::V30 => 30, U33::V31 => 31, U33::V32 => 32, } }
}
keyed!(U33);
#[derive(Clone, Copy, Key)]
pub enum U63 { V0, V1, V2, V3, V4, V5, V6, V7, V8, V9, V10, V11, V12, V13, V14, V15, V16, V17, V18, V19, V20, V21, V22, V23, V24, V25, V26, V27, V28, V29, V30, V31, V32, V33, V34, V35, V36, V37, V38, V39, V40, V41, V42, V43, V44, V45, V46, V47, V48, V49, V50, V51, V52, V53, V54, V55, V56, V57, V58, V59, V60, V61, V62 }
impl Shape for U63 {
    const N: usize = 63;
    fn key(i: usize) -> Self { match i { 0 => U63::V0, 1 => U63::V1, 2 => U63::V2, 3 => U63::V3, 4 => U63::V4, 5 => U63::V5, 6 => U63::V6, 7 => U63::V7, 8 => U63::V8, 9 => U63::V9, 10 => U63::V10, 11 => U63::V11, 12 => U63::V12, 13 => U63::V13, 14 => U63::V14, 15 => U63::V15, 16 => U63::V16, 17 => U63::V17, 18 => U63::V18, 19 => U63::V19, 20 => U63::V20, 21 => U63::V21, 22 => U63::V22, 23 => U63::V23, 24 => U63::V24, 25 => U63::V25, 26 => U63::V26, 27 => U63::V27, 28 => U63::V28, 29 => U63::V29, 30 => U63::V30, 31 => U63::V31, 32 => U63::V32, 33 => U63::V33, 34 => U63::V34, 35 => U63::V35, 36 => U63::V36, 37 => U63::V37, 38 => U63::V38, 39 => U63::V39, 40 => U63::V40, 41 => U63::V41, 42 => U63::V42, 43 => U63::V43, 44 => U63::V44, 45 => U63::V45, 46 => U63::V46, 47 => U63::V47, 48 => U63::V48, 49 => U63::V49, 50 => U63::V50, 51 => U63::V51, 52 => U63::V52, 53 => U63::V53, 54 => U63::V54, 55 => U63::V55, 56 => U63::V56, 57 => U63::V57, 58 => U63::V58, 59 => U63::V59, 60 => U63::V60, 61 => U63::V61, 62 => U63::V62, _ => fm::undecided() } }
    fn idx(self) -> usize { match self { U63::V0 => 0, U63::V1 => 1, U63::V2 => 2, U63::V3 => 3, U63::V4 => 4, U63::V5 => 5, U63::V6 => 6, U63::V7 => 7, U63::V8 => 8, U63::V9 => 9, U63::V10 => 10, U63::V11 => 11, U63::V12 => 12, U63::V13 => 13, U63::V14 => 14, U63::V15 => 15, U63::V16 => 16, U63::V17 => 17, U63::V18 => 18, U63::V19 => 19, U63::V20 => 20, U63::V21 => 21, U63::V22 => 22, U63::V23 => 23, U63::V24 => 24, U63::V25 => 25, U63::V26 => 26, U63::V27 => 27, U63::V28 => 28, U63::V29 => 29, U63::V30 => 30, U63::V31 => 31, U63::V32 => 32, U63::V33 => 33, U63::V34 => 34, U63::V35 => 35, U63::V36 => 36, U63::V37 => 37, U63::V38 => 38, U63::V39 => 39, U63::V40 => 40, U63::V41 => 41, U63::V42 => 42, U63::V43 => 43, U63::V44 => 44, U63::V45 => 45, U63::V46 => 46, U63::V47 => 47, U63::V48 => 48, U63::V49 => 49, U63::V50 => 50, U63::V51 => 51, U63::V52 => 52, U63::V53 => 53, U63::V54 => 54, U63::V55 => 55, U63::V56 => 56, U63::V57 => 57, U63::V58 => 58, U63::V59 => 59, U63::V60 => 60, U63::V61 => 61, U63::V62 => 62, } }
}
keyed!(U63);
#[derive(Clone, Copy, Key)]
pub enum U64 { V0, V1, V2, V3, V4, V5, V6, V7, V8, V9, V10, V11, V12, V13, V14, V15, V16, V17, V18, V19, V20, V21, V22, V23, V24, V25, V26, V27, V28, V29, V30, V31, V32, V33, V34, V35, V36, V37, V38, V39, V40, V41, V42, V43, V44, V45, V46, V47, V48, V49, V50, V51, V52, V53, V54, V55, V56, V57, V58, V59, V60, V61, V62, V63 }
impl Shape for U64 {
    const N: usize = 64;
    fn key(i: usize) -> Self { match i { 0 => U64::V0, 1 => U64::V1, 2 => U64::V2, 3 => U64::V3, 4 => U64::V4, 5 => U64::V5, 6 => U64::V6, 7 => U64::V7, 8 => U64::V8, 9 => U64::V9, 10 => U64::V10, 11 => U64::V11, 12 => U64::V12, 13 => U64::V13, 14 => U64::V14, 15 => U64::V15, 16 => U64::V16, 17 => U64::V17, 18 => U64::V18, 19 => U64::V19, 20 => U64::V20, 21 => U64::V21, 22 => U64::V22, 23 => U64::V23, 24 => U64::V24, 25 => U64::V25, 26 => U64::V26, 27 => U64::V27, 28 => U64::V28, 29 => U64::V29, 30 => U64::V30, 31 => U64::V31, 32 => U64::V32, 33 => U64::V33, 34 => U64::V34, 35 => U64::V35, 36 => U64::V36, 37 => U64::V37, 38 => U64::V38, 39 => U64::V39, 40 => U64::V40, 41 => U64::V41, 42 => U64::V42, 43 => U64::V43, 44 => U64::V44, 45 => U64::V45, 46 => U64::V46, 47 => U64::V47, 48 => U64::V48, 49 => U64::V49, 50 => U64::V50, 51 => U64::V51, 52 => U64::V52, 53 => U64::V53, 54 => U64::V54, 55 => U64::V55, 56 => U64::V56, 57 => U64::V57, 58 => U64::V58, 59 => U64::V59, 60 => U64::V60, 61 => U64::V61, 62 => U64::V62, 63 => U64::V63, _ => fm::undecided() } }
    fn idx(self) -> usize { match self { U64::V0 => 0, U64::V1 => 1, U64::V2 => 2, U64::V3 => 3, U64::V4 => 4, U64::V5 => 5, U64::V6 => 6, U64::V7 => 7, U64::V8 => 8, U64::V9 => 9, U64::V10 => 10, U64::V11 => 11, U64::V12 => 12, U64::V13 => 13, U64::V14 => 14, U64::V15 => 15, U64::V16 => 16, U64::V17 => 17, U64::V18 => 18, U64::V19 => 19, U64::V20 => 20, U64::V21 => 21, U64::V22 => 22, U64::V23 => 23, U64::V24 => 24, U64::V25 => 25, U64::V26 => 26, U64::V27 => 27, U64::V28 => 28, U64::V29 => 29, U64::V30 => 30, U64::V31 => 31, U64::V32 => 32, U64::V33 => 33, U64::V34 => 34, U64::V35 => 35, U64::V36 => 36, U64::V37 => 37, U64::V38 => 38, U64::V39 => 39, U64::V40 => 40, U64::V41 => 41, U64::V42 => 42, U64::V43 => 43, U64::V44 => 44, U64::V45 => 45, U64::V46 => 46, U64::V47 => 47, U64::V48 => 48, U64::V49 => 49, U64::V50 => 50, U64::V51 => 51, U64::V52 => 52, U64::V53 => 53, U64::V54 => 54, U64::V55 => 55, U64::V56 => 56, U64::V57 => 57, U64::V58 => 58, U64::V59 => 59, U64::V60 => 60, U64::V61 => 61, U64::V62 => 62, U64::V63 => 63, } }
}
keyed!(U64);
#[derive(Clone, Copy, Key)]
pub enum U65 { V0, V1, V2, V3, V4, V5, V6, V7, V8, V9, V10, V11, V12, V13, V14, V15, V16, V17, V18, V19, V20, V21, V22, V23, V24, V25, V26, V27, V28, V29, V30, V31, V32, V33, V34, V35, V36, V37, V38, V39, V40, V41, V42, V43, V44, V45, V46, V47, V48, V49, V50, V51, V52, V53, V54, V55, V56, V57, V58, V59, V60, V61, V62, V63, V64 }
impl Shape for U65 {
    const N: usize = 65;
    fn key(i: usize) -> Self { match i { 0 => U65::V0, 1 => U65::V1, 2 => U65::V2, 3 => U65::V3, 4 => U65::V4, 5 => U65::V5, 6 => U65::V6, 7 => U65::V7, 8 => U65::V8, 9 => U65::V9, 10 => U65::V10, 11 => U65::V11, 12 => U65::V12, 13 => U65::V13, 14 => U65::V14, 15 => U65::V15, 16 => U65::V16, 17 => U65::V17, 18 => U65::V18, 19 => U65::V19, 20 => U65::V20, 21 => U65::V21, 22 => U65::V22, 23 => U65::V23, 24 => U65::V24, 25 => U65::V25, 26 => U65::V26, 27 => U65::V27, 28 => U65::V28, 29 => U65::V29, 30 => U65::V30, 31 => U65::V31, 32 => U65::V32, 33 => U65::V33, 34 => U65::V34, 35 => U65::V35, 36 => U65::V36, 37 => U65::V37, 38 => U65::V38, 39 => U65::V39, 40 => U65::V40, 41 => U65::V41, 42 => U65::V42, 43 => U65::V43, 44 => U65::V44, 45 => U65::V45, 46 => U65::V46, 47 => U65::V47, 48 => U65::V48, 49 => U65::V49, 50 => U65::V50, 51 => U65::V51, 52 => U65::V52, 53 => U65::V53, 54 => U65::V54, 55 => U65::V55, 56 => U65::V56, 57 => U65::V57, 58 => U65::V58, 59 => U65::V59, 60 => U65::V60, 61 => U65::V61, 62 => U65::V62, 63 => U65::V63, 64 => U65::V64, _ => fm::undecided() } }
    fn idx(self) -> usize { match self { U65::V0 => 0, U65::V1 => 1, U65::V2 => 2, U65::V3 => 3, U65::V4 => 4, U65::V5 => 5, U65::V6 => 6, U65::V7 => 7, U65::V8 => 8, U65::V9 => 9, U65::V10 => 10, U65::V11 => 11, U65::V12 => 12, U65::V13 => 13, U65::V14 => 14, U65::V15 => 15, U65::V16 => 16, U65::V17 => 17, U65::V18 => 18, U65::V19 => 19, U65::V20 => 20, U65::V21 => 21, U65::V22 => 22, U65::V23 => 23, U65::V24 => 24, U65::V25 => 25, U65::V26 => 26, U65::V27 => 27, U65::V28 => 28, U65::V29 => 29, U65::V30 => 30, U65::V31 => 31, U65::V32 => 32, U65::V33 => 33, U65::V34 => 34, U65::V35 => 35, U65::V36 => 36, U65::V37 => 37, U65::V38 => 38, U65::V39 => 39, U65::V40 => 40, U65::V41 => 41, U65::V42 => 42, U65::V43 => 43, U65::V44 => 44, U65::V45 => 45, U65::V46 => 46, U65::V47 => 47, U65::V48 => 48, U65::V49 => 49, U65::V50 => 50, U65::V51 => 51, U65::V52 => 52, U65::V53 => 53, U65::V54 => 54, U65::V55 => 55, U65::V56 => 56, U65::V57 => 57, U65::V58 => 58, U65::V59 => 59, U65::V60 => 60, U65::V61 => 61, U65::V62 => 62, U65::V63 => 63, U65::V64 => 64, } }
}
keyed!(U65);
#[derive(Clone, Copy, Key)]
pub enum U100 { V0, V1, V2, V3, V4, V5, V6, V7, V8, V9, V10, V11, V12, V13, V14, V15, V16, V17, V18, V19, V20, V21, V22, V23, V24, V25, V26, V27, V28, V29, V30, V31, V32, V33, V34, V35, V36, V37, V38, V39, V40, V41, V42, V43, V44, V45, V46, V47, V48, V49, V50, V51, V52, V53, V54, V55, V56, V57, V58, V59, V60, V61, V62, V63, V64, V65, V66, V67, V68, V69, V70, V71, V72, V73, V74, V75, V76, V77, V78, V79, V80, V81, V82, V83, V84, V85, V86, V87, V88, V89, V90, V91, V92, V93, V94, V95, V96, V97, V98, V99 }
impl Shape for U100 {
    const N: usize = 100;
    fn key(i: usize) -> Self { match i { 0 => U100::V0, 1 => U100::V1, 2 => U100::V2, 3 => U100::V3, 4 => U100::V4, 5 => U100::V5, 6 => U100::V6, 7 => U100::V7, 8 => U100::V8, 9 => U100::V9, 10 => U100::V10, 11 => U100::V11, 12 => U100::V12, 13 => U100::V13, 14 => U100::V14, 15 => U100::V15, 16 => U100::V16, 17 => U100::V17, 18 => U100::V18, 19 => U100::V19, 20 => U100::V20, 21 => U100::V21, 22 => U100::V22, 23 => U100::V23, 24 => U100::V24, 25 => U100::V25, 26 => U100::V26, 27 => U100::V27, 28 => U100::V28, 29 => U100::V29, 30 => U100::V30, 31 => U100::V31, 32 => U100::V32, 33 => U100::V33, 34 => U100::V34, 35 => U100::V35, 36 => U100::V36, 37 => U100::V37, 38 => U100::V38, 39 => U100::V39, 40 => U100::V40, 41 => U100::V41, 42 => U100::V42, 43 => U100::V43, 44 => U100::V44, 45 => U100::V45, 46 => U100::V46, 47 => U100::V47, 48 => U100::V48, 49 => U100::V49, 50 => U100::V50, 51 => U100::V51, 52 => U100::V52, 53 => U100::V53, 54 => U100::V54, 55 => U100::V55, 56 => U100::V56, 57 => U100::V57, 58 => U100::V58, 59 => U100::V59, 60 => U100::V60, 61 => U100::V61, 62 => U100::V62, 63 => U100::V63, 64 => U100::V64, 65 => U100::V65, 66 => U100::V66, 67 => U100::V67, 68 => U100::V68, 69 => U100::V69, 70 => U100::V70, 71 => U100::V71, 72 => U100::V72, 73 => U100::V73, 74 => U100::V74, 75 => U100::V75, 76 => U100::V76, 77 => U100::V77, 78 => U100::V78, 79 => U100::V79, 80 => U100::V80, 81 => U100::V81, 82 => U100::V82, 83 => U100::V83, 84 => U100::V84, 85 => U100::V85, 86 => U100::V86, 87 => U100::V87, 88 => U100::V88, 89 => U100::V89, 90 => U100::V90, 91 => U100::V91, 92 => U100::V92, 93 => U100::V93, 94 => U100::V94, 95 => U100::V95, 96 => U100::V96, 97 => U100::V97, 98 => U100::V98, 99 => U100::V99, _ => fm::undecided() } }
    fn idx(self) -> usize { match self { U100::V0 => 0, U100::V1 => 1, U100::V2 => 2, U100::V3 => 3, U100::V4 => 4, U100::V5 => 5, U100::V6 => 6, U100::V7 => 7, U100::V8 => 8, U100::V9 => 9, U100::V10 => 10, U100::V11 => 11, U100::V12 => 12, U100::V13 => 13, U100::V14 => 14, U100::V15 => 15, U100::V16 => 16, U100::V17 => 17, U100::V18 => 18, U100::V19 => 19, U100::V20 => 20, U100::V21 => 21, U100::V22 => 22, U100::V23 => 23, U100::V24 => 24, U100::V25 => 25, U100::V26 => 26, U100::V27 => 27, U100::V28 => 28, U100::V29 => 29, U100::V30 => 30, U100::V31 => 31, U100::V32 => 32, U100::V33 => 33, U100::V34 => 34, U100::V35 => 35, U100::V36 => 36, U100::V37 => 37, U100::V38 => 38, U100::V39 => 39, U100::V40 => 40, U100::V41 => 41, U100::V42 => 42, U100::V43 => 43, U100::V44 => 44, U100::V45 => 45, U100::V46 => 46, U100::V47 => 47, U100::V48 => 48, U100::V49 => 49, U100::V50 => 50, U100::V51 => 51, U100::V52 => 52, U100::V53 => 53, U100::V54 => 54, U100::V55 => 55, U100::V56 => 56, U100::V57 => 57, U100::V58 => 58, U100::V59 => 59, U100::V60 => 60, U100::V61 => 61, U100::V62 => 62, U100::V63 => 63, U100::V64 => 64, U100::V65 => 65, U100::V66 => 66, U100::V67 => 67, U100::V68 => 68, U100::V69 => 69, U100::V70 => 70, U100::V71 => 71, U100::V72 => 72, U100::V73 => 73, U100::V74 => 74, U100::V75 => 75, U100::V76 => 76, U100::V77 => 77, U100::V78 => 78, U100::V79 => 79, U100::V80 => 80, U100::V81 => 81, U100::V82 => 82, U100::V83 => 83, U100::V84 => 84, U100::V85 => 85, U100::V86 => 86, U100::V87 => 87, U100::V88 => 88, U100::V89 => 89, U100::V90 => 90, U100::V91 => 91, U100::V92 => 92, U100::V93 => 93, U100::V94 => 94, U100::V95 => 95, U100::V96 => 96, U100::V97 => 97, U100::V98 => 98, U100::V99 => 99, } }
}
keyed!(U100);
#[derive(Clone, Copy, Key)]
pub enum U127 { V0, V1, V2, V3, V4, V5, V6, V7, V8, V9, V10, V11, V12, V13, V14, V15, V16, V17, V18, V19, V20, V21, V22, V23, V24, V25, V26, V27, V28, V29, V30, V31, V32, V33, V34, V35, V36, V37, V38, V39, V40, V41, V42, V43, V44, V45, V46, V47, V48, V49, V50, V51, V52, V53, V54, V55, V56, V57, V58, V59, V60, V61, V62, V63, V64, V65, V66, V67, V68, V69, V70, V71, V72, V73, V74, V75, V76, V77, V78, V79, V80, V81, V82, V83, V84, V85, V86, V87, V88, V89, V90, V91, V92, V93, V94, V95, V96, V97, V98, V99, V100, V101, V102, V103, V104, V105, V106, V107, V108, V109, V110, V111, V112, V113, V114, V115, V116, V117, V118, V119, V120, V121, V122, V123, V124, V125, V126 }
impl Shape for U127 {
    const N: usize = 127;
    fn key(i: usize) -> Self { match i { 0 => U127::V0, 1 => U127::V1, 2 => U127::V2, 3 => U127::V3, 4 => U127::V4, 5 => U127::V5, 6 => U127::V6, 7 => U127::V7, 8 => U127::V8, 9 => U127::V9, 10 => U127::V10, 11 => U127::V11, 12 => U127::V12, 13 => U127::V13, 14 => U127::V14, 15 => U127::V15, 16 => U127::V16, 17 => U127::V17, 18 => U127::V18, 19 => U127::V19, 20 => U127::V20, 21 => U127::V21, 22 => U127::V22, 23 => U127::V23, 24 => U127::V24, 25 => U127::V25, 26 => U127::V26, 27 => U127::V27, 28 => U127::V28, 29 => U127::V29, 30 => U127::V30, 31 => U127::V31, 32 => U127::V32, 33 => U127::V33, 34 => U127::V34, 35 => U127::V35, 36 => U127::V36, 37 => U127::V37, 38 => U127::V38, 39 => U127::V39, 40 => U127::V40, 41 => U127::V41, 42 => U127::V42, 43 => U127::V43, 44 => U127::V44, 45 => U127::V45, 46 => U127::V46, 47 => U127::V47, 48 => U127::V48, 49 => U127::V49, 50 => U127::V50, 51 => U127::V51, 52 => U127::V52, 53 => U127::V53, 54 => U127::V54, 55 => U127::V55, 56 => U127::V56, 57 => U127::V57, 58 => U127::V58, 59 => U127::V59, 60 => U127::V60, 61 => U127::V61, 62 => U127::V62, 63 => U127::V63, 64 => U127::V64, 65 => U127::V65, 66 => U127::V66, 67 => U127::V67, 68 => U127::V68, 69 => U127::V69, 70 => U127::V70, 71 => U127::V71, 72 => U127::V72, 73 => U127::V73, 74 => U127::V74, 75 => U127::V75, 76 => U127::V76, 77 => U127::V77, 78 => U127::V78, 79 => U127::V79, 80 => U127::V80, 81 => U127::V81, 82 => U127::V82, 83 => U127::V83, 84 => U127::V84, 85 => U127::V85, 86 => U127::V86, 87 => U127::V87, 88 => U127::V88, 89 => U127::V89, 90 => U127::V90, 91 => U127::V91, 92 => U127::V92, 93 => U127::V93, 94 => U127::V94, 95 => U127::V95, 96 => U127::V96, 97 => U127::V97, 98 => U127::V98, 99 => U127::V99, 100 => U127::V100, 101 => U127::V101, 102 => U127::V102, 103 => U127::V103, 104 => U127::V104, 105 => U127::V105, 106 => U127::V106, 107 => U127::V107, 108 => U127::V108, 109 => U127::V109, 110 => U127::V110, 111 => U127::V111, 112 => U127::V112, 113 => U127::V113, 114 => U127::V114, 115 => U127::V115, 116 => U127::V116, 117 => U127::V117, 118 => U127::V118, 119 => U127::V119, 120 => U127::V120, 121 => U127::V121, 122 => U127::V122, 123 => U127::V123, 124 => U127::V124, 125 => U127::V125, 126 => U127::V126, _ => fm::undecided() } }
    fn idx(self) -> usize { match self { U127::V0 => 0, U127::V1 => 1, U127::V2 => 2, U127::V3 => 3, U127::V4 => 4, U127::V5 => 5, U127::V6 => 6, U127::V7 => 7, U127::V8 => 8, U127::V9 => 9, U127::V10 => 10, U127::V11 => 11, U127::V12 => 12, U127::V13 => 13, U127::V14 => 14, U127::V15 => 15, U127::V16 => 16, U127::V17 => 17, U127::V18 => 18, U127::V19 => 19, U127::V20 => 20, U127::V21 => 21, U127::V22 => 22, U127::V23 => 23, U127::V24 => 24, U127::V25 => 25, U127::V26 => 26, U127::V27 => 27, U127::V28 => 28, U127::V29 => 29, U127::V30 => 30, U127::V31 => 31, U127::V32 => 32, U127::V33 => 33, U127::V34 => 34, U127::V35 => 35, U127::V36 => 36, U127::V37 => 37, U127::V38 => 38, U127::V39 => 39, U127::V40 => 40, U127::V41 => 41, U127::V42 => 42, U127::V43 => 43, U127::V44 => 44, U127::V45 => 45, U127::V46 => 46, U127::V47 => 47, U127::V48 => 48, U127::V49 => 49, U127::V50 => 50, U127::V51 => 51, U127::V52 => 52, U127::V53 => 53, U127::V54 => 54, U127::V55 => 55, U127::V56 => 56, U127::V57 => 57, U127::V58 => 58, U127::V59 => 59, U127::V60 => 60, U127::V61 => 61, U127::V62 => 62, U127::V63 => 63, U127::V64 => 64, U127::V65 => 65, U127::V66 => 66, U127::V67 => 67, U127::V68 => 68, U127::V69 => 69, U127::V70 => 70, U127::V71 => 71, U127::V72 => 72, U127::V73 => 73, U127::V74 => 74, U127::V75 => 75, U127::V76 => 76, U127::V77 => 77, U127::V78 => 78, U127::V79 => 79, U127::V80 => 80, U127::V81 => 81, U127::V82 => 82, U127::V83 => 83, U127::V84 => 84, U127::V85 => 85, U127::V86 => 86, U127::V87 => 87, U127::V88 => 88, U127::V89 => 89, U127::V90 => 90, U127::V91 => 91, U127::V92 => 92, U127::V93 => 93, U127::V94 => 94, U127::V95 => 95, U127::V96 => 96, U127::V97 => 97, U127::V98 => 98, U127::V99 => 99, U127::V100 => 100, U127::V101 => 101, U127::V102 => 102, U127::V103 => 103, U127::V104 => 104, U127::V105 => 105, U127::V106 => 106, U127::V107 => 107, U127::V108 => 108, U127::V109 => 109, U127::V110 => 110, U127::V111 => 111, U127::V112 => 112, U127::V113 => 113, U127::V114 => 114, U127::V115 => 115, U127::V116 => 116, U127::V117 => 117, U127::V118 => 118, U127::V119 => 119, U127::V120 => 120, U127::V121 => 121, U127::V122 => 122, U127::V123 => 123, U127::V124 => 124, U127::V125 => 125, U127::V126 => 126, } }
}
keyed!(U127);
#[derive(Clone, Copy, Key)]
pub enum U128 { V0, V1, V2, V3, V4, V5, V6, V7, V8, V9, V10, V11, V12, V13, V14, V15, V16, V17, V18, V19, V20, V21, V22, V23, V24, V25, V26, V27, V28, V29, V30, V31, V32, V33, V34, V35, V36, V37, V38, V39, V40, V41, V42, V43, V44, V45, V46, V47, V48, V49, V50, V51, V52, V53, V54, V55, V56, V57, V58, V59, V60, V61, V62, V63, V64, V65, V66, V67, V68, V69, V70, V71, V72, V73, V74, V75, V76, V77, V78, V79, V80, V81, V82, V83, V84, V85, V86, V87, V88, V89, V90, V91, V92, V93, V94, V95, V96, V97, V98, V99, V100, V101, V102, V103, V104, V105, V106, V107, V108, V109, V110, V111, V112, V113, V114, V115, V116, V117, V118, V119, V120, V121, V122, V123, V124, V125, V126, V127 }
impl Shape for U128 {
    const N: usize = 128;
    fn key(i: usize) -> Self { match i { 0 => U128::V0, 1 => U128::V1, 2 => U128::V2, 3 => U128::V3, 4 => U128::V4, 5 => U128::V5, 6 => U128::V6, 7 => U128::V7, 8 => U128::V8, 9 => U128::V9, 10 => U128::V10, 11 => U128::V11, 12 => U128::V12, 13 => U128::V13, 14 => U128::V14, 15 => U128::V15, 16 => U128::V16, 17 => U128::V17, 18 => U128::V18, 19 => U128::V19, 20 => U128::V20, 21 => U128::V21, 22 => U128::V22, 23 => U128::V23, 24 => U128::V24, 25 => U128::V25, 26 => U128::V26, 27 => U128::V27, 28 => U128::V28, 29 => U128::V29, 30 => U128::V30, 31 => U128::V31, 32 => U128::V32, 33 => U128::V33, 34 => U128::V34, 35 => U128::V35, 36 => U128::V36, 37 => U128::V37, 38 => U128::V38, 39 => U128::V39, 40 => U128::V40, 41 => U128::V41, 42 => U128::V42, 43 => U128::V43, 44 => U128::V44, 45 => U128::V45, 46 => U128::V46, 47 => U128::V47, 48 => U128::V48, 49 => U128::V49, 50 => U128::V50, 51 => U128::V51, 52 => U128::V52, 53 => U128::V53, 54 => U128::V54, 55 => U128::V55, 56 => U128::V56, 57 => U128::V57, 58 => U128::V58, 59 => U128::V59, 60 => U128::V60, 61 => U128::V61, 62 => U128::V62, 63 => U128::V63, 64 => U128::V64, 65 => U128::V65, 66 => U128::V66, 67 => U128::V67, 68 => U128::V68, 69 => U128::V69, 70 => U128::V70, 71 => U128::V71, 72 => U128::V72, 73 => U128::V73, 74 => U128::V74, 75 => U128::V75, 76 => U128::V76, 77 => U128::V77, 78 => U128::V78, 79 => U128::V79, 80 => U128::V80, 81 => U128::V81, 82 => U128::V82, 83 => U128::V83, 84 => U128::V84, 85 => U128::V85, 86 => U128::V86, 87 => U128::V87, 88 => U128::V88, 89 => U128::V89, 90 => U128::V90, 91 => U128::V91, 92 => U128::V92, 93 => U128::V93, 94 => U128::V94, 95 => U128::V95, 96 => U128::V96, 97 => U128::V97, 98 => U128::V98, 99 => U128::V99, 100 => U128::V100, 101 => U128::V101, 102 => U128::V102, 103 => U128::V103, 104 => U128::V104, 105 => U128::V105, 106 => U128::V106, 107 => U128::V107, 108 => U128::V108, 109 => U128::V109, 110 => U128::V110, 111 => U128::V111, 112 => U128::V112, 113 => U128::V113, 114 => U128::V114, 115 => U128::V115, 116 => U128::V116, 117 => U128::V117, 118 => U128::V118, 119 => U128::V119, 120 => U128::V120, 121 => U128::V121, 122 => U128::V122, 123 => U128::V123, 124 => U128::V124, 125 => U128::V125, 126 => U128::V126, 127 => U128::V127, _ => fm::undecided() } }
    fn idx(self) -> usize { match self { U128::V0 => 0, U128::V1 => 1, U128::V2 => 2, U128::V3 => 3, U128::V4 => 4, U128::V5 => 5, U128::V6 => 6, U128::V7 => 7, U128::V8 => 8, U128::V9 => 9, U128::V10 => 10, U128::V11 => 11, U128::V12 => 12, U128::V13 => 13, U128::V14 => 14, U128::V15 => 15, U128::V16 => 16, U128::V17 => 17, U128::V18 => 18, U128::V19 => 19, U128::V20 => 20, U128::V21 => 21, U128::V22 => 22, U128::V23 => 23, U128::V24 => 24, U128::V25 => 25, U128::V26 => 26, U128::V27 => 27, U128::V28 => 28, U128::V29 => 29, U128::V30 => 30, U128::V31 => 31, U128::V32 => 32, U128::V33 => 33, U128::V34 => 34, U128::V35 => 35, U128::V36 => 36, U128::V37 => 37, U128::V38 => 38, U128::V39 => 39, U128::V40 => 40, U128::V41 => 41, U128::V42 => 42, U128::V43 => 43, U128::V44 => 44, U128::V45 => 45, U128::V46 => 46, U128::V47 => 47, U128::V48 => 48, U128::V49 => 49, U128::V50 => 50, U128::V51 => 51, U128::V52 => 52, U128::V53 => 53, U128::V54 => 54, U128::V55 => 55, U128::V56 => 56, U128::V57 => 57, U128::V58 => 58, U128::V59 => 59, U128::V60 => 60, U128::V61 => 61, U128::V62 => 62, U128::V63 => 63, U128::V64 => 64, U128::V65 => 65, U128::V66 => 66, U128::V67 => 67, U128::V68 => 68, U128::V69 => 69, U128::V70 => 70, U128::V71 => 71, U128::V72 => 72, U128::V73 => 73, U128::V74 => 74, U128::V75 => 75, U128::V76 => 76, U128::V77 => 77, U128::V78 => 78, U128::V79 => 79, U128::V80 => 80, U128::V81 => 81, U128::V82 => 82, U128::V83 => 83, U128::V84 => 84, U128::V85 => 85, U128::V86 => 86, U128::V87 => 87, U128::V88 => 88, U128::V89 => 89, U128::V90 => 90, U128::V91 => 91, U128::V92 => 92, U128::V93 => 93, U128::V94 => 94, U128::V95 => 95, U128::V96 => 96, U128::V97 => 97, U128::V98 => 98, U128::V99 => 99, U128::V100 => 100, U128::V101 => 101, U128::V102 => 102, U128::V103 => 103, U128::V104 => 104, U128::V105 => 105, U128::V106 => 106, U128::V107 => 107, U128::V108 => 108, U128::V109 => 109, U128::V110 => 110, U128::V111 => 111, U128::V112 => 112, U128::V113 => 113, U128::V114 => 114, U128::V115 => 115, U128::V116 => 116, U128::V117 => 117, U128::V118 => 118, U128::V119 => 119, U128::V120 => 120, U128::V121 => 121, U128::V122 => 122, U128::V123 => 123, U128::V124 => 124, U128::V125 => 125, U128::V126 => 126, U128::V127 => 127, } }
}
keyed!(U128);
#[derive(Clone, Copy, Key)]
pub enum U129 { V0, V1, V2, V3, V4, V5, V6, V7, V8, V9, V10, V11, V12, V13, V14, V15, V16, V17, V18, V19, V20, V21, V22, V23, V24, V25, V26, V27, V28, V29, V30, V31, V32, V33, V34, V35, V36, V37, V38, V39, V40, V41, V42, V43, V44, V45, V46, V47, V48, V49, V50, V51, V52, V53, V54, V55, V56, V57, V58, V59, V60, V61, V62, V63, V64, V65, V66, V67, V68, V69, V70, V71, V72, V73, V74, V75, V76, V77, V78, V79, V80, V81, V82, V83, V84, V85, V86, V87, V88, V89, V90, V91, V92, V93, V94, V95, V96, V97, V98, V99, V100, V101, V102, V103, V104, V105, V106, V107, V108, V109, V110, V111, V112, V113, V114, V115, V116, V117, V118, V119, V120, V121, V122, V123, V124, V125, V126, V127, V128 }
impl Shape for U129 {
    const N: usize = 129;
    fn key(i: usize) -> Self { match i { 0 => U129::V0, 1 => U129::V1, 2 => U129::V2, 3 => U129::V3, 4 => U129::V4, 5 => U129::V5, 6 => U129::V6, 7 => U129::V7, 8 => U129::V8, 9 => U129::V9, 10 => U129::V10, 11 => U129::V11, 12 => U129::V12, 13 => U129::V13, 14 => U129::V14, 15 => U129::V15, 16 => U129::V16, 17 => U129::V17, 18 => U129::V18, 19 => U129::V19, 20 => U129::V20, 21 => U129::V21, 22 => U129::V22, 23 => U129::V23, 24 => U129::V24, 25 => U129::V25, 26 => U129::V26, 27 => U129::V27, 28 => U129::V28, 29 => U129::V29, 30 => U129::V30, 31 => U129::V31, 32 => U129::V32, 33 => U129::V33, 34 => U129::V34, 35 => U129::V35, 36 => U129::V36, 37 => U129::V37, 38 => U129::V38, 39 => U129::V39, 40 => U129::V40, 41 => U129::V41, 42 => U129::V42, 43 => U129::V43, 44 => U129::V44, 45 => U129::V45, 46 => U129::V46, 47 => U129::V47, 48 => U129::V48, 49 => U129::V49, 50 => U129::V50, 51 => U129::V51, 52 => U129::V52, 53 => U129::V53, 54 => U129::V54, 55 => U129::V55, 56 => U129::V56, 57 => U129::V57, 58 => U129::V58, 59 => U129::V59, 60 => U129::V60, 61 => U129::V61, 62 => U129::V62, 63 => U129::V63, 64 => U129::V64, 65 => U129::V65, 66 => U129::V66, 67 => U129::V67, 68 => U129::V68, 69 => U129::V69, 70 => U129::V70, 71 => U129::V71, 72 => U129::V72, 73 => U129::V73, 74 => U129::V74, 75 => U129::V75, 76 => U129::V76, 77 => U129::V77, 78 => U129::V78, 79 => U129::V79, 80 => U129::V80, 81 => U129::V81, 82 => U129::V82, 83 => U129::V83, 84 => U129::V84, 85 => U129::V85, 86 => U129::V86, 87 => U129::V87, 88 => U129::V88, 89 => U129::V89, 90 => U129::V90, 91 => U129::V91, 92 => U129::V92, 93 => U129::V93, 94 => U129::V94, 95 => U129::V95, 96 => U129::V96, 97 => U129::V97, 98 => U129::V98, 99 => U129::V99, 100 => U129::V100, 101 => U129::V101, 102 => U129::V102, 103 => U129::V103, 104 => U129::V104, 105 => U129::V105, 106 => U129::V106, 107 => U129::V107, 108 => U129::V108, 109 => U129::V109, 110 => U129::V110, 111 => U129::V111, 112 => U129::V112, 113 => U129::V113, 114 => U129::V114, 115 => U129::V115, 116 => U129::V116, 117 => U129::V117, 118 => U129::V118, 119 => U129::V119, 120 => U129::V120, 121 => U129::V121, 122 => U129::V122, 123 => U129::V123, 124 => U129::V124, 125 => U129::V125, 126 => U129::V126, 127 => U129::V127, 128 => U129::V128, _ => fm::undecided() } }
    fn idx(self) -> usize { match self { U129::V0 => 0, U129::V1 => 1, U129::V2 => 2, U129::V3 => 3, U129::V4 => 4, U129::V5 => 5, U129::V6 => 6, U129::V7 => 7, U129::V8 => 8, U129::V9 => 9, U129::V10 => 10, U129::V11 => 11, U129::V12 => 12, U129::V13 => 13, U129::V14 => 14, U129::V15 => 15, U129::V16 => 16, U129::V17 => 17, U129::V18 => 18, U129::V19 => 19, U129::V20 => 20, U129::V21 => 21, U129::V22 => 22, U129::V23 => 23, U129::V24 => 24, U129::V25 => 25, U129::V26 => 26, U129::V27 => 27, U129::V28 => 28, U129::V29 => 29, U129::V30 => 30, U129::V31 => 31, U129::V32 => 32, U129::V33 => 33, U129::V34 => 34, U129::V35 => 35, U129::V36 => 36, U129::V37 => 37, U129::V38 => 38, U129::V39 => 39, U129::V40 => 40, U129::V41 => 41, U129::V42 => 42, U129::V43 => 43, U129::V44 => 44, U129::V45 => 45, U129::V46 => 46, U129::V47 => 47, U129::V48 => 48, U129::V49 => 49, U129::V50 => 50, U129::V51 => 51, U129::V52 => 52, U129::V53 => 53, U129::V54 => 54, U129::V55 => 55, U129::V56 => 56, U129::V57 => 57, U129::V58 => 58, U129::V59 => 59, U129::V60 => 60, U129::V61 => 61, U129::V62 => 62, U129::V63 => 63, U129::V64 => 64, U129::V65 => 65, U129::V66 => 66, U129::V67 => 67, U129::V68 => 68, U129::V69 => 69, U129::V70 => 70, U129::V71 => 71, U129::V72 => 72, U129::V73 => 73, U129::V74 => 74, U129::V75 => 75, U129::V76 => 76, U129::V77 => 77, U129::V78 => 78, U129::V79 => 79, U129::V80 => 80, U129::V81 => 81, U129::V82 => 82, U129::V83 => 83, U129::V84 => 84, U129::V85 => 85, U129::V86 => 86, U129::V87 => 87, U129::V88 => 88, U129::V89 => 89, U129::V90 => 90, U129::V91 => 91, U129::V92 => 92, U129::V93 => 93, U129::V94 => 94, U129::V95 => 95, U129::V96 => 96, U129::V97 => 97, U129::V98 => 98, U129::V99 => 99, U129::V100 => 100, U129::V101 => 101, U129::V102 => 102, U129::V103 => 103, U129::V104 => 104, U129::V105 => 105, U129::V106 => 106, U129::V107 => 107, U129::V108 => 108, U129::V109 => 109, U129::V110 => 110, U129::V111 => 111, U129::V112 => 112, U129::V113 => 113, U129::V114 => 114, U129::V115 => 115, U129::V116 => 116, U129::V117 => 117, U129::V118 => 118, U129::V119 => 119, U129::V120 => 120, U129::V121 => 121, U129::V122 => 122, U129::V123 => 123, U129::V124 => 124, U129::V125 => 125, U129::V126 => 126, U129::V127 => 127, U129::V128 => 128, } }
}
keyed!(U129);
#[derive(Clone, Copy, Key)]
pub enum U200 { V0, V1, V2, V3, V4, V5, V6, V7, V8, V9, V10, V11, V12, V13, V14, V15, V16, V17, V18, V19, V20, V21, V22, V23, V24, V25, V26, V27, V28, V29, V30, V31, V32, V33, V34, V35, V36, V37, V38, V39, V40, V41, V42, V43, V44, V45, V46, V47, V48, V49, V50, V51, V52, V53, V54, V55, V56, V57, V58, V59, V60, V61, V62, V63, V64, V65, V66, V67, V68, V69, V70, V71, V72, V73, V74, V75, V76, V77, V78, V79, V80, V81, V82, V83, V84, V85, V86, V87, V88, V89, V90, V91, V92, V93, V94, V95, V96, V97, V98, V99, V100, V101, V102, V103, V104, V105, V106, V107, V108, V109, V110, V111, V112, V113, V114, V115, V116, V117, V118, V119, V120, V121, V122, V123, V124, V125, V126, V127, V128, V129, V130, V131, V132, V133, V134, V135, V136, V137, V138, V139, V140, V141, V142, V143, V144, V145, V146, V147, V148, V149, V150, V151, V152, V153, V154, V155, V156, V157, V158, V159, V160, V161, V162, V163, V164, V165, V166, V167, V168, V169, V170, V171, V172, V173, V174, V175, V176, V177, V178, V179, V180, V181, V182, V183, V184, V185, V186, V187, V188, V189, V190, V191, V192, V193, V194, V195, V196, V197, V198, V199 }
impl Shape for U200 {
    const N: usize = 200;
    fn key(i: usize) -> Self { match i { 0 => U200::V0, 1 => U200::V1, 2 => U200::V2, 3 => U200::V3, 4 => U200::V4, 5 => U200::V5, 6 => U200::V6, 7 => U200::V7, 8 => U200::V8, 9 => U200::V9, 10 => U200::V10, 11 => U200::V11, 12 => U200::V12, 13 => U200::V13, 14 => U200::V14, 15 => U200::V15, 16 => U200::V16, 17 => U200::V17, 18 => U200::V18, 19 => U200::V19, 20 => U200::V20, 21 => U200::V21, 22 => U200::V22, 23 => U200::V23, 24 => U200::V24, 25 => U200::V25, 26 => U200::V26, 27 => U200::V27, 28 => U200::V28, 29 => U200::V29, 30 => U200::V30, 31 => U200::V31, 32 => U200::V32, 33 => U200::V33, 34 => U200::V34, 35 => U200::V35, 36 => U200::V36, 37 => U200::V37, 38 => U200::V38, 39 => U200::V39, 40 => U200::V40, 41 => U200::V41, 42 => U200::V42, 43 => U200::V43, 44 => U200::V44, 45 => U200::V45, 46 => U200::V46, 47 => U200::V47, 48 => U200::V48, 49 => U200::V49, 50 => U200::V50, 51 => U200::V51, 52 => U200::V52, 53 => U200::V53, 54 => U200::V54, 55 => U200::V55, 56 => U200::V56, 57 => U200::V57, 58 => U200::V58, 59 => U200::V59, 60 => U200::V60, 61 => U200::V61, 62 => U200::V62, 63 => U200::V63, 64 => U200::V64, 65 => U200::V65, 66 => U200::V66, 67 => U200::V67, 68 => U200::V68, 69 => U200::V69, 70 => U200::V70, 71 => U200::V71, 72 => U200::V72, 73 => U200::V73, 74 => U200::V74, 75 => U200::V75, 76 => U200::V76, 77 => U200::V77, 78 => U200::V78, 79 => U200::V79, 80 => U200::V80, 81 => U200::V81, 82 => U200::V82, 83 => U200::V83, 84 => U200::V84, 85 => U200::V85, 86 => U200::V86, 87 => U200::V87, 88 => U200::V88, 89 => U200::V89, 90 => U200::V90, 91 => U200::V91, 92 => U200::V92, 93 => U200::V93, 94 => U200::V94, 95 => U200::V95, 96 => U200::V96, 97 => U200::V97, 98 => U200::V98, 99 => U200::V99, 100 => U200::V100, 101 => U200::V101, 102 => U200::V102, 103 => U200::V103, 104 => U200::V104, 105 => U200::V105, 106 => U200::V106, 107 => U200::V107, 108 => U200::V108, 109 => U200::V109, 110 => U200::V110, 111 => U200::V111, 112 => U200::V112, 113 => U200::V113, 114 => U200::V114, 115 => U200::V115, 116 => U200::V116, 117 => U200::V117, 118 => U200::V118, 119 => U200::V119, 120 => U200::V120, 121 => U200::V121, 122 => U200::V122, 123 => U200::V123, 124 => U200::V124, 125 => U200::V125, 126 => U200::V126, 127 => U200::V127, 128 => U200::V128, 129 => U200::V129, 130 => U200::V130, 131 => U200::V131, 132 => U200::V132, 133 => U200::V133, 134 => U200::V134, 135 => U200::V135, 136 => U200::V136, 137 => U200::V137, 138 => U200::V138, 139 => U200::V139, 140 => U200::V140, 141 => U200::V141, 142 => U200::V142, 143 => U200::V143, 144 => U200::V144, 145 => U200::V145, 146 => U200::V146, 147 => U200::V147, 148 => U200::V148, 149 => U200::V149, 150 => U200::V150, 151 => U200::V151, 152 => U200::V152, 153 => U200::V153, 154 => U200::V154, 155 => U200::V155, 156 => U200::V156, 157 => U200::V157, 158 => U200::V158, 159 => U200::V159, 160 => U200::V160, 161 => U200::V161, 162 => U200::V162, 163 => U200::V163, 164 => U200::V164, 165 => U200::V165, 166 => U200::V166, 167 => U200::V167, 168 => U200::V168, 169 => U200::V169, 170 => U200::V170, 171 => U200::V171, 172 => U200::V172, 173 => U200::V173, 174 => U200::V174, 175 => U200::V175, 176 => U200::V176, 177 => U200::V177, 178 => U200::V178, 179 => U200::V179, 180 => U200::V180, 181 => U200::V181, 182 => U200::V182, 183 => U200::V183, 184 => U200::V184, 185 => U200::V185, 186 => U200::V186, 187 => U200::V187, 188 => U200::V188, 189 => U200::V189, 190 => U200::V190, 191 => U200::V191, 192 => U200::V192, 193 => U200::V193, 194 => U200::V194, 195 => U200::V195, 196 => U200::V196, 197 => U200::V197, 198 => U200::V198, 199 => U200::V199, _ => fm::undecided() } }
    fn idx(self) -> usize { match self { U200::V0 => 0, U200::V1 => 1, U200::V2 => 2, U200::V3 => 3, U200::V4 => 4, U200::V5 => 5, U200::V6 => 6, U200::V7 => 7, U200::V8 => 8, U200::V9 => 9, U200::V10 => 10, U200::V11 => 11, U200::V12 => 12, U200::V13 => 13, U200::V14 => 14, U200::V15 => 15, U200::V16 => 16, U200::V17 => 17, U200::V18 => 18, U200::V19 => 19, U200::V20 => 20, U200::V21 => 21, U200::V22 => 22, U200::V23 => 23, U200::V24 => 24, U200::V25 => 25, U200::V26 => 26, U200::V27 => 27, U200::V28 => 28, U200::V29 => 29, U200::V30 => 30, U200::V31 => 31, U200::V32 => 32, U200::V33 => 33, U200::V34 => 34, U200::V35 => 35, U200::V36 => 36, U200::V37 => 37, U200::V38 => 38, U200::V39 => 39, U200::V40 => 40, U200::V41 => 41, U200::V42 => 42, U200::V43 => 43, U200::V44 => 44, U200::V45 => 45, U200::V46 => 46, U200::V47 => 47, U200::V48 => 48, U200::V49 => 49, U200::V50 => 50, U200::V51 => 51, U200::V52 => 52, U200::V53 => 53, U200::V54 => 54, U200::V55 => 55, U200::V56 => 56, U200::V57 => 57, U200::V58 => 58, U200::V59 => 59, U200::V60 => 60, U200::V61 => 61, U200::V62 => 62, U200::V63 => 63, U200::V64 => 64, U200::V65 => 65, U200::V66 => 66, U200::V67 => 67, U200::V68 => 68, U200::V69 => 69, U200::V70 => 70, U200::V71 => 71, U200::V72 => 72, U200::V73 => 73, U200::V74 => 74, U200::V75 => 75, U200::V76 => 76, U200::V77 => 77, U200::V78 => 78, U200::V79 => 79, U200::V80 => 80, U200::V81 => 81, U200::V82 => 82, U200::V83 => 83, U200::V84 => 84, U200::V85 => 85, U200::V86 => 86, U200::V87 => 87, U200::V88 => 88, U200::V89 => 89, U200::V90 => 90, U200::V91 => 91, U200::V92 => 92, U200::V93 => 93, U200::V94 => 94, U200::V95 => 95, U200::V96 => 96, U200::V97 => 97, U200::V98 => 98, U200::V99 => 99, U200::V100 => 100, U200::V101 => 101, U200::V102 => 102, U200::V103 => 103, U200::V104 => 104, U200::V105 => 105, U200::V106 => 106, U200::V107 => 107, U200::V108 => 108, U200::V109 => 109, U200::V110 => 110, U200::V111 => 111, U200::V112 => 112, U200::V113 => 113, U200::V114 => 114, U200::V115 => 115, U200::V116 => 116, U200::V117 => 117, U200::V118 => 118, U200::V119 => 119, U200::V120 => 120, U200::V121 => 121, U200::V122 => 122, U200::V123 => 123, U200::V124 => 124, U200::V125 => 125, U200::V126 => 126, U200::V127 => 127, U200::V128 => 128, U200::V129 => 129, U200::V130 => 130, U200::V131 => 131, U200::V132 => 132, U200::V133 => 133, U200::V134 => 134, U200::V135 => 135, U200::V136 => 136, U200::V137 => 137, U200::V138 => 138, U200::V139 => 139, U200::V140 => 140, U200::V141 => 141, U200::V142 => 142, U200::V143 => 143, U200::V144 => 144, U200::V145 => 145, U200::V146 => 146, U200::V147 => 147, U200::V148 => 148, U200::V149 => 149, U200::V150 => 150, U200::V151 => 151, U200::V152 => 152, U200::V153 => 153, U200::V154 => 154, U200::V155 => 155, U200::V156 => 156, U200::V157 => 157, U200::V158 => 158, U200::V159 => 159, U200::V160 => 160, U200::V161 => 161, U200::V162 => 162, U200::V163 => 163, U200::V164 => 164, U200::V165 => 165, U200::V166 => 166, U200::V167 => 167, U200::V168 => 168, U200::V169 => 169, U200::V170 => 170, U200::V171 => 171, U200::V172 => 172, U200::V173 => 173, U200::V174 => 174, U200::V175 => 175, U200::V176 => 176, U200::V177 => 177, U200::V178 => 178, U200::V179 => 179, U200::V180 => 180, U200::V181 => 181, U200::V182 => 182, U200::V183 => 183, U200::V184 => 184, U200::V185 => 185, U200::V186 => 186, U200::V187 => 187, U200::V188 => 188, U200::V189 => 189, U200::V190 => 190, U200::V191 => 191, U200::V192 => 192, U200::V193 => 193, U200::V194 => 194, U200::V195 => 195, U200::V196 => 196, U200::V197 => 197, U200::V198 => 198, U200::V199 => 199, } }
}
keyed!(U200);
#[derive(Clone, Copy, Key)]
pub enum U256 { V0, V1, V2, V3, V4, V5, V6, V7, V8, V9, V10, V11, V12, V13, V14, V15, V16, V17, V18, V19, V20, V21, V22, V23, V24, V25, V26, V27, V28, V29, V30, V31, V32, V33, V34, V35, V36, V37, V38, V39, V40, V41, V42, V43, V44, V45, V46, V47, V48, V49, V50, V51, V52, V53, V54, V55, V56, V57, V58, V59, V60, V61, V62, V63, V64, V65, V66, V67, V68, V69, V70, V71, V72, V73, V74, V75, V76, V77, V78, V79, V80, V81, V82, V83, V84, V85, V86, V87, V88, V89, V90, V91, V92, V93, V94, V95, V96, V97, V98, V99, V100, V101, V102, V103, V104, V105, V106, V107, V108, V109, V110, V111, V112, V113, V114, V115, V116, V117, V118, V119, V120, V121, V122, V123, V124, V125, V126, V127, V128, V129, V130, V131, V132, V133, V134, V135, V136, V137, V138, V139, V140, V141, V142, V143, V144, V145, V146, V147, V148, V149, V150, V151, V152, V153, V154, V155, V156, V157, V158, V159, V160, V161, V162, V163, V164, V165, V166, V167, V168, V169, V170, V171, V172, V173, V174, V175, V176, V177, V178, V179, V180, V181, V182, V183, V184, V185, V186, V187, V188, V189, V190, V191, V192, V193, V194, V195, V196, V197, V198, V199, V200, V201, V202, V203, V204, V205, V206, V207, V208, V209, V210, V211, V212, V213, V214, V215, V216, V217, V218, V219, V220, V221, V222, V223, V224, V225, V226, V227, V228, V229, V230, V231, V232, V233, V234, V235, V236, V237, V238, V239, V240, V241, V242, V243, V244, V245, V246, V247, V248, V249, V250, V251, V252, V253, V254, V255 }
impl Shape for U256 {
    const N: usize = 256;
    fn key(i: usize) -> Self { match i { 0 => U256::V0, 1 => U256::V1, 2 => U256::V2, 3 => U256::V3, 4 => U256::V4, 5 => U256::V5, 6 => U256::V6, 7 => U256::V7, 8 => U256::V8, 9 => U256::V9, 10 => U256::V10, 11 => U256::V11, 12 => U256::V12, 13 => U256::V13, 14 => U256::V14, 15 => U256::V15, 16 => U256::V16, 17 => U256::V17, 18 => U256::V18, 19 => U256::V19, 20 => U256::V20, 21 => U256::V21, 22 => U256::V22, 23 => U256::V23, 24 => U256::V24, 25 => U256::V25, 26 => U256::V26, 27 => U256::V27, 28 => U256::V28, 29 => U256::V29, 30 => U256::V30, 31 => U256::V31, 32 => U256::V32, 33 => U256::V33, 34 => U256::V34, 35 => U256::V35, 36 => U256::V36, 37 => U256::V37, 38 => U256::V38, 39 => U256::V39, 40 => U256::V40, 41 => U256::V41, 42 => U256::V42, 43 => U256::V43, 44 => U256::V44, 45 => U256::V45, 46 => U256::V46, 47 => U256::V47, 48 => U256::V48, 49 => U256::V49, 50 => U256::V50, 51 => U256::V51, 52 => U256::V52, 53 => U256::V53, 54 => U256::V54, 55 => U256::V55, 56 => U256::V56, 57 => U256::V57, 58 => U256::V58, 59 => U256::V59, 60 => U256::V60, 61 => U256::V61, 62 => U256::V62, 63 => U256::V63, 64 => U256::V64, 65 => U256::V65, 66 => U256::V66, 67 => U256::V67, 68 => U256::V68, 69 => U256::V69, 70 => U256::V70, 71 => U256::V71, 72 => U256::V72, 73 => U256::V73, 74 => U256::V74, 75 => U256::V75, 76 => U256::V76, 77 => U256::V77, 78 => U256::V78, 79 => U256::V79, 80 => U256::V80, 81 => U256::V81, 82 => U256::V82, 83 => U256::V83, 84 => U256::V84, 85 => U256::V85, 86 => U256::V86, 87 => U256::V87, 88 => U256::V88, 89 => U256::V89, 90 => U256::V90, 91 => U256::V91, 92 => U256::V92, 93 => U256::V93, 94 => U256::V94, 95 => U256::V95, 96 => U256::V96, 97 => U256::V97, 98 => U256::V98, 99 => U256::V99, 100 => U256::V100, 101 => U256::V101, 102 => U256::V102, 103 => U256::V103, 104 => U256::V104, 105 => U256::V105, 106 => U256::V106, 107 => U256::V107, 108 => U256::V108, 109 => U256::V109, 110 => U256::V110, 111 => U256::V111, 112 => U256::V112, 113 => U256::V113, 114 => U256::V114, 115 => U256::V115, 116 => U256::V116, 117 => U256::V117, 118 => U256::V118, 119 => U256::V119, 120 => U256::V120, 121 => U256::V121, 122 => U256::V122, 123 => U256::V123, 124 => U256::V124, 125 => U256::V125, 126 => U256::V126, 127 => U256::V127, 128 => U256::V128, 129 => U256::V129, 130 => U256::V130, 131 => U256::V131, 132 => U256::V132, 133 => U256::V133, 134 => U256::V134, 135 => U256::V135, 136 => U256::V136, 137 => U256::V137, 138 => U256::V138, 139 => U256::V139, 140 => U256::V140, 141 => U256::V141, 142 => U256::V142, 143 => U256::V143, 144 => U256::V144, 145 => U256::V145, 146 => U256::V146, 147 => U256::V147, 148 => U256::V148, 149 => U256::V149, 150 => U256::V150, 151 => U256::V151, 152 => U256::V152, 153 => U256::V153, 154 => U256::V154, 155 => U256::V155, 156 => U256::V156, 157 => U256::V157, 158 => U256::V158, 159 => U256::V159, 160 => U256::V160, 161 => U256::V161, 162 => U256::V162, 163 => U256::V163, 164 => U256::V164, 165 => U256::V165, 166 => U256::V166, 167 => U256::V167, 168 => U256::V168, 169 => U256::V169, 170 => U256::V170, 171 => U256::V171, 172 => U256::V172, 173 => U256::V173, 174 => U256::V174, 175 => U256::V175, 176 => U256::V176, 177 => U256::V177, 178 => U256::V178, 179 => U256::V179, 180 => U256::V180, 181 => U256::V181, 182 => U256::V182, 183 => U256::V183, 184 => U256::V184, 185 => U256::V185, 186 => U256::V186, 187 => U256::V187, 188 => U256::V188, 189 => U256::V189, 190 => U256::V190, 191 => U256::V191, 192 => U256::V192, 193 => U256::V193, 194 => U256::V194, 195 => U256::V195, 196 => U256::V196, 197 => U256::V197, 198 => U256::V198, 199 => U256::V199, 200 => U256::V200, 201 => U256::V201, 202 => U256::V202, 203 => U256::V203, 204 => U256::V204, 205 => U256::V205, 206 => U256::V206, 207 => U256::V207, 208 => U256::V208, 209 => U256::V209, 210 => U256::V210, 211 => U256::V211, 212 => U256::V212, 213 => U256::V213, 214 => U256::V214, 215 => U256::V215, 216 => U256::V216, 217 => U256::V217, 218 => U256::V218, 219 => U256::V219, 220 => U256::V220, 221 => U256::V221, 222 => U256::V222, 223 => U256::V223, 224 => U256::V224, 225 => U256::V225, 226 => U256::V226, 227 => U256::V227, 228 => U256::V228, 229 => U256::V229, 230 => U256::V230, 231 => U256::V231, 232 => U256::V232, 233 => U256::V233, 234 => U256::V234, 235 => U256::V235, 236 => U256::V236, 237 => U256::V237, 238 => U256::V238, 239 => U256::V239, 240 => U256::V240, 241 => U256::V241, 242 => U256::V242, 243 => U256::V243, 244 => U256::V244, 245 => U256::V245, 246 => U256::V246, 247 => U256::V247, 248 => U256::V248, 249 => U256::V249, 250 => U256::V250, 251 => U256::V251, 252 => U256::V252, 253 => U256::V253, 254 => U256::V254, 255 => U256::V255, _ => fm::undecided() } }
    fn idx(self) -> usize { match self { U256::V0 => 0, U256::V1 => 1, U256::V2 => 2, U256::V3 => 3, U256::V4 => 4, U256::V5 => 5, U256::V6 => 6, U256::V7 => 7, U256::V8 => 8, U256::V9 => 9, U256::V10 => 10, U256::V11 => 11, U256::V12 => 12, U256::V13 => 13, U256::V14 => 14, U256::V15 => 15, U256::V16 => 16, U256::V17 => 17, U256::V18 => 18, U256::V19 => 19, U256::V20 => 20, U256::V21 => 21, U256::V22 => 22, U256::V23 => 23, U256::V24 => 24, U256::V25 => 25, U256::V26 => 26, U256::V27 => 27, U256::V28 => 28, U256::V29 => 29, U256::V30 => 30, U256::V31 => 31, U256::V32 => 32, U256::V33 => 33, U256::V34 => 34, U256::V35 => 35, U256::V36 => 36, U256::V37 => 37, U256::V38 => 38, U256::V39 => 39, U256::V40 => 40, U256::V41 => 41, U256::V42 => 42, U256::V43 => 43, U256::V44 => 44, U256::V45 => 45, U256::V46 => 46, U256::V47 => 47, U256::V48 => 48, U256::V49 => 49, U256::V50 => 50, U256::V51 => 51, U256::V52 => 52, U256::V53 => 53, U256::V54 => 54, U256::V55 => 55, U256::V56 => 56, U256::V57 => 57, U256::V58 => 58, U256::V59 => 59, U256::V60 => 60, U256::V61 => 61, U256::V62 => 62, U256::V63 => 63, U256::V64 => 64, U256::V65 => 65, U256::V66 => 66, U256::V67 => 67, U256::V68 => 68, U256::V69 => 69, U256::V70 => 70, U256::V71 => 71, U256::V72 => 72, U256::V73 => 73, U256::V74 => 74, U256::V75 => 75, U256::V76 => 76, U256::V77 => 77, U256::V78 => 78, U256::V79 => 79, U256::V80 => 80, U256::V81 => 81, U256::V82 => 82, U256::V83 => 83, U256::V84 => 84, U256::V85 => 85, U256::V86 => 86, U256::V87 => 87, U256::V88 => 88, U256::V89 => 89, U256::V90 => 90, U256::V91 => 91, U256::V92 => 92, U256::V93 => 93, U256::V94 => 94, U256::V95 => 95, U256::V96 => 96, U256::V97 => 97, U256::V98 => 98, U256::V99 => 99, U256::V100 => 100, U256::V101 => 101, U256::V102 => 102, U256::V103 => 103, U256::V104 => 104, U256::V105 => 105, U256::V106 => 106, U256::V107 => 107, U256::V108 => 108, U256::V109 => 109, U256::V110 => 110, U256::V111 => 111, U256::V112 => 112, U256::V113 => 113, U256::V114 => 114, U256::V115 => 115, U256::V116 => 116, U256::V117 => 117, U256::V118 => 118, U256::V119 => 119, U256::V120 => 120, U256::V121 => 121, U256::V122 => 122, U256::V123 => 123, U256::V124 => 124, U256::V125 => 125, U256::V126 => 126, U256::V127 => 127, U256::V128 => 128, U256::V129 => 129, U256::V130 => 130, U256::V131 => 131, U256::V132 => 132, U256::V133 => 133, U256::V134 => 134, U256::V135 => 135, U256::V136 => 136, U256::V137 => 137, U256::V138 => 138, U256::V139 => 139, U256::V140 => 140, U256::V141 => 141, U256::V142 => 142, U256::V143 => 143, U256::V144 => 144, U256::V145 => 145, U256::V146 => 146, U256::V147 => 147, U256::V148 => 148, U256::V149 => 149, U256::V150 => 150, U256::V151 => 151, U256::V152 => 152, U256::V153 => 153, U256::V154 => 154, U256::V155 => 155, U256::V156 => 156, U256::V157 => 157, U256::V158 => 158, U256::V159 => 159, U256::V160 => 160, U256::V161 => 161, U256::V162 => 162, U256::V163 => 163, U256::V164 => 164, U256::V165 => 165, U256::V166 => 166, U256::V167 => 167, U256::V168 => 168, U256::V169 => 169, U256::V170 => 170, U256::V171 => 171, U256::V172 => 172, U256::V173 => 173, U256::V174 => 174, U256::V175 => 175, U256::V176 => 176, U256::V177 => 177, U256::V178 => 178, U256::V179 => 179, U256::V180 => 180, U256::V181 => 181, U256::V182 => 182, U256::V183 => 183, U256::V184 => 184, U256::V185 => 185, U256::V186 => 186, U256::V187 => 187, U256::V188 => 188, U256::V189 => 189, U256::V190 => 190, U256::V191 => 191, U256::V192 => 192, U256::V193 => 193, U256::V194 => 194, U256::V195 => 195, U256::V196 => 196, U256::V197 => 197, U256::V198 => 198, U256::V199 => 199, U256::V200 => 200, U256::V201 => 201, U256::V202 => 202, U256::V203 => 203, U256::V204 => 204, U256::V205 => 205, U256::V206 => 206, U256::V207 => 207, U256::V208 => 208, U256::V209 => 209, U256::V210 => 210, U256::V211 => 211, U256::V212 => 212, U256::V213 => 213, U256::V214 => 214, U256::V215 => 215, U256::V216 => 216, U256::V217 => 217, U256::V218 => 218, U256::V219 => 219, U256::V220 => 220, U256::V221 => 221, U256::V222 => 222, U256::V223 => 223, U256::V224 => 224, U256::V225 => 225, U256::V226 => 226, U256::V227 => 227, U256::V228 => 228, U256::V229 => 229, U256::V230 => 230, U256::V231 => 231, U256::V232 => 232, U256::V233 => 233, U256::V234 => 234, U256::V235 => 235, U256::V236 => 236, U256::V237 => 237, U256::V238 => 238, U256::V239 => 239, U256::V240 => 240, U256::V241 => 241, U256::V242 => 242, U256::V243 => 243, U256::V244 => 244, U256::V245 => 245, U256::V246 => 246, U256::V247 => 247, U256::V248 => 248, U256::V249 => 249, U256::V250 => 250, U256::V251 => 251, U256::V252 => 252, U256::V253 => 253, U256::V254 => 254, U256::V255 => 255, } }
}
keyed!(U256);
#[derive(Clone, Copy, Key)]
pub enum U257 { V0, V1, V2, V3, V4, V5, V6, V7, V8, V9, V10, V11, V12, V13, V14, V15, V16, V17, V18, V19, V20, V21, V22, V23, V24, V25, V26, V27, V28, V29, V30, V31, V32, V33, V34, V35, V36, V37, V38, V39, V40, V41, V42, V43, V44, V45, V46, V47, V48, V49, V50, V51, V52, V53, V54, V55, V56, V57, V58, V59, V60, V61, V62, V63, V64, V65, V66, V67, V68, V69, V70, V71, V72, V73, V74, V75, V76, V77, V78, V79, V80, V81, V82, V83, V84, V85, V86, V87, V88, V89, V90, V91, V92, V93, V94, V95, V96, V97, V98, V99, V100, V101, V102, V103, V104, V105, V106, V107, V108, V109, V110, V111, V112, V113, V114, V115, V116, V117, V118, V119, V120, V121, V122, V123, V124, V125, V126, V127, V128, V129, V130, V131, V132, V133, V134, V135, V136, V137, V138, V139, V140, V141, V142, V143, V144, V145, V146, V147, V148, V149, V150, V151, V152, V153, V154, V155, V156, V157, V158, V159, V160, V161, V162, V163, V164, V165, V166, V167, V168, V169, V170, V171, V172, V173, V174, V175, V176, V177, V178, V179, V180, V181, V182, V183, V184, V185, V186, V187, V188, V189, V190, V191, V192, V193, V194, V195, V196, V197, V198, V199, V200, V201, V202, V203, V204, V205, V206, V207, V208, V209, V210, V211, V212, V213, V214, V215, V216, V217, V218, V219, V220, V221, V222, V223, V224, V225, V226, V227, V228, V229, V230, V231, V232, V233, V234, V235, V236, V237, V238, V239, V240, V241, V242, V243, V244, V245, V246, V247, V248, V249, V250, V251, V252, V253, V254, V255, V256 }
impl Shape for U257 {
    const N: usize = 257;
    fn key(i: usize) -> Self { match i { 0 => U257::V0, 1 => U257::V1, 2 => U257::V2, 3 => U257::V3, 4 => U257::V4, 5 => U257::V5, 6 => U257::V6, 7 => U257::V7, 8 => U257::V8, 9 => U257::V9, 10 => U257::V10, 11 => U257::V11, 12 => U257::V12, 13 => U257::V13, 14 => U257::V14, 15 => U257::V15, 16 => U257::V16, 17 => U257::V17, 18 => U257::V18, 19 => U257::V19, 20 => U257::V20, 21 => U257::V21, 22 => U257::V22, 23 => U257::V23, 24 => U257::V24, 25 => U257::V25, 26 => U257::V26, 27 => U257::V27, 28 => U257::V28, 29 => U257::V29, 30 => U257::V30, 31 => U257::V31, 32 => U257::V32, 33 => U257::V33, 34 => U257::V34, 35 => U257::V35, 36 => U257::V36, 37 => U257::V37, 38 => U257::V38, 39 => U257::V39, 40 => U257::V40, 41 => U257::V41, 42 => U257::V42, 43 => U257::V43, 44 => U257::V44, 45 => U257::V45, 46 => U257::V46, 47 => U257::V47, 48 => U257::V48, 49 => U257::V49, 50 => U257::V50, 51 => U257::V51, 52 => U257::V52, 53 => U257::V53, 54 => U257::V54, 55 => U257::V55, 56 => U257::V56, 57 => U257::V57, 58 => U257::V58, 59 => U257::V59, 60 => U257::V60, 61 => U257::V61, 62 => U257::V62, 63 => U257::V63, 64 => U257::V64, 65 => U257::V65, 66 => U257::V66, 67 => U257::V67, 68 => U257::V68, 69 => U257::V69, 70 => U257::V70, 71 => U257::V71, 72 => U257::V72, 73 => U257::V73, 74 => U257::V74, 75 => U257::V75, 76 => U257::V76, 77 => U257::V77, 78 => U257::V78, 79 => U257::V79, 80 => U257::V80, 81 => U257::V81, 82 => U257::V82, 83 => U257::V83, 84 => U257::V84, 85 => U257::V85, 86 => U257::V86, 87 => U257::V87, 88 => U257::V88, 89 => U257::V89, 90 => U257::V90, 91 => U257::V91, 92 => U257::V92, 93 => U257::V93, 94 => U257::V94, 95 => U257::V95, 96 => U257::V96, 97 => U257::V97, 98 => U257::V98, 99 => U257::V99, 100 => U257::V100, 101 => U257::V101, 102 => U257::V102, 103 => U257::V103, 104 => U257::V104, 105 => U257::V105, 106 => U257::V106, 107 => U257::V107, 108 => U257::V108, 109 => U257::V109, 110 => U257::V110, 111 => U257::V111, 112 => U257::V112, 113 => U257::V113, 114 => U257::V114, 115 => U257::V115, 116 => U257::V116, 117 => U257::V117, 118 => U257::V118, 119 => U257::V119, 120 => U257::V120, 121 => U257::V121, 122 => U257::V122, 123 => U257::V123, 124 => U257::V124, 125 => U257::V125, 126 => U257::V126, 127 => U257::V127, 128 => U257::V128, 129 => U257::V129, 130 => U257::V130, 131 => U257::V131, 132 => U257::V132, 133 => U257::V133, 134 => U257::V134, 135 => U257::V135, 136 => U257::V136, 137 => U257::V137, 138 => U257::V138, 139 => U257::V139, 140 => U257::V140, 141 => U257::V141, 142 => U257::V142, 143 => U257::V143, 144 => U257::V144, 145 => U257::V145, 146 => U257::V146, 147 => U257::V147, 148 => U257::V148, 149 => U257::V149, 150 => U257::V150, 151 => U257::V151, 152 => U257::V152, 153 => U257::V153, 154 => U257::V154, 155 => U257::V155, 156 => U257::V156, 157 => U257::V157, 158 => U257::V158, 159 => U257::V159, 160 => U257::V160, 161 => U257::V161, 162 => U257::V162, 163 => U257::V163, 164 => U257::V164, 165 => U257::V165, 166 => U257::V166, 167 => U257::V167, 168 => U257::V168, 169 => U257::V169, 170 => U257::V170, 171 => U257::V171, 172 => U257::V172, 173 => U257::V173, 174 => U257::V174, 175 => U257::V175, 176 => U257::V176, 177 => U257::V177, 178 => U257::V178, 179 => U257::V179, 180 => U257::V180, 181 => U257::V181, 182 => U257::V182, 183 => U257::V183, 184 => U257::V184, 185 => U257::V185, 186 => U257::V186, 187 => U257::V187, 188 => U257::V188, 189 => U257::V189, 190 => U257::V190, 191 => U257::V191, 192 => U257::V192, 193 => U257::V193, 194 => U257::V194, 195 => U257::V195, 196 => U257::V196, 197 => U257::V197, 198 => U257::V198, 199 => U257::V199, 200 => U257::V200, 201 => U257::V201, 202 => U257::V202, 203 => U257::V203, 204 => U257::V204, 205 => U257::V205, 206 => U257::V206, 207 => U257::V207, 208 => U257::V208, 209 => U257::V209, 210 => U257::V210, 211 => U257::V211, 212 => U257::V212, 213 => U257::V213, 214 => U257::V214, 215 => U257::V215, 216 => U257::V216, 217 => U257::V217, 218 => U257::V218, 219 => U257::V219, 220 => U257::V220, 221 => U257::V221, 222 => U257::V222, 223 => U257::V223, 224 => U257::V224, 225 => U257::V225, 226 => U257::V226, 227 => U257::V227, 228 => U257::V228, 229 => U257::V229, 230 => U257::V230, 231 => U257::V231, 232 => U257::V232, 233 => U257::V233, 234 => U257::V234, 235 => U257::V235, 236 => U257::V236, 237 => U257::V237, 238 => U257::V238, 239 => U257::V239, 240 => U257::V240, 241 => U257::V241, 242 => U257::V242, 243 => U257::V243, 244 => U257::V244, 245 => U257::V245, 246 => U257::V246, 247 => U257::V247, 248 => U257::V248, 249 => U257::V249, 250 => U257::V250, 251 => U257::V251, 252 => U257::V252, 253 => U257::V253, 254 => U257::V254, 255 => U257::V255, 256 => U257::V256, _ => fm::undecided() } }
    fn idx(self) -> usize { match self { U257::V0 => 0, U257::V1 => 1, U257::V2 => 2, U257::V3 => 3, U257::V4 => 4, U257::V5 => 5, U257::V6 => 6, U257::V7 => 7, U257::V8 => 8, U257::V9 => 9, U257::V10 => 10, U257::V11 => 11, U257::V12 => 12, U257::V13 => 13, U257::V14 => 14, U257::V15 => 15, U257::V16 => 16, U257::V17 => 17, U257::V18 => 18, U257::V19 => 19, U257::V20 => 20, U257::V21 => 21, U257::V22 => 22, U257::V23 => 23, U257::V24 => 24, U257::V25 => 25, U257::V26 => 26, U257::V27 => 27, U257::V28 => 28, U257::V29 => 29, U257::V30 => 30, U257::V31 => 31, U257::V32 => 32, U257::V33 => 33, U257::V34 => 34, U257::V35 => 35, U257::V36 => 36, U257::V37 => 37, U257::V38 => 38, U257::V39 => 39, U257::V40 => 40, U257::V41 => 41, U257::V42 => 42, U257::V43 => 43, U257::V44 => 44, U257::V45 => 45, U257::V46 => 46, U257::V47 => 47, U257::V48 => 48, U257::V49 => 49, U257::V50 => 50, U257::V51 => 51, U257::V52 => 52, U257::V53 => 53, U257::V54 => 54, U257::V55 => 55, U257::V56 => 56, U257::V57 => 57, U257::V58 => 58, U257::V59 => 59, U257::V60 => 60, U257::V61 => 61, U257::V62 => 62, U257::V63 => 63, U257::V64 => 64, U257::V65 => 65, U257::V66 => 66, U257::V67 => 67, U257::V68 => 68, U257::V69 => 69, U257::V70 => 70, U257::V71 => 71, U257::V72 => 72, U257::V73 => 73, U257::V74 => 74, U257::V75 => 75, U257::V76 => 76, U257::V77 => 77, U257::V78 => 78, U257::V79 => 79, U257::V80 => 80, U257::V81 => 81, U257::V82 => 82, U257::V83 => 83, U257::V84 => 84, U257::V85 => 85, U257::V86 => 86, U257::V87 => 87, U257::V88 => 88, U257::V89 => 89, U257::V90 => 90, U257::V91 => 91, U257::V92 => 92, U257::V93 => 93, U257::V94 => 94, U257::V95 => 95, U257::V96 => 96, U257::V97 => 97, U257::V98 => 98, U257::V99 => 99, U257::V100 => 100, U257::V101 => 101, U257::V102 => 102, U257::V103 => 103, U257::V104 => 104, U257::V105 => 105, U257::V106 => 106, U257::V107 => 107, U257::V108 => 108, U257::V109 => 109, U257::V110 => 110, U257::V111 => 111, U257::V112 => 112, U257::V113 => 113, U257::V114 => 114, U257::V115 => 115, U257::V116 => 116, U257::V117 => 117, U257::V118 => 118, U257::V119 => 119, U257::V120 => 120, U257::V121 => 121, U257::V122 => 122, U257::V123 => 123, U257::V124 => 124, U257::V125 => 125, U257::V126 => 126, U257::V127 => 127, U257::V128 => 128, U257::V129 => 129, U257::V130 => 130, U257::V131 => 131, U257::V132 => 132, U257::V133 => 133, U257::V134 => 134, U257::V135 => 135, U257::V136 => 136, U257::V137 => 137, U257::V138 => 138, U257::V139 => 139, U257::V140 => 140, U257::V141 => 141, U257::V142 => 142, U257::V143 => 143, U257::V144 => 144, U257::V145 => 145, U257::V146 => 146, U257::V147 => 147, U257::V148 => 148, U257::V149 => 149, U257::V150 => 150, U257::V151 => 151, U257::V152 => 152, U257::V153 => 153, U257::V154 => 154, U257::V155 => 155, U257::V156 => 156, U257::V157 => 157, U257::V158 => 158, U257::V159 => 159, U257::V160 => 160, U257::V161 => 161, U257::V162 => 162, U257::V163 => 163, U257::V164 => 164, U257::V165 => 165, U257::V166 => 166, U257::V167 => 167, U257::V168 => 168, U257::V169 => 169, U257::V170 => 170, U257::V171 => 171, U257::V172 => 172, U257::V173 => 173, U257::V174 => 174, U257::V175 => 175, U257::V176 => 176, U257::V177 => 177, U257::V178 => 178, U257::V179 => 179, U257::V180 => 180, U257::V181 => 181, U257::V182 => 182, U257::V183 => 183, U257::V184 => 184, U257::V185 => 185, U257::V186 => 186, U257::V187 => 187, U257::V188 => 188, U257::V189 => 189, U257::V190 => 190, U257::V191 => 191, U257::V192 => 192, U257::V193 => 193, U257::V194 => 194, U257::V195 => 195, U257::V196 => 196, U257::V197 => 197, U257::V198 => 198, U257::V199 => 199, U257::V200 => 200, U257::V201 => 201, U257::V202 => 202, U257::V203 => 203, U257::V204 => 204, U257::V205 => 205, U257::V206 => 206, U257::V207 => 207, U257::V208 => 208, U257::V209 => 209, U257::V210 => 210, U257::V211 => 211, U257::V212 => 212, U257::V213 => 213, U257::V214 => 214, U257::V215 => 215, U257::V216 => 216, U257::V217 => 217, U257::V218 => 218, U257::V219 => 219, U257::V220 => 220, U257::V221 => 221, U257::V222 => 222, U257::V223 => 223, U257::V224 => 224, U257::V225 => 225, U257::V226 => 226, U257::V227 => 227, U257::V228 => 228, U257::V229 => 229, U257::V230 => 230, U257::V231 => 231, U257::V232 => 232, U257::V233 => 233, U257::V234 => 234, U257::V235 => 235, U257::V236 => 236, U257::V237 => 237, U257::V238 => 238, U257::V239 => 239, U257::V240 => 240, U257::V241 => 241, U257::V242 => 242, U257::V243 => 243, U257::V244 => 244, U257::V245 => 245, U257::V246 => 246, U257::V247 => 247, U257::V248 => 248, U257::V249 => 249, U257::V250 => 250, U257::V251 => 251, U257::V252 => 252, U257::V253 => 253, U257::V254 => 254, U257::V255 => 255, U257::V256 => 256, } }
}
keyed!(U257);
#[derive(Clone, Copy, Key)]
#[key(bitset)]
pub enum B0 {  }
impl Shape for B0 {
    const N: usize = 0;
    fn key(i: usize) -> Self { match i { _ => fm::undecided() } }
    fn idx(self) -> usize { match self {} }
}
keyed!(B0);
#[derive(Clone, Copy, Key)]
#[key(bitset)]
pub enum B1 { V0 }
impl Shape for B1 {
    const N: usize = 1;
    fn key(i: usize) -> Self { match i { 0 => B1::V0, _ => fm::undecided() } }
    fn idx(self) -> usize { match self { B1::V0 => 0, } }
}
keyed!(B1);
#[derive(Clone, Copy, Key)]
#[key(bitset)]
pub enum B2 { V0, V1 }
impl Shape for B2 {
    const N: usize = 2;
    fn key(i: usize) -> Self { match i { 0 => B2::V0, 1 => B2::V1, _ => fm::undecided() } }
    fn idx(self) -> usize { match self { B2::V0 => 0, B2::V1 => 1, } }
}
keyed!(B2);
#[derive(Clone, Copy, Key)]
#[key(bitset)]
pub enum B3 { V0, V1, V2 }
impl Shape for B3 {
    const N: usize = 3;
    fn key(i: usize) -> Self { match i { 0 => B3::V0, 1 => B3::V1, 2 => B3::V2, _ => fm::undecided() } }
    fn idx(self) -> usize { match self { B3::V0 => 0, B3::V1 => 1, B3::V2 => 2, } }
}
keyed!(B3);
#[derive(Clone, Copy, Key)]
#[key(bitset)]
pub enum B4 { V0, V1, V2, V3 }
impl Shape for B4 {
    const N: usize = 4;
    fn key(i: usize) -> Self { match i { 0 => B4::V0, 1 => B4::V1, 2 => B4::V2, 3 => B4::V3, _ => fm::undecided() } }
    fn idx(self) -> usize { match self { B4::V0 => 0, B4::V1 => 1, B4::V2 => 2, B4::V3 => 3, } }
}
keyed!(B4);
#[derive(Clone, Copy, Key)]
#[key(bitset)]
pub enum B5 { V0, V1, V2, V3, V4 }
impl Shape for B5 {
    const N: usize = 5;
    fn key(i: usize) -> Self { match i { 0 => B5::V0, 1 => B5::V1, 2 => B5::V2, 3 => B5::V3, 4 => B5::V4, _ => fm::undecided() } }
    fn idx(self) -> usize { match self { B5::V0 => 0, B5::V1 => 1, B5::V2 => 2, B5::V3 => 3, B5::V4 => 4, } }
}
keyed!(B5);
#[derive(Clone, Copy, Key)]
#[key(bitset)]
pub enum B6 { V0, V1, V2, V3, V4, V5 }
impl Shape for B6 {
    const N: usize = 6;
    fn key(i: usize) -> Self { match i { 0 => B6::V0, 1 => B6::V1, 2 => B6::V2, 3 => B6::V3, 4 => B6::V4, 5 => B6::V5, _ => fm::undecided() } }
    fn idx(self) -> usize { match self { B6::V0 => 0, B6::V1 => 1, B6::V2 => 2, B6::V3 => 3, B6::V4 => 4, B6::V5 => 5, } }
}
keyed!(B6);
#[derive(Clone, Copy, Key)]
#[key(bitset)]
pub enum B7 { V0, V1, V2, V3, V4, V5, V6 }
impl Shape for B7 {
    const N: usize = 7;
    fn key(i: usize) -> Self { match i { 0 => B7::V0, 1 => B7::V1, 2 => B7::V2, 3 => B7::V3, 4 => B7::V4, 5 => B7::V5, 6 => B7::V6, _ => fm::undecided() } }
    fn idx(self) -> usize { match self { B7::V0 => 0, B7::V1 => 1, B7::V2 => 2, B7::V3 => 3, B7::V4 => 4, B7::V5 => 5, B7::V6 => 6, } }
}
keyed!(B7);
#[derive(Clone, Copy, Key)]
#[key(bitset)]
pub enum B8 { V0, V1, V2, V3, V4, V5, V6, V7 }
impl Shape for B8 {
    const N: usize = 8;
    fn key(i: usize) -> Self { match i { 0 => B8::V0, 1 => B8::V1, 2 => B8::V2, 3 => B8::V3, 4 => B8::V4, 5 => B8::V5, 6 => B8::V6, 7 => B8::V7, _ => fm::undecided() } }
    fn idx(self) -> usize { match self { B8::V0 => 0, B8::V1 => 1, B8::V2 => 2, B8::V3 => 3, B8::V4 => 4, B8::V5 => 5, B8::V6 => 6, B8::V7 => 7, } }
}
keyed!(B8);
#[derive(Clone, Copy, Key)]
#[key(bitset)]
pub enum B9 { V0, V1, V2, V3, V4, V5, V6, V7, V8 }
impl Shape for B9 {
    const N: usize = 9;
    fn key(i: usize) -> Self { match i { 0 => B9::V0, 1 => B9::V1, 2 => B9::V2, 3 => B9::V3, 4 => B9::V4, 5 => B9::V5, 6 => B9::V6, 7 => B9::V7, 8 => B9::V8, _ => fm::undecided() } }
    fn idx(self) -> usize { match self { B9::V0 => 0, B9::V1 => 1, B9::V2 => 2, B9::V3 => 3, B9::V4 => 4, B9::V5 => 5, B9::V6 => 6, B9::V7 => 7, B9::V8 => 8, } }
}
keyed!(B9);
#[derive(Clone, Copy, Key)]
#[key(bitset)]
pub enum B10 { V0, V1, V2, V3, V4, V5, V6, V7, V8, V9 }
impl Shape for B10 {
    const N: usize = 10;
    fn key(i: usize) -> Self { match i { 0 => B10::V0, 1 => B10::V1, 2 => B10::V2, 3 => B10::V3, 4 => B10::V4, 5 => B10::V5, 6 => B10::V6, 7 => B10::V7, 8 => B10::V8, 9 => B10::V9, _ => fm::undecided() } }
    fn idx(self) -> usize { match self { B10::V0 => 0, B10::V1 => 1, B10::V2 => 2, B10::V3 => 3, B10::V4 => 4, B10::V5 => 5, B10::V6 => 6, B10::V7 => 7, B10::V8 => 8, B10::V9 => 9, } }
}
keyed!(B10);
#[derive(Clone, Copy, Key)]
#[key(bitset)]
pub enum B15 { V0, V1, V2, V3, V4, V5, V6, V7, V8, V9, V10, V11, V12, V13, V14 }
impl Shape for B15 {
    const N: usize = 15;
    fn key(i: usize) -> Self { match i { 0 => B15::V0, 1 => B15::V1, 2 => B15::V2, 3 => B15::V3, 4 => B15::V4, 5 => B15::V5, 6 => B15::V6, 7 => B15::V7, 8 => B15::V8, 9 => B15::V9, 10 => B15::V10, 11 => B15::V11, 12 => B15::V12, 13 => B15::V13, 14 => B15::V14, _ => fm::undecided() } }
    fn idx(self) -> usize { match self { B15::V0 => 0, B15::V1 => 1, B15::V2 => 2, B15::V3 => 3, B15::V4 => 4, B15::V5 => 5, B15::V6 => 6, B15::V7 => 7, B15::V8 => 8, B15::V9 => 9, B15::V10 => 10, B15::V11 => 11, B15::V12 => 12, B15::V13 => 13, B15::V14 => 14, } }
}
keyed!(B15);
#[derive(Clone, Copy, Key)]
#[key(bitset)]
pub enum B16 { V0, V1, V2, V3, V4, V5, V6, V7, V8, V9, V10, V11, V12, V13, V14, V15 }
impl Shape for B16 {
    const N: usize = 16;
    fn key(i: usize) -> Self { match i { 0 => B16::V0, 1 => B16::V1, 2 => B16::V2, 3 => B16::V3, 4 => B16::V4, 5 => B16::V5, 6 => B16::V6, 7 => B16::V7, 8 => B16::V8, 9 => B16::V9, 10 => B16::V10, 11 => B16::V11, 12 => B16::V12, 13 => B16::V13, 14 => B16::V14, 15 => B16::V15, _ => fm::undecided() } }
    fn idx(self) -> usize { match self { B16::V0 => 0, B16::V1 => 1, B16::V2 => 2, B16::V3 => 3, B16::V4 => 4, B16::V5 => 5, B16::V6 => 6, B16::V7 => 7, B16::V8 => 8, B16::V9 => 9, B16::V10 => 10, B16::V11 => 11, B16::V12 => 12, B16::V13 => 13, B16::V14 => 14, B16::V15 => 15, } }
}
keyed!(B16);
#[derive(Clone, Copy, Key)]
#[key(bitset)]
pub enum B17 { V0, V1, V2, V3, V4, V5, V6, V7, V8, V9, V10, V11, V12, V13, V14, V15, V16 }
impl Shape for B17 {
    const N: usize = 17;
    fn key(i: usize) -> Self { match i { 0 => B17::V0, 1 => B17::V1, 2 => B17::V2, 3 => B17::V3, 4 => B17::V4, 5 => B17::V5, 6 => B17::V6, 7 => B17::V7, 8 => B17::V8, 9 => B17::V9, 10 => B17::V10, 11 => B17::V11, 12 => B17::V12, 13 => B17::V13, 14 => B17::V14, 15 => B17::V15, 16 => B17::V16, _ => fm::undecided() } }
    fn idx(self) -> usize { match self { B17::V0 => 0, B17::V1 => 1, B17::V2 => 2, B17::V3 => 3, B17::V4 => 4, B17::V5 => 5, B17::V6 => 6, B17::V7 => 7, B17::V8 => 8, B17::V9 => 9, B17::V10 => 10, B17::V11 => 11, B17::V12 => 12, B17::V13 => 13, B17::V14 => 14, B17::V15 => 15, B17::V16 => 16, } }
}
keyed!(B17);
#[derive(Clone, Copy, Key)]
#[key(bitset)]
pub enum B31 { V0, V1, V2, V3, V4, V5, V6, V7, V8, V9, V10, V11, V12, V13, V14, V15, V16, V17, V18, V19, V20, V21, V22, V23, V24, V25, V26, V27, V28, V29, V30 }
impl Shape for B31 {
    const N: usize = 31;
    fn key(i: usize) -> Self { match i { 0 => B31::V0, 1 => B31::V1, 2 => B31::V2, 3 => B31::V3, 4 => B31::V4, 5 => B31::V5, 6 => B31::V6, 7 => B31::V7, 8 => B31::V8, 9 => B31::V9, 10 => B31::V10, 11 => B31::V11, 12 => B31::V12, 13 => B31::V13, 14 => B31::V14, 15 => B31::V15, 16 => B31::V16, 17 => B31::V17, 18 => B31::V18, 19 => B31::V19, 20 => B31::V20, 21 => B31::V21, 22 => B31::V22, 23 => B31::V23, 24 => B31::V24, 25 => B31::V25, 26 => B31::V26, 27 => B31::V27, 28 => B31::V28, 29 => B31::V29, 30 => B31::V30, _ => fm::undecided() } }
    fn idx(self) -> usize { match self { B31::V0 => 0, B31::V1 => 1, B31::V2 => 2, B31::V3 => 3, B31::V4 => 4, B31::V5 => 5, B31::V6 => 6, B31::V7 => 7, B31::V8 => 8, B31::V9 => 9, B31::V10 => 10, B31::V11 => 11, B31::V12 => 12, B31::V13 => 13, B31::V14 => 14, B31::V15 => 15, B31::V16 => 16, B31::V17 => 17, B31::V18 => 18, B31::V19 => 19, B31::V20 => 20, B31::V21 => 21, B31::V22 => 22, B31::V23 => 23, B31::V24 => 24, B31::V25 => 25, B31::V26 => 26, B31::V27 => 27, B31::V28 => 28, B31::V29 => 29, B31::V30 => 30, } }
}
keyed!(B31);
#[derive(Clone, Copy, Key)]
#[key(bitset)]
pub enum B32 { V0, V1, V2, V3, V4, V5, V6, V7, V8, V9, V10, V11, V12, V13, V14, V15, V16, V17, V18, V19, V20, V21, V22, V23, V24, V25, V26, V27, V28, V29, V30, V31 }
impl Shape for B32 {
    const N: usize = 32;
    fn key(i: usize) -> Self { match i { 0 => B32::V0, 1 => B32::V1, 2 => B32::V2, 3 => B32::V3, 4 => B32::V4, 5 => B32::V5, 6 => B32::V6, 7 => B32::V7, 8 => B32::V8, 9 => B32::V9, 10 => B32::V10, 11 => B32::V11, 12 => B32::V12, 13 => B32::V13, 14 => B32::V14, 15 => B32::V15, 16 => B32::V16, 17 => B32::V17, 18 => B32::V18, 19 => B32::V19, 20 => B32::V20, 21 => B32::V21, 22 => B32::V22, 23 => B32::V23, 24 => B32::V24, 25 => B32::V25, 26 => B32::V26, 27 => B32::V27, 28 => B32::V28, 29 => B32::V29, 30 => B32::V30, 31 => B32::V31, _ => fm::undecided() } }
    fn idx(self) -> usize { match self { B32::V0 => 0, B32::V1 => 1, B32::V2 => 2, B32::V3 => 3, B32::V4 => 4, B32::V5 => 5, B32::V6 => 6, B32::V7 => 7, B32::V8 => 8, B32::V9 => 9, B32::V10 => 10, B32::V11 => 11, B32::V12 => 12, B32::V13 => 13, B32::V14 => 14, B32::V15 => 15, B32::V16 => 16, B32::V17 => 17, B32::V18 => 18, B32::V19 => 19, B32::V20 => 20, B32::V21 => 21, B32::V22 => 22, B32::V23 => 23, B32::V24 => 24, B32::V25 => 25, B32::V26 => 26, B32::V27 => 27, B32::V28 => 28, B32::V29 => 29, B32::V30 => 30, B32::V31 => 31, } }
}
keyed!(B32);
#[derive(Clone, Copy, Key)]
#[key(bitset)]
pub enum B33 { V0, V1, V2, V3, V4, V5, V6, V7, V8, V9, V10, V11, V12, V13, V14, V15, V16, V17, V18, V19, V20, V21, V22, V23, V24, V25, V26, V27, V28, V29, V30, V31, V32 }
impl Shape for B33 {
    const N: usize = 33;
    fn key(i: usize) -> Self { match i { 0 => B33::V0, 1 => B33::V1, 2 => B33::V2, 3 => B33::V3, 4 => B33::V4, 5 => B33::V5, 6 => B33::V6, 7 => B33::V7, 8 => B33::V8, 9 => B33::V9, 10 => B33::V10, 11 => B33::V11, 12 => B33::V12, 13 => B33::V13, 14 => B33::V14, 15 => B33::V15, 16 => B33::V16, 17 => B33::V17, 18 => B33::V18, 19 => B33::V19, 20 => B33::V20, 21 => B33::V21, 22 => B33::V22, 23 => B33::V23, 24 => B33::V24, 25 => B33::V25, 26 => B33::V26, 27 => B33::V27, 28 => B33::V28, 29 => B33::V29, 30 => B33::V30, 31 => B33::V31, 32 => B33::V32, _ => fm::undecided() } }
    fn idx(self) -> usize { match self { B33::V0 => 0, B33::V1 => 1, B33::V2 => 2, B33::V3 => 3, B33::V4 => 4, B33::V5 => 5, B33::V6 => 6, B33::V7 => 7, B33::V8 => 8, B33::V9 => 9, B33::V10 => 10, B33::V11 => 11, B33::V12 => 12, B33::V13 => 13, B33::V14 => 14, B33::V15 => 15, B33::V16 => 16, B33::V17 => 17, B33::V18 => 18, B33::V19 => 19, B33::V20 => 20, B33::V21 => 21, B33::V22 => 22, B33::V23 => 23, B33::V24 => 24, B33::V25 => 25, B33::V26 => 26, B33::V27 => 27, B33::V28 => 28, B33::V29 => 29, B33::V30 => 30, B33::V31 => 31, B33::V32 => 32, } }
}
keyed!(B33);
#[derive(Clone, Copy, Key)]
#[key(bitset)]
pub enum B63 { V0, V1, V2, V3, V4, V5, V6, V7, V8, V9, V10, V11, V12, V13, V14, V15, V16, V17, V18, V19, V20, V21, V22, V23, V24, V25, V26, V27, V28, V29, V30, V31, V32, V33, V34, V35, V36, V37, V38, V39, V40, V41, V42, V43, V44, V45, V46, V47, V48, V49, V50, V51, V52, V53, V54, V55, V56, V57, V58, V59, V60, V61, V62 }
impl Shape for B63 {
    const N: usize = 63;
    fn key(i: usize) -> Self { match i { 0 => B63::V0, 1 => B63::V1, 2 => B63::V2, 3 => B63::V3, 4 => B63::V4, 5 => B63::V5, 6 => B63::V6, 7 => B63::V7, 8 => B63::V8, 9 => B63::V9, 10 => B63::V10, 11 => B63::V11, 12 => B63::V12, 13 => B63::V13, 14 => B63::V14, 15 => B63::V15, 16 => B63::V16, 17 => B63::V17, 18 => B63::V18, 19 => B63::V19, 20 => B63::V20, 21 => B63::V21, 22 => B63::V22, 23 => B63::V23, 24 => B63::V24, 25 => B63::V25, 26 => B63::V26, 27 => B63::V27, 28 => B63::V28, 29 => B63::V29, 30 => B63::V30, 31 => B63::V31, 32 => B63::V32, 33 => B63::V33, 34 => B63::V34, 35 => B63::V35, 36 => B63::V36, 37 => B63::V37, 38 => B63::V38, 39 => B63::V39, 40 => B63::V40, 41 => B63::V41, 42 => B63::V42, 43 => B63::V43, 44 => B63::V44, 45 => B63::V45, 46 => B63::V46, 47 => B63::V47, 48 => B63::V48, 49 => B63::V49, 50 => B63::V50, 51 => B63::V51, 52 => B63::V52, 53 => B63::V53, 54 => B63::V54, 55 => B63::V55, 56 => B63::V56, 57 => B63::V57, 58 => B63::V58, 59 => B63::V59, 60 => B63::V60, 61 => B63::V61, 62 => B63::V62, _ => fm::undecided() } }
    fn idx(self) -> usize { match self { B63::V0 => 0, B63::V1 => 1, B63::V2 => 2, B63::V3 => 3, B63::V4 => 4, B63::V5 => 5, B63::V6 => 6, B63::V7 => 7, B63::V8 => 8, B63::V9 => 9, B63::V10 => 10, B63::V11 => 11, B63::V12 => 12, B63::V13 => 13, B63::V14 => 14, B63::V15 => 15, B63::V16 => 16, B63::V17 => 17, B63::V18 => 18, B63::V19 => 19, B63::V20 => 20, B63::V21 => 21, B63::V22 => 22, B63::V23 => 23, B63::V24 => 24, B63::V25 => 25, B63::V26 => 26, B63::V27 => 27, B63::V28 => 28, B63::V29 => 29, B63::V30 => 30, B63::V31 => 31, B63::V32 => 32, B63::V33 => 33, B63::V34 => 34, B63::V35 => 35, B63::V36 => 36, B63::V37 => 37, B63::V38 => 38, B63::V39 => 39, B63::V40 => 40, B63::V41 => 41, B63::V42 => 42, B63::V43 => 43, B63::V44 => 44, B63::V45 => 45, B63::V46 => 46, B63::V47 => 47, B63::V48 => 48, B63::V49 => 49, B63::V50 => 50, B63::V51 => 51, B63::V52 => 52, B63::V53 => 53, B63::V54 => 54, B63::V55 => 55, B63::V56 => 56, B63::V57 => 57, B63::V58 => 58, B63::V59 => 59, B63::V60 => 60, B63::V61 => 61, B63::V62 => 62, } }
}
keyed!(B63);
#[derive(Clone, Copy, Key)]
#[key(bitset)]
pub enum B64 { V0, V1, V2, V3, V4, V5, V6, V7, V8, V9, V10, V11, V12, V13, V14, V15, V16, V17, V18, V19, V20, V21, V22, V23, V24, V25, V26, V27, V28, V29, V30, V31, V32, V33, V34, V35, V36, V37, V38, V39, V40, V41, V42, V43, V44, V45, V46, V47, V48, V49, V50, V51, V52, V53, V54, V55, V56, V57, V58, V59, V60, V61, V62, V63 }
impl Shape for B64 {
    const N: usize = 64;
    fn key(i: usize) -> Self { match i { 0 => B64::V0, 1 => B64::V1, 2 => B64::V2, 3 => B64::V3, 4 => B64::V4, 5 => B64::V5, 6 => B64::V6, 7 => B64::V7, 8 => B64::V8, 9 => B64::V9, 10 => B64::V10, 11 => B64::V11, 12 => B64::V12, 13 => B64::V13, 14 => B64::V14, 15 => B64::V15, 16 => B64::V16, 17 => B64::V17, 18 => B64::V18, 19 => B64::V19, 20 => B64::V20, 21 => B64::V21, 22 => B64::V22, 23 => B64::V23, 24 => B64::V24, 25 => B64::V25, 26 => B64::V26, 27 => B64::V27, 28 => B64::V28, 29 => B64::V29, 30 => B64::V30, 31 => B64::V31, 32 => B64::V32, 33 => B64::V33, 34 => B64::V34, 35 => B64::V35, 36 => B64::V36, 37 => B64::V37, 38 => B64::V38, 39 => B64::V39, 40 => B64::V40, 41 => B64::V41, 42 => B64::V42, 43 => B64::V43, 44 => B64::V44, 45 => B64::V45, 46 => B64::V46, 47 => B64::V47, 48 => B64::V48, 49 => B64::V49, 50 => B64::V50, 51 => B64::V51, 52 => B64::V52, 53 => B64::V53, 54 => B64::V54, 55 => B64::V55, 56 => B64::V56, 57 => B64::V57, 58 => B64::V58, 59 => B64::V59, 60 => B64::V60, 61 => B64::V61, 62 => B64::V62, 63 => B64::V63, _ => fm::undecided() } }
    fn idx(self) -> usize { match self { B64::V0 => 0, B64::V1 => 1, B64::V2 => 2, B64::V3 => 3, B64::V4 => 4, B64::V5 => 5, B64::V6 => 6, B64::V7 => 7, B64::V8 => 8, B64::V9 => 9, B64::V10 => 10, B64::V11 => 11, B64::V12 => 12, B64::V13 => 13, B64::V14 => 14, B64::V15 => 15, B64::V16 => 16, B64::V17 => 17, B64::V18 => 18, B64::V19 => 19, B64::V20 => 20, B64::V21 => 21, B64::V22 => 22, B64::V23 => 23, B64::V24 => 24, B64::V25 => 25, B64::V26 => 26, B64::V27 => 27, B64::V28 => 28, B64::V29 => 29, B64::V30 => 30, B64::V31 => 31, B64::V32 => 32, B64::V33 => 33, B64::V34 => 34, B64::V35 => 35, B64::V36 => 36, B64::V37 => 37, B64::V38 => 38, B64::V39 => 39, B64::V40 => 40, B64::V41 => 41, B64::V42 => 42, B64::V43 => 43, B64::V44 => 44, B64::V45 => 45, B64::V46 => 46, B64::V47 => 47, B64::V48 => 48, B64::V49 => 49, B64::V50 => 50, B64::V51 => 51, B64::V52 => 52, B64::V53 => 53, B64::V54 => 54, B64::V55 => 55, B64::V56 => 56, B64::V57 => 57, B64::V58 => 58, B64::V59 => 59, B64::V60 => 60, B64::V61 => 61, B64::V62 => 62, B64::V63 => 63, } }
}
keyed!(B64);
#[derive(Clone, Copy, Key)]
#[key(bitset)]
pub enum B65 { V0, V1, V2, V3, V4, V5, V6, V7, V8, V9, V10, V11, V12, V13, V14, V15, V16, V17, V18, V19, V20, V21, V22, V23, V24, V25, V26, V27, V28, V29, V30, V31, V32, V33, V34, V35, V36, V37, V38, V39, V40, V41, V42, V43, V44, V45, V46, V47, V48, V49, V50, V51, V52, V53, V54, V55, V56, V57, V58, V59, V60, V61, V62, V63, V64 }
impl Shape for B65 {
    const N: usize = 65;
    fn key(i: usize) -> Self { match i { 0 => B65::V0, 1 => B65::V1, 2 => B65::V2, 3 => B65::V3, 4 => B65::V4, 5 => B65::V5, 6 => B65::V6, 7 => B65::V7, 8 => B65::V8, 9 => B65::V9, 10 => B65::V10, 11 => B65::V11, 12 => B65::V12, 13 => B65::V13, 14 => B65::V14, 15 => B65::V15, 16 => B65::V16, 17 => B65::V17, 18 => B65::V18, 19 => B65::V19, 20 => B65::V20, 21 => B65::V21, 22 => B65::V22, 23 => B65::V23, 24 => B65::V24, 25 => B65::V25, 26 => B65::V26, 27 => B65::V27, 28 => B65::V28, 29 => B65::V29, 30 => B65::V30, 31 => B65::V31, 32 => B65::V32, 33 => B65::V33, 34 => B65::V34, 35 => B65::V35, 36 => B65::V36, 37 => B65::V37, 38 => B65::V38, 39 => B65::V39, 40 => B65::V40, 41 => B65::V41, 42 => B65::V42, 43 => B65::V43, 44 => B65::V44, 45 => B65::V45, 46 => B65::V46, 47 => B65::V47, 48 => B65::V48, 49 => B65::V49, 50 => B65::V50, 51 => B65::V51, 52 => B65::V52, 53 => B65::V53, 54 => B65::V54, 55 => B65::V55, 56 => B65::V56, 57 => B65::V57, 58 => B65::V58, 59 => B65::V59, 60 => B65::V60, 61 => B65::V61, 62 => B65::V62, 63 => B65::V63, 64 => B65::V64, _ => fm::undecided() } }
    fn idx(self) -> usize { match self { B65::V0 => 0, B65::V1 => 1, B65::V2 => 2, B65::V3 => 3, B65::V4 => 4, B65::V5 => 5, B65::V6 => 6, B65::V7 => 7, B65::V8 => 8, B65::V9 => 9, B65::V10 => 10, B65::V11 => 11, B65::V12 => 12, B65::V13 => 13, B65::V14 => 14, B65::V15 => 15, B65::V16 => 16, B65::V17 => 17, B65::V18 => 18, B65::V19 => 19, B65::V20 => 20, B65::V21 => 21, B65::V22 => 22, B65::V23 => 23, B65::V24 => 24, B65::V25 => 25, B65::V26 => 26, B65::V27 => 27, B65::V28 => 28, B65::V29 => 29, B65::V30 => 30, B65::V31 => 31, B65::V32 => 32, B65::V33 => 33, B65::V34 => 34, B65::V35 => 35, B65::V36 => 36, B65::V37 => 37, B65::V38 => 38, B65::V39 => 39, B65::V40 => 40, B65::V41 => 41, B65::V42 => 42, B65::V43 => 43, B65::V44 => 44, B65::V45 => 45, B65::V46 => 46, B65::V47 => 47, B65::V48 => 48, B65::V49 => 49, B65::V50 => 50, B65::V51 => 51, B65::V52 => 52, B65::V53 => 53, B65::V54 => 54, B65::V55 => 55, B65::V56 => 56, B65::V57 => 57, B65::V58 => 58, B65::V59 => 59, B65::V60 => 60, B65::V61 => 61, B65::V62 => 62, B65::V63 => 63, B65::V64 => 64, } }
}
keyed!(B65);
#[derive(Clone, Copy, Key)]
#[key(bitset)]
pub enum B127 { V0, V1, V2, V3, V4, V5, V6, V7, V8, V9, V10, V11, V12, V13, V14, V15, V16, V17, V18, V19, V20, V21, V22, V23, V24, V25, V26, V27, V28, V29, V30, V31, V32, V33, V34, V35, V36, V37, V38, V39, V40, V41, V42, V43, V44, V45, V46, V47, V48, V49, V50, V51, V52, V53, V54, V55, V56, V57, V58, V59, V60, V61, V62, V63, V64, V65, V66, V67, V68, V69, V70, V71, V72, V73, V74, V75, V76, V77, V78, V79, V80, V81, V82, V83, V84, V85, V86, V87, V88, V89, V90, V91, V92, V93, V94, V95, V96, V97, V98, V99, V100, V101, V102, V103, V104, V105, V106, V107, V108, V109, V110, V111, V112, V113, V114, V115, V116, V117, V118, V119, V120, V121, V122, V123, V124, V125, V126 }
impl Shape for B127 {
    const N: usize = 127;
    fn key(i: usize) -> Self { match i { 0 => B127::V0, 1 => B127::V1, 2 => B127::V2, 3 => B127::V3, 4 => B127::V4, 5 => B127::V5, 6 => B127::V6, 7 => B127::V7, 8 => B127::V8, 9 => B127::V9, 10 => B127::V10, 11 => B127::V11, 12 => B127::V12, 13 => B127::V13, 14 => B127::V14, 15 => B127::V15, 16 => B127::V16, 17 => B127::V17, 18 => B127::V18, 19 => B127::V19, 20 => B127::V20, 21 => B127::V21, 22 => B127::V22, 23 => B127::V23, 24 => B127::V24, 25 => B127::V25, 26 => B127::V26, 27 => B127::V27, 28 => B127::V28, 29 => B127::V29, 30 => B127::V30, 31 => B127::V31, 32 => B127::V32, 33 => B127::V33, 34 => B127::V34, 35 => B127::V35, 36 => B127::V36, 37 => B127::V37, 38 => B127::V38, 39 => B127::V39, 40 => B127::V40, 41 => B127::V41, 42 => B127::V42, 43 => B127::V43, 44 => B127::V44, 45 => B127::V45, 46 => B127::V46, 47 => B127::V47, 48 => B127::V48, 49 => B127::V49, 50 => B127::V50, 51 => B127::V51, 52 => B127::V52, 53 => B127::V53, 54 => B127::V54, 55 => B127::V55, 56 => B127::V56, 57 => B127::V57, 58 => B127::V58, 59 => B127::V59, 60 => B127::V60, 61 => B127::V61, 62 => B127::V62, 63 => B127::V63, 64 => B127::V64, 65 => B127::V65, 66 => B127::V66, 67 => B127::V67, 68 => B127::V68, 69 => B127::V69, 70 => B127::V70, 71 => B127::V71, 72 => B127::V72, 73 => B127::V73, 74 => B127::V74, 75 => B127::V75, 76 => B127::V76, 77 => B127::V77, 78 => B127::V78, 79 => B127::V79, 80 => B127::V80, 81 => B127::V81, 82 => B127::V82, 83 => B127::V83, 84 => B127::V84, 85 => B127::V85, 86 => B127::V86, 87 => B127::V87, 88 => B127::V88, 89 => B127::V89, 90 => B127::V90, 91 => B127::V91, 92 => B127::V92, 93 => B127::V93, 94 => B127::V94, 95 => B127::V95, 96 => B127::V96, 97 => B127::V97, 98 => B127::V98, 99 => B127::V99, 100 => B127::V100, 101 => B127::V101, 102 => B127::V102, 103 => B127::V103, 104 => B127::V104, 105 => B127::V105, 106 => B127::V106, 107 => B127::V107, 108 => B127::V108, 109 => B127::V109, 110 => B127::V110, 111 => B127::V111, 112 => B127::V112, 113 => B127::V113, 114 => B127::V114, 115 => B127::V115, 116 => B127::V116, 117 => B127::V117, 118 => B127::V118, 119 => B127::V119, 120 => B127::V120, 121 => B127::V121, 122 => B127::V122, 123 => B127::V123, 124 => B127::V124, 125 => B127::V125, 126 => B127::V126, _ => fm::undecided() } }
    fn idx(self) -> usize { match self { B127::V0 => 0, B127::V1 => 1, B127::V2 => 2, B127::V3 => 3, B127::V4 => 4, B127::V5 => 5, B127::V6 => 6, B127::V7 => 7, B127::V8 => 8, B127::V9 => 9, B127::V10 => 10, B127::V11 => 11, B127::V12 => 12, B127::V13 => 13, B127::V14 => 14, B127::V15 => 15, B127::V16 => 16, B127::V17 => 17, B127::V18 => 18, B127::V19 => 19, B127::V20 => 20, B127::V21 => 21, B127::V22 => 22, B127::V23 => 23, B127::V24 => 24, B127::V25 => 25, B127::V26 => 26, B127::V27 => 27, B127::V28 => 28, B127::V29 => 29, B127::V30 => 30, B127::V31 => 31, B127::V32 => 32, B127::V33 => 33, B127::V34 => 34, B127::V35 => 35, B127::V36 => 36, B127::V37 => 37, B127::V38 => 38, B127::V39 => 39, B127::V40 => 40, B127::V41 => 41, B127::V42 => 42, B127::V43 => 43, B127::V44 => 44, B127::V45 => 45, B127::V46 => 46, B127::V47 => 47, B127::V48 => 48, B127::V49 => 49, B127::V50 => 50, B127::V51 => 51, B127::V52 => 52, B127::V53 => 53, B127::V54 => 54, B127::V55 => 55, B127::V56 => 56, B127::V57 => 57, B127::V58 => 58, B127::V59 => 59, B127::V60 => 60, B127::V61 => 61, B127::V62 => 62, B127::V63 => 63, B127::V64 => 64, B127::V65 => 65, B127::V66 => 66, B127::V67 => 67, B127::V68 => 68, B127::V69 => 69, B127::V70 => 70, B127::V71 => 71, B127::V72 => 72, B127::V73 => 73, B127::V74 => 74, B127::V75 => 75, B127::V76 => 76, B127::V77 => 77, B127::V78 => 78, B127::V79 => 79, B127::V80 => 80, B127::V81 => 81, B127::V82 => 82, B127::V83 => 83, B127::V84 => 84, B127::V85 => 85, B127::V86 => 86, B127::V87 => 87, B127::V88 => 88, B127::V89 => 89, B127::V90 => 90, B127::V91 => 91, B127::V92 => 92, B127::V93 => 93, B127::V94 => 94, B127::V95 => 95, B127::V96 => 96, B127::V97 => 97, B127::V98 => 98, B127::V99 => 99, B127::V100 => 100, B127::V101 => 101, B127::V102 => 102, B127::V103 => 103, B127::V104 => 104, B127::V105 => 105, B127::V106 => 106, B127::V107 => 107, B127::V108 => 108, B127::V109 => 109, B127::V110 => 110, B127::V111 => 111, B127::V112 => 112, B127::V113 => 113, B127::V114 => 114, B127::V115 => 115, B127::V116 => 116, B127::V117 => 117, B127::V118 => 118, B127::V119 => 119, B127::V120 => 120, B127::V121 => 121, B127::V122 => 122, B127::V123 => 123, B127::V124 => 124, B127::V125 => 125, B127::V126 => 126, } }
}
keyed!(B127);
#[derive(Clone, Copy, Key)]
#[key(bitset)]
pub enum B128 { V0, V1, V2, V3, V4, V5, V6, V7, V8, V9, V10, V11, V12, V13, V14, V15, V16, V17, V18, V19, V20, V21, V22, V23, V24, V25, V26, V27, V28, V29, V30, V31, V32, V33, V34, V35, V36, V37, V38, V39, V40, V41, V42, V43, V44, V45, V46, V47, V48, V49, V50, V51, V52, V53, V54, V55, V56, V57, V58, V59, V60, V61, V62, V63, V64, V65, V66, V67, V68, V69, V70, V71, V72, V73, V74, V75, V76, V77, V78, V79, V80, V81, V82, V83, V84, V85, V86, V87, V88, V89, V90, V91, V92, V93, V94, V95, V96, V97, V98, V99, V100, V101, V102, V103, V104, V105, V106, V107, V108, V109, V110, V111, V112, V113, V114, V115, V116, V117, V118, V119, V120, V121, V122, V123, V124, V125, V126, V127 }
impl Shape for B128 {
    const N: usize = 128;
    fn key(i: usize) -> Self { match i { 0 => B128::V0, 1 => B128::V1, 2 => B128::V2, 3 => B128::V3, 4 => B128::V4, 5 => B128::V5, 6 => B128::V6, 7 => B128::V7, 8 => B128::V8, 9 => B128::V9, 10 => B128::V10, 11 => B128::V11, 12 => B128::V12, 13 => B128::V13, 14 => B128::V14, 15 => B128::V15, 16 => B128::V16, 17 => B128::V17, 18 => B128::V18, 19 => B128::V19, 20 => B128::V20, 21 => B128::V21, 22 => B128::V22, 23 => B128::V23, 24 => B128::V24, 25 => B128::V25, 26 => B128::V26, 27 => B128::V27, 28 => B128::V28, 29 => B128::V29, 30 => B128::V30, 31 => B128::V31, 32 => B128::V32, 33 => B128::V33, 34 => B128::V34, 35 => B128::V35, 36 => B128::V36, 37 => B128::V37, 38 => B128::V38, 39 => B128::V39, 40 => B128::V40, 41 => B128::V41, 42 => B128::V42, 43 => B128::V43, 44 => B128::V44, 45 => B128::V45, 46 => B128::V46, 47 => B128::V47, 48 => B128::V48, 49 => B128::V49, 50 => B128::V50, 51 => B128::V51, 52 => B128::V52, 53 => B128::V53, 54 => B128::V54, 55 => B128::V55, 56 => B128::V56, 57 => B128::V57, 58 => B128::V58, 59 => B128::V59, 60 => B128::V60, 61 => B128::V61, 62 => B128::V62, 63 => B128::V63, 64 => B128::V64, 65 => B128::V65, 66 => B128::V66, 67 => B128::V67, 68 => B128::V68, 69 => B128::V69, 70 => B128::V70, 71 => B128::V71, 72 => B128::V72, 73 => B128::V73, 74 => B128::V74, 75 => B128::V75, 76 => B128::V76, 77 => B128::V77, 78 => B128::V78, 79 => B128::V79, 80 => B128::V80, 81 => B128::V81, 82 => B128::V82, 83 => B128::V83, 84 => B128::V84, 85 => B128::V85, 86 => B128::V86, 87 => B128::V87, 88 => B128::V88, 89 => B128::V89, 90 => B128::V90, 91 => B128::V91, 92 => B128::V92, 93 => B128::V93, 94 => B128::V94, 95 => B128::V95, 96 => B128::V96, 97 => B128::V97, 98 => B128::V98, 99 => B128::V99, 100 => B128::V100, 101 => B128::V101, 102 => B128::V102, 103 => B128::V103, 104 => B128::V104, 105 => B128::V105, 106 => B128::V106, 107 => B128::V107, 108 => B128::V108, 109 => B128::V109, 110 => B128::V110, 111 => B128::V111, 112 => B128::V112, 113 => B128::V113, 114 => B128::V114, 115 => B128::V115, 116 => B128::V116, 117 => B128::V117, 118 => B128::V118, 119 => B128::V119, 120 => B128::V120, 121 => B128::V121, 122 => B128::V122, 123 => B128::V123, 124 => B128::V124, 125 => B128::V125, 126 => B128::V126, 127 => B128::V127, _ => fm::undecided() } }
    fn idx(self) -> usize { match self { B128::V0 => 0, B128::V1 => 1, B128::V2 => 2, B128::V3 => 3, B128::V4 => 4, B128::V5 => 5, B128::V6 => 6, B128::V7 => 7, B128::V8 => 8, B128::V9 => 9, B128::V10 => 10, B128::V11 => 11, B128::V12 => 12, B128::V13 => 13, B128::V14 => 14, B128::V15 => 15, B128::V16 => 16, B128::V17 => 17, B128::V18 => 18, B128::V19 => 19, B128::V20 => 20, B128::V21 => 21, B128::V22 => 22, B128::V23 => 23, B128::V24 => 24, B128::V25 => 25, B128::V26 => 26, B128::V27 => 27, B128::V28 => 28, B128::V29 => 29, B128::V30 => 30, B128::V31 => 31, B128::V32 => 32, B128::V33 => 33, B128::V34 => 34, B128::V35 => 35, B128::V36 => 36, B128::V37 => 37, B128::V38 => 38, B128::V39 => 39, B128::V40 => 40, B128::V41 => 41, B128::V42 => 42, B128::V43 => 43, B128::V44 => 44, B128::V45 => 45, B128::V46 => 46, B128::V47 => 47, B128::V48 => 48, B128::V49 => 49, B128::V50 => 50, B128::V51 => 51, B128::V52 => 52, B128::V53 => 53, B128::V54 => 54, B128::V55 => 55, B128::V56 => 56, B128::V57 => 57, B128::V58 => 58, B128::V59 => 59, B128::V60 => 60, B128::V61 => 61, B128::V62 => 62, B128::V63 => 63, B128::V64 => 64, B128::V65 => 65, B128::V66 => 66, B128::V67 => 67, B128::V68 => 68, B128::V69 => 69, B128::V70 => 70, B128::V71 => 71, B128::V72 => 72, B128::V73 => 73, B128::V74 => 74, B128::V75 => 75, B128::V76 => 76, B128::V77 => 77, B128::V78 => 78, B128::V79 => 79, B128::V80 => 80, B128::V81 => 81, B128::V82 => 82, B128::V83 => 83, B128::V84 => 84, B128::V85 => 85, B128::V86 => 86, B128::V87 => 87, B128::V88 => 88, B128::V89 => 89, B128::V90 => 90, B128::V91 => 91, B128::V92 => 92, B128::V93 => 93, B128::V94 => 94, B128::V95 => 95, B128::V96 => 96, B128::V97 => 97, B128::V98 => 98, B128::V99 => 99, B128::V100 => 100, B128::V101 => 101, B128::V102 => 102, B128::V103 => 103, B128::V104 => 104, B128::V105 => 105, B128::V106 => 106, B128::V107 => 107, B128::V108 => 108, B128::V109 => 109, B128::V110 => 110, B128::V111 => 111, B128::V112 => 112, B128::V113 => 113, B128::V114 => 114, B128::V115 => 115, B128::V116 => 116, B128::V117 => 117, B128::V118 => 118, B128::V119 => 119, B128::V120 => 120, B128::V121 => 121, B128::V122 => 122, B128::V123 => 123, B128::V124 => 124, B128::V125 => 125, B128::V126 => 126, B128::V127 => 127, } }
}
keyed!(B128);
#[derive(Clone, Copy, Key)]
pub enum Disc { V0 = 7, V1 = -2, V2 = 40 }
impl Shape for Disc {
    const N: usize = 3;
    fn key(i: usize) -> Self { match i { 0 => Disc::V0, 1 => Disc::V1, 2 => Disc::V2, _ => fm::undecided() } }
    fn idx(self) -> usize { match self { Disc::V0 => 0, Disc::V1 => 1, Disc::V2 => 2, } }
}
keyed!(Disc);
#[derive(Clone, Copy, Key)]
#[key(bitset)]
pub enum DiscBit { V0 = 7, V1 = 1, V2 = 4 }
impl Shape for DiscBit {
    const N: usize = 3;
    fn key(i: usize) -> Self { match i { 0 => DiscBit::V0, 1 => DiscBit::V1, 2 => DiscBit::V2, _ => fm::undecided() } }
    fn idx(self) -> usize { match self { DiscBit::V0 => 0, DiscBit::V1 => 1, DiscBit::V2 => 2, } }
}
keyed!(DiscBit);
#[derive(Clone, Copy, Key)]
pub enum DiscPerm { V0 = 2, V1 = 0, V2 = 1 }
impl Shape for DiscPerm {
    const N: usize = 3;
    fn key(i: usize) -> Self { match i { 0 => DiscPerm::V0, 1 => DiscPerm::V1, 2 => DiscPerm::V2, _ => fm::undecided() } }
    fn idx(self) -> usize { match self { DiscPerm::V0 => 0, DiscPerm::V1 => 1, DiscPerm::V2 => 2, } }
}
keyed!(DiscPerm);
#[derive(Clone, Copy, Key)]
#[key(bitset)]
pub enum DiscBitPerm { V0 = 2, V1 = 0, V2 = 1 }
impl Shape for DiscBitPerm {
    const N: usize = 3;
    fn key(i: usize) -> Self { match i { 0 => DiscBitPerm::V0, 1 => DiscBitPerm::V1, 2 => DiscBitPerm::V2, _ => fm::undecided() } }
    fn idx(self) -> usize { match self { DiscBitPerm::V0 => 0, DiscBitPerm::V1 => 1, DiscBitPerm::V2 => 2, } }
}
keyed!(DiscBitPerm);
#[derive(Clone, Copy, Key)]
#[repr(u8)]
pub enum DiscPart { V0 = 3, V1, V2 = 0, V3 }
impl Shape for DiscPart {
    const N: usize = 4;
    fn key(i: usize) -> Self { match i { 0 => DiscPart::V0, 1 => DiscPart::V1, 2 => DiscPart::V2, 3 => DiscPart::V3, _ => fm::undecided() } }
    fn idx(self) -> usize { match self { DiscPart::V0 => 0, DiscPart::V1 => 1, DiscPart::V2 => 2, DiscPart::V3 => 3, } }
}
keyed!(DiscPart);
#[derive(Clone, Copy, Key)]
#[key(bitset)]
#[repr(i8)]
pub enum DiscBitPart { V0 = -3, V1, V2 = 5, V3 = 1 }
impl Shape for DiscBitPart {
    const N: usize = 4;
    fn key(i: usize) -> Self { match i { 0 => DiscBitPart::V0, 1 => DiscBitPart::V1, 2 => DiscBitPart::V2, 3 => DiscBitPart::V3, _ => fm::undecided() } }
    fn idx(self) -> usize { match self { DiscBitPart::V0 => 0, DiscBitPart::V1 => 1, DiscBitPart::V2 => 2, DiscBitPart::V3 => 3, } }
}
keyed!(DiscBitPart);
#[derive(Clone, Copy, Key)]
pub enum Mix { A, B(bool), C, D(Option<bool>), E(()), F(U2) }
impl Shape for Mix {
    const N: usize = 10;
    fn key(i: usize) -> Self { if i == 0 { return Mix::A } if i < 3 { return Mix::B(<bool as Shape>::key(i - 1)) } if i == 3 { return Mix::C } if i < 7 { return Mix::D(<Option<bool> as Shape>::key(i - 4)) } if i < 8 { return Mix::E(<() as Shape>::key(i - 7)) } if i < 10 { return Mix::F(<U2 as Shape>::key(i - 8)) } fm::undecided() }
    fn idx(self) -> usize { match self { Mix::A => 0, Mix::B(k) => 1 + k.idx(), Mix::C => 3, Mix::D(k) => 4 + k.idx(), Mix::E(k) => 7 + k.idx(), Mix::F(k) => 8 + k.idx(), } }
    fn rank(i: usize) -> usize { if i == 0 { return 0 } if i < 3 { return 1 + <bool as Shape>::rank(i - 1) } if i == 3 { return 3 } if i < 7 { return 4 + <Option<bool> as Shape>::rank(i - 4) } if i < 8 { return 7 + <() as Shape>::rank(i - 7) } if i < 10 { return 8 + <U2 as Shape>::rank(i - 8) } fm::undecided() }
}
keyed!(Mix);
#[derive(Clone, Copy, Key)]
pub enum Ends { P(U3), Q, R(Option<U2>) }
impl Shape for Ends {
    const N: usize = 7;
    fn key(i: usize) -> Self { if i < 3 { return Ends::P(<U3 as Shape>::key(i - 0)) } if i == 3 { return Ends::Q } if i < 7 { return Ends::R(<Option<U2> as Shape>::key(i - 4)) } fm::undecided() }
    fn idx(self) -> usize { match self { Ends::P(k) => 0 + k.idx(), Ends::Q => 3, Ends::R(k) => 4 + k.idx(), } }
    fn rank(i: usize) -> usize { if i < 3 { return 0 + <U3 as Shape>::rank(i - 0) } if i == 3 { return 3 } if i < 7 { return 4 + <Option<U2> as Shape>::rank(i - 4) } fm::undecided() }
}
keyed!(Ends);
#[derive(Clone, Copy, Key)]
pub enum Solo { S(U2) }
impl Shape for Solo {
    const N: usize = 2;
    fn key(i: usize) -> Self { if i < 2 { return Solo::S(<U2 as Shape>::key(i - 0)) } fm::undecided() }
    fn idx(self) -> usize { match self { Solo::S(k) => 0 + k.idx(), } }
    fn rank(i: usize) -> usize { if i < 2 { return 0 + <U2 as Shape>::rank(i - 0) } fm::undecided() }
}
keyed!(Solo);
#[derive(Clone, Copy, Key)]
pub enum SoloBool { S(bool) }
impl Shape for SoloBool {
    const N: usize = 2;
    fn key(i: usize) -> Self { if i < 2 { return SoloBool::S(<bool as Shape>::key(i - 0)) } fm::undecided() }
    fn idx(self) -> usize { match self { SoloBool::S(k) => 0 + k.idx(), } }
    fn rank(i: usize) -> usize { if i < 2 { return 0 + <bool as Shape>::rank(i - 0) } fm::undecided() }
}
keyed!(SoloBool);
#[derive(Clone, Copy, Key)]
pub enum SoloUnit { S(()) }
impl Shape for SoloUnit {
    const N: usize = 1;
    fn key(i: usize) -> Self { if i < 1 { return SoloUnit::S(<() as Shape>::key(i - 0)) } fm::undecided() }
    fn idx(self) -> usize { match self { SoloUnit::S(k) => 0 + k.idx(), } }
    fn rank(i: usize) -> usize { if i < 1 { return 0 + <() as Shape>::rank(i - 0) } fm::undecided() }
}
keyed!(SoloUnit);
#[derive(Clone, Copy, Key)]
pub enum Twice { A(bool), B(bool), C }
impl Shape for Twice {
    const N: usize = 5;
    fn key(i: usize) -> Self { if i < 2 { return Twice::A(<bool as Shape>::key(i - 0)) } if i < 4 { return Twice::B(<bool as Shape>::key(i - 2)) } if i == 4 { return Twice::C } fm::undecided() }
    fn idx(self) -> usize { match self { Twice::A(k) => 0 + k.idx(), Twice::B(k) => 2 + k.idx(), Twice::C => 4, } }
    fn rank(i: usize) -> usize { if i < 2 { return 0 + <bool as Shape>::rank(i - 0) } if i < 4 { return 2 + <bool as Shape>::rank(i - 2) } if i == 4 { return 4 } fm::undecided() }
}
keyed!(Twice);
#[derive(Clone, Copy, Key)]
pub enum TwiceEnum { A(U2), B, C(U2) }
impl Shape for TwiceEnum {
    const N: usize = 5;
    fn key(i: usize) -> Self { if i < 2 { return TwiceEnum::A(<U2 as Shape>::key(i - 0)) } if i == 2 { return TwiceEnum::B } if i < 5 { return TwiceEnum::C(<U2 as Shape>::key(i - 3)) } fm::undecided() }
    fn idx(self) -> usize { match self { TwiceEnum::A(k) => 0 + k.idx(), TwiceEnum::B => 2, TwiceEnum::C(k) => 3 + k.idx(), } }
    fn rank(i: usize) -> usize { if i < 2 { return 0 + <U2 as Shape>::rank(i - 0) } if i == 2 { return 2 } if i < 5 { return 3 + <U2 as Shape>::rank(i - 3) } fm::undecided() }
}
keyed!(TwiceEnum);
#[derive(Clone, Copy, Key)]
pub enum Deep { X(Twice), Y, Z(Option<SoloBool>) }
impl Shape for Deep {
    const N: usize = 9;
    fn key(i: usize) -> Self { if i < 5 { return Deep::X(<Twice as Shape>::key(i - 0)) } if i == 5 { return Deep::Y } if i < 9 { return Deep::Z(<Option<SoloBool> as Shape>::key(i - 6)) } fm::undecided() }
    fn idx(self) -> usize { match self { Deep::X(k) => 0 + k.idx(), Deep::Y => 5, Deep::Z(k) => 6 + k.idx(), } }
    fn rank(i: usize) -> usize { if i < 5 { return 0 + <Twice as Shape>::rank(i - 0) } if i == 5 { return 5 } if i < 9 { return 6 + <Option<SoloBool> as Shape>::rank(i - 6) } fm::undecided() }
}
keyed!(Deep);
#[repr(u8)]
#[derive(Clone, Copy, Key)]
pub enum DiscMix { A(bool) = 2, B = 0, C(()) = 1 }
impl Shape for DiscMix {
    const N: usize = 4;
    fn key(i: usize) -> Self { if i < 2 { return DiscMix::A(<bool as Shape>::key(i - 0)) } if i == 2 { return DiscMix::B } if i < 4 { return DiscMix::C(<() as Shape>::key(i - 3)) } fm::undecided() }
    fn idx(self) -> usize { match self { DiscMix::A(k) => 0 + k.idx(), DiscMix::B => 2, DiscMix::C(k) => 3 + k.idx(), } }
    fn rank(i: usize) -> usize { if i < 2 { return 0 + <bool as Shape>::rank(i - 0) } if i == 2 { return 2 } if i < 4 { return 3 + <() as Shape>::rank(i - 3) } fm::undecided() }
}
keyed!(DiscMix);
#[derive(Clone, Copy, Key)]
pub enum Holes { A(U0), B, C(U0), D(bool) }
impl Shape for Holes {
    const N: usize = 3;
    fn key(i: usize) -> Self { if i == 0 { return Holes::B } if i < 3 { return Holes::D(<bool as Shape>::key(i - 1)) } fm::undecided() }
    fn idx(self) -> usize { match self { Holes::A(k) => 0 + k.idx(), Holes::B => 0, Holes::C(k) => 1 + k.idx(), Holes::D(k) => 1 + k.idx(), } }
    fn rank(i: usize) -> usize { if i == 0 { return 0 } if i < 3 { return 1 + <bool as Shape>::rank(i - 1) } fm::undecided() }
}
keyed!(Holes);
#[derive(Clone, Copy, Key)]
pub enum BitIn { A(B3), B, C(B0) }
impl Shape for BitIn {
    const N: usize = 4;
    fn key(i: usize) -> Self { if i < 3 { return BitIn::A(<B3 as Shape>::key(i - 0)) } if i == 3 { return BitIn::B } fm::undecided() }
    fn idx(self) -> usize { match self { BitIn::A(k) => 0 + k.idx(), BitIn::B => 3, BitIn::C(k) => 4 + k.idx(), } }
    fn rank(i: usize) -> usize { if i < 3 { return 0 + <B3 as Shape>::rank(i - 0) } if i == 3 { return 3 } fm::undecided() }
}
keyed!(BitIn);
#[derive(Clone, Copy, Key)]
pub enum Many { V0, V1(bool), V2, V3(()), V4(U2), V5(Option<()>), V6, V7, V8(bool), V9, V10(()), V11(U2), V12(Option<()>), V13, V14, V15(bool), V16, V17(()), V18(U2), V19(Option<()>), V20, V21, V22(bool), V23 }
impl Shape for Many {
    const N: usize = 34;
    fn key(i: usize) -> Self { if i == 0 { return Many::V0 } if i < 3 { return Many::V1(<bool as Shape>::key(i - 1)) } if i == 3 { return Many::V2 } if i < 5 { return Many::V3(<() as Shape>::key(i - 4)) } if i < 7 { return Many::V4(<U2 as Shape>::key(i - 5)) } if i < 9 { return Many::V5(<Option<()> as Shape>::key(i - 7)) } if i == 9 { return Many::V6 } if i == 10 { return Many::V7 } if i < 13 { return Many::V8(<bool as Shape>::key(i - 11)) } if i == 13 { return Many::V9 } if i < 15 { return Many::V10(<() as Shape>::key(i - 14)) } if i < 17 { return Many::V11(<U2 as Shape>::key(i - 15)) } if i < 19 { return Many::V12(<Option<()> as Shape>::key(i - 17)) } if i == 19 { return Many::V13 } if i == 20 { return Many::V14 } if i < 23 { return Many::V15(<bool as Shape>::key(i - 21)) } if i == 23 { return Many::V16 } if i < 25 { return Many::V17(<() as Shape>::key(i - 24)) } if i < 27 { return Many::V18(<U2 as Shape>::key(i - 25)) } if i < 29 { return Many::V19(<Option<()> as Shape>::key(i - 27)) } if i == 29 { return Many::V20 } if i == 30 { return Many::V21 } if i < 33 { return Many::V22(<bool as Shape>::key(i - 31)) } if i == 33 { return Many::V23 } fm::undecided() }
    fn idx(self) -> usize { match self { Many::V0 => 0, Many::V1(k) => 1 + k.idx(), Many::V2 => 3, Many::V3(k) => 4 + k.idx(), Many::V4(k) => 5 + k.idx(), Many::V5(k) => 7 + k.idx(), Many::V6 => 9, Many::V7 => 10, Many::V8(k) => 11 + k.idx(), Many::V9 => 13, Many::V10(k) => 14 + k.idx(), Many::V11(k) => 15 + k.idx(), Many::V12(k) => 17 + k.idx(), Many::V13 => 19, Many::V14 => 20, Many::V15(k) => 21 + k.idx(), Many::V16 => 23, Many::V17(k) => 24 + k.idx(), Many::V18(k) => 25 + k.idx(), Many::V19(k) => 27 + k.idx(), Many::V20 => 29, Many::V21 => 30, Many::V22(k) => 31 + k.idx(), Many::V23 => 33, } }
    fn rank(i: usize) -> usize { if i == 0 { return 0 } if i < 3 { return 1 + <bool as Shape>::rank(i - 1) } if i == 3 { return 3 } if i < 5 { return 4 + <() as Shape>::rank(i - 4) } if i < 7 { return 5 + <U2 as Shape>::rank(i - 5) } if i < 9 { return 7 + <Option<()> as Shape>::rank(i - 7) } if i == 9 { return 9 } if i == 10 { return 10 } if i < 13 { return 11 + <bool as Shape>::rank(i - 11) } if i == 13 { return 13 } if i < 15 { return 14 + <() as Shape>::rank(i - 14) } if i < 17 { return 15 + <U2 as Shape>::rank(i - 15) } if i < 19 { return 17 + <Option<()> as Shape>::rank(i - 17) } if i == 19 { return 19 } if i == 20 { return 20 } if i < 23 { return 21 + <bool as Shape>::rank(i - 21) } if i == 23 { return 23 } if i < 25 { return 24 + <() as Shape>::rank(i - 24) } if i < 27 { return 25 + <U2 as Shape>::rank(i - 25) } if i < 29 { return 27 + <Option<()> as Shape>::rank(i - 27) } if i == 29 { return 29 } if i == 30 { return 30 } if i < 33 { return 31 + <bool as Shape>::rank(i - 31) } if i == 33 { return 33 } fm::undecided() }
}
keyed!(Many);
#[derive(Clone, Copy, Key)]
pub enum Huge { V0, V1, V2, V3, V4, V5, V6, V7(()), V8, V9, V10, V11, V12, V13, V14, V15, V16, V17, V18, V19, V20, V21, V22, V23, V24, V25, V26, V27, V28, V29, V30, V31, V32, V33, V34, V35, V36, V37, V38, V39, V40, V41, V42, V43, V44, V45, V46, V47, V48, V49, V50, V51, V52, V53, V54, V55, V56, V57(()), V58, V59, V60, V61, V62, V63, V64, V65, V66, V67, V68, V69, V70, V71, V72, V73, V74, V75, V76, V77, V78, V79, V80, V81, V82, V83, V84, V85, V86, V87, V88, V89, V90, V91, V92, V93, V94, V95, V96, V97, V98, V99, V100, V101, V102, V103, V104, V105, V106, V107(()), V108, V109, V110, V111, V112, V113, V114, V115, V116, V117, V118, V119, V120, V121, V122, V123, V124, V125, V126, V127, V128, V129, V130, V131, V132, V133, V134, V135, V136, V137, V138, V139, V140, V141, V142, V143, V144, V145, V146, V147, V148, V149, V150, V151, V152, V153, V154, V155, V156, V157(()), V158, V159, V160, V161, V162, V163, V164, V165, V166, V167, V168, V169, V170, V171, V172, V173, V174, V175, V176, V177, V178, V179, V180, V181, V182, V183, V184, V185, V186, V187, V188, V189, V190, V191, V192, V193, V194, V195, V196, V197, V198, V199, V200, V201, V202, V203, V204, V205, V206, V207(()), V208, V209, V210, V211, V212, V213, V214, V215, V216, V217, V218, V219, V220, V221, V222, V223, V224, V225, V226, V227, V228, V229, V230, V231, V232, V233, V234, V235, V236, V237, V238, V239, V240, V241, V242, V243, V244, V245, V246, V247, V248, V249, V250, V251, V252, V253, V254, V255, V256, V257(()), V258, V259 }
impl Shape for Huge {
    const N: usize = 260;
    fn key(i: usize) -> Self { if i == 0 { return Huge::V0 } if i == 1 { return Huge::V1 } if i == 2 { return Huge::V2 } if i == 3 { return Huge::V3 } if i == 4 { return Huge::V4 } if i == 5 { return Huge::V5 } if i == 6 { return Huge::V6 } if i < 8 { return Huge::V7(<() as Shape>::key(i - 7)) } if i == 8 { return Huge::V8 } if i == 9 { return Huge::V9 } if i == 10 { return Huge::V10 } if i == 11 { return Huge::V11 } if i == 12 { return Huge::V12 } if i == 13 { return Huge::V13 } if i == 14 { return Huge::V14 } if i == 15 { return Huge::V15 } if i == 16 { return Huge::V16 } if i == 17 { return Huge::V17 } if i == 18 { return Huge::V18 } if i == 19 { return Huge::V19 } if i == 20 { return Huge::V20 } if i == 21 { return Huge::V21 } if i == 22 { return Huge::V22 } if i == 23 { return Huge::V23 } if i == 24 { return Huge::V24 } if i == 25 { return Huge::V25 } if i == 26 { return Huge::V26 } if i == 27 { return Huge::V27 } if i == 28 { return Huge::V28 } if i == 29 { return Huge::V29 } if i == 30 { return Huge::V30 } if i == 31 { return Huge::V31 } if i == 32 { return Huge::V32 } if i == 33 { return Huge::V33 } if i == 34 { return Huge::V34 } if i == 35 { return Huge::V35 } if i == 36 { return Huge::V36 } if i == 37 { return Huge::V37 } if i == 38 { return Huge::V38 } if i == 39 { return Huge::V39 } if i == 40 { return Huge::V40 } if i == 41 { return Huge::V41 } if i == 42 { return Huge::V42 } if i == 43 { return Huge::V43 } if i == 44 { return Huge::V44 } if i == 45 { return Huge::V45 } if i == 46 { return Huge::V46 } if i == 47 { return Huge::V47 } if i == 48 { return Huge::V48 } if i == 49 { return Huge::V49 } if i == 50 { return Huge::V50 } if i == 51 { return Huge::V51 } if i == 52 { return Huge::V52 } if i == 53 { return Huge::V53 } if i == 54 { return Huge::V54 } if i == 55 { return Huge::V55 } if i == 56 { return Huge::V56 } if i < 58 { return Huge::V57(<() as Shape>::key(i - 57)) } if i == 58 { return Huge::V58 } if i == 59 { return Huge::V59 } if i == 60 { return Huge::V60 } if i == 61 { return Huge::V61 } if i == 62 { return Huge::V62 } if i == 63 { return Huge::V63 } if i == 64 { return Huge::V64 } if i == 65 { return Huge::V65 } if i == 66 { return Huge::V66 } if i == 67 { return Huge::V67 } if i == 68 { return Huge::V68 } if i == 69 { return Huge::V69 } if i == 70 { return Huge::V70 } if i == 71 { return Huge::V71 } if i == 72 { return Huge::V72 } if i == 73 { return Huge::V73 } if i == 74 { return Huge::V74 } if i == 75 { return Huge::V75 } if i == 76 { return Huge::V76 } if i == 77 { return Huge::V77 } if i == 78 { return Huge::V78 } if i == 79 { return Huge::V79 } if i == 80 { return Huge::V80 } if i == 81 { return Huge::V81 } if i == 82 { return Huge::V82 } if i == 83 { return Huge::V83 } if i == 84 { return Huge::V84 } if i == 85 { return Huge::V85 } if i == 86 { return Huge::V86 } if i == 87 { return Huge::V87 } if i == 88 { return Huge::V88 } if i == 89 { return Huge::V89 } if i == 90 { return Huge::V90 } if i == 91 { return Huge::V91 } if i == 92 { return Huge::V92 } if i == 93 { return Huge::V93 } if i == 94 { return Huge::V94 } if i == 95 { return Huge::V95 } if i == 96 { return Huge::V96 } if i == 97 { return Huge::V97 } if i == 98 { return Huge::V98 } if i == 99 { return Huge::V99 } if i == 100 { return Huge::V100 } if i == 101 { return Huge::V101 } if i == 102 { return Huge::V102 } if i == 103 { return Huge::V103 } if i == 104 { return Huge::V104 } if i == 105 { return Huge::V105 } if i == 106 { return Huge::V106 } if i < 108 { return Huge::V107(<() as Shape>::key(i - 107)) } if i == 108 { return Huge::V108 } if i == 109 { return Huge::V109 } if i == 110 { return Huge::V110 } if i == 111 { return Huge::V111 } if i == 112 { return Huge::V112 } if i == 113 { return Huge::V113 } if i == 114 { return Huge::V114 } if i == 115 { return Huge::V115 } if i == 116 { return Huge::V116 } if i == 117 { return Huge::V117 } if i == 118 { return Huge::V118 } if i == 119 { return Huge::V119 } if i == 120 { return Huge::V120 } if i == 121 { return Huge::V121 } if i == 122 { return Huge::V122 } if i == 123 { return Huge::V123 } if i == 124 { return Huge::V124 } if i == 125 { return Huge::V125 } if i == 126 { return Huge::V126 } if i == 127 { return Huge::V127 } if i == 128 { return Huge::V128 } if i == 129 { return Huge::V129 } if i == 130 { return Huge::V130 } if i == 131 { return Huge::V131 } if i == 132 { return Huge::V132 } if i == 133 { return Huge::V133 } if i == 134 { return Huge::V134 } if i == 135 { return Huge::V135 } if i == 136 { return Huge::V136 } if i == 137 { return Huge::V137 } if i == 138 { return Huge::V138 } if i == 139 { return Huge::V139 } if i == 140 { return Huge::V140 } if i == 141 { return Huge::V141 } if i == 142 { return Huge::V142 } if i == 143 { return Huge::V143 } if i == 144 { return Huge::V144 } if i == 145 { return Huge::V145 } if i == 146 { return Huge::V146 } if i == 147 { return Huge::V147 } if i == 148 { return Huge::V148 } if i == 149 { return Huge::V149 } if i == 150 { return Huge::V150 } if i == 151 { return Huge::V151 } if i == 152 { return Huge::V152 } if i == 153 { return Huge::V153 } if i == 154 { return Huge::V154 } if i == 155 { return Huge::V155 } if i == 156 { return Huge::V156 } if i < 158 { return Huge::V157(<() as Shape>::key(i - 157)) } if i == 158 { return Huge::V158 } if i == 159 { return Huge::V159 } if i == 160 { return Huge::V160 } if i == 161 { return Huge::V161 } if i == 162 { return Huge::V162 } if i == 163 { return Huge::V163 } if i == 164 { return Huge::V164 } if i == 165 { return Huge::V165 } if i == 166 { return Huge::V166 } if i == 167 { return Huge::V167 } if i == 168 { return Huge::V168 } if i == 169 { return Huge::V169 } if i == 170 { return Huge::V170 } if i == 171 { return Huge::V171 } if i == 172 { return Huge::V172 } if i == 173 { return Huge::V173 } if i == 174 { return Huge::V174 } if i == 175 { return Huge::V175 } if i == 176 { return Huge::V176 } if i == 177 { return Huge::V177 } if i == 178 { return Huge::V178 } if i == 179 { return Huge::V179 } if i == 180 { return Huge::V180 } if i == 181 { return Huge::V181 } if i == 182 { return Huge::V182 } if i == 183 { return Huge::V183 } if i == 184 { return Huge::V184 } if i == 185 { return Huge::V185 } if i == 186 { return Huge::V186 } if i == 187 { return Huge::V187 } if i == 188 { return Huge::V188 } if i == 189 { return Huge::V189 } if i == 190 { return Huge::V190 } if i == 191 { return Huge::V191 } if i == 192 { return Huge::V192 } if i == 193 { return Huge::V193 } if i == 194 { return Huge::V194 } if i == 195 { return Huge::V195 } if i == 196 { return Huge::V196 } if i == 197 { return Huge::V197 } if i == 198 { return Huge::V198 } if i == 199 { return Huge::V199 } if i == 200 { return Huge::V200 } if i == 201 { return Huge::V201 } if i == 202 { return Huge::V202 } if i == 203 { return Huge::V203 } if i == 204 { return Huge::V204 } if i == 205 { return Huge::V205 } if i == 206 { return Huge::V206 } if i < 208 { return Huge::V207(<() as Shape>::key(i - 207)) } if i == 208 { return Huge::V208 } if i == 209 { return Huge::V209 } if i == 210 { return Huge::V210 } if i == 211 { return Huge::V211 } if i == 212 { return Huge::V212 } if i == 213 { return Huge::V213 } if i == 214 { return Huge::V214 } if i == 215 { return Huge::V215 } if i == 216 { return Huge::V216 } if i == 217 { return Huge::V217 } if i == 218 { return Huge::V218 } if i == 219 { return Huge::V219 } if i == 220 { return Huge::V220 } if i == 221 { return Huge::V221 } if i == 222 { return Huge::V222 } if i == 223 { return Huge::V223 } if i == 224 { return Huge::V224 } if i == 225 { return Huge::V225 } if i == 226 { return Huge::V226 } if i == 227 { return Huge::V227 } if i == 228 { return Huge::V228 } if i == 229 { return Huge::V229 } if i == 230 { return Huge::V230 } if i == 231 { return Huge::V231 } if i == 232 { return Huge::V232 } if i == 233 { return Huge::V233 } if i == 234 { return Huge::V234 } if i == 235 { return Huge::V235 } if i == 236 { return Huge::V236 } if i == 237 { return Huge::V237 } if i == 238 { return Huge::V238 } if i == 239 { return Huge::V239 } if i == 240 { return Huge::V240 } if i == 241 { return Huge::V241 } if i == 242 { return Huge::V242 } if i == 243 { return Huge::V243 } if i == 244 { return Huge::V244 } if i == 245 { return Huge::V245 } if i == 246 { return Huge::V246 } if i == 247 { return Huge::V247 } if i == 248 { return Huge::V248 } if i == 249 { return Huge::V249 } if i == 250 { return Huge::V250 } if i == 251 { return Huge::V251 } if i == 252 { return Huge::V252 } if i == 253 { return Huge::V253 } if i == 254 { return Huge::V254 } if i == 255 { return Huge::V255 } if i == 256 { return Huge::V256 } if i < 258 { return Huge::V257(<() as Shape>::key(i - 257)) } if i == 258 { return Huge::V258 } if i == 259 { return Huge::V259 } fm::undecided() }
    fn idx(self) -> usize { match self { Huge::V0 => 0, Huge::V1 => 1, Huge::V2 => 2, Huge::V3 => 3, Huge::V4 => 4, Huge::V5 => 5, Huge::V6 => 6, Huge::V7(k) => 7 + k.idx(), Huge::V8 => 8, Huge::V9 => 9, Huge::V10 => 10, Huge::V11 => 11, Huge::V12 => 12, Huge::V13 => 13, Huge::V14 => 14, Huge::V15 => 15, Huge::V16 => 16, Huge::V17 => 17, Huge::V18 => 18, Huge::V19 => 19, Huge::V20 => 20, Huge::V21 => 21, Huge::V22 => 22, Huge::V23 => 23, Huge::V24 => 24, Huge::V25 => 25, Huge::V26 => 26, Huge::V27 => 27, Huge::V28 => 28, Huge::V29 => 29, Huge::V30 => 30, Huge::V31 => 31, Huge::V32 => 32, Huge::V33 => 33, Huge::V34 => 34, Huge::V35 => 35, Huge::V36 => 36, Huge::V37 => 37, Huge::V38 => 38, Huge::V39 => 39, Huge::V40 => 40, Huge::V41 => 41, Huge::V42 => 42, Huge::V43 => 43, Huge::V44 => 44, Huge::V45 => 45, Huge::V46 => 46, Huge::V47 => 47, Huge::V48 => 48, Huge::V49 => 49, Huge::V50 => 50, Huge::V51 => 51, Huge::V52 => 52, Huge::V53 => 53, Huge::V54 => 54, Huge::V55 => 55, Huge::V56 => 56, Huge::V57(k) => 57 + k.idx(), Huge::V58 => 58, Huge::V59 => 59, Huge::V60 => 60, Huge::V61 => 61, Huge::V62 => 62, Huge::V63 => 63, Huge::V64 => 64, Huge::V65 => 65, Huge::V66 => 66, Huge::V67 => 67, Huge::V68 => 68, Huge::V69 => 69, Huge::V70 => 70, Huge::V71 => 71, Huge::V72 => 72, Huge::V73 => 73, Huge::V74 => 74, Huge::V75 => 75, Huge::V76 => 76, Huge::V77 => 77, Huge::V78 => 78, Huge::V79 => 79, Huge::V80 => 80, Huge::V81 => 81, Huge::V82 => 82, Huge::V83 => 83, Huge::V84 => 84, Huge::V85 => 85, Huge::V86 => 86, Huge::V87 => 87, Huge::V88 => 88, Huge::V89 => 89, Huge::V90 => 90, Huge::V91 => 91, Huge::V92 => 92, Huge::V93 => 93, Huge::V94 => 94, Huge::V95 => 95, Huge::V96 => 96, Huge::V97 => 97, Huge::V98 => 98, Huge::V99 => 99, Huge::V100 => 100, Huge::V101 => 101, Huge::V102 => 102, Huge::V103 => 103, Huge::V104 => 104, Huge::V105 => 105, Huge::V106 => 106, Huge::V107(k) => 107 + k.idx(), Huge::V108 => 108, Huge::V109 => 109, Huge::V110 => 110, Huge::V111 => 111, Huge::V112 => 112, Huge::V113 => 113, Huge::V114 => 114, Huge::V115 => 115, Huge::V116 => 116, Huge::V117 => 117, Huge::V118 => 118, Huge::V119 => 119, Huge::V120 => 120, Huge::V121 => 121, Huge::V122 => 122, Huge::V123 => 123, Huge::V124 => 124, Huge::V125 => 125, Huge::V126 => 126, Huge::V127 => 127, Huge::V128 => 128, Huge::V129 => 129, Huge::V130 => 130, Huge::V131 => 131, Huge::V132 => 132, Huge::V133 => 133, Huge::V134 => 134, Huge::V135 => 135, Huge::V136 => 136, Huge::V137 => 137, Huge::V138 => 138, Huge::V139 => 139, Huge::V140 => 140, Huge::V141 => 141, Huge::V142 => 142, Huge::V143 => 143, Huge::V144 => 144, Huge::V145 => 145, Huge::V146 => 146, Huge::V147 => 147, Huge::V148 => 148, Huge::V149 => 149, Huge::V150 => 150, Huge::V151 => 151, Huge::V152 => 152, Huge::V153 => 153, Huge::V154 => 154, Huge::V155 => 155, Huge::V156 => 156, Huge::V157(k) => 157 + k.idx(), Huge::V158 => 158, Huge::V159 => 159, Huge::V160 => 160, Huge::V161 => 161, Huge::V162 => 162, Huge::V163 => 163, Huge::V164 => 164, Huge::V165 => 165, Huge::V166 => 166, Huge::V167 => 167, Huge::V168 => 168, Huge::V169 => 169, Huge::V170 => 170, Huge::V171 => 171, Huge::V172 => 172, Huge::V173 => 173, Huge::V174 => 174, Huge::V175 => 175, Huge::V176 => 176, Huge::V177 => 177, Huge::V178 => 178, Huge::V179 => 179, Huge::V180 => 180, Huge::V181 => 181, Huge::V182 => 182, Huge::V183 => 183, Huge::V184 => 184, Huge::V185 => 185, Huge::V186 => 186, Huge::V187 => 187, Huge::V188 => 188, Huge::V189 => 189, Huge::V190 => 190, Huge::V191 => 191, Huge::V192 => 192, Huge::V193 => 193, Huge::V194 => 194, Huge::V195 => 195, Huge::V196 => 196, Huge::V197 => 197, Huge::V198 => 198, Huge::V199 => 199, Huge::V200 => 200, Huge::V201 => 201, Huge::V202 => 202, Huge::V203 => 203, Huge::V204 => 204, Huge::V205 => 205, Huge::V206 => 206, Huge::V207(k) => 207 + k.idx(), Huge::V208 => 208, Huge::V209 => 209, Huge::V210 => 210, Huge::V211 => 211, Huge::V212 => 212, Huge::V213 => 213, Huge::V214 => 214, Huge::V215 => 215, Huge::V216 => 216, Huge::V217 => 217, Huge::V218 => 218, Huge::V219 => 219, Huge::V220 => 220, Huge::V221 => 221, Huge::V222 => 222, Huge::V223 => 223, Huge::V224 => 224, Huge::V225 => 225, Huge::V226 => 226, Huge::V227 => 227, Huge::V228 => 228, Huge::V229 => 229, Huge::V230 => 230, Huge::V231 => 231, Huge::V232 => 232, Huge::V233 => 233, Huge::V234 => 234, Huge::V235 => 235, Huge::V236 => 236, Huge::V237 => 237, Huge::V238 => 238, Huge::V239 => 239, Huge::V240 => 240, Huge::V241 => 241, Huge::V242 => 242, Huge::V243 => 243, Huge::V244 => 244, Huge::V245 => 245, Huge::V246 => 246, Huge::V247 => 247, Huge::V248 => 248, Huge::V249 => 249, Huge::V250 => 250, Huge::V251 => 251, Huge::V252 => 252, Huge::V253 => 253, Huge::V254 => 254, Huge::V255 => 255, Huge::V256 => 256, Huge::V257(k) => 257 + k.idx(), Huge::V258 => 258, Huge::V259 => 259, } }
    fn rank(i: usize) -> usize { if i == 0 { return 0 } if i == 1 { return 1 } if i == 2 { return 2 } if i == 3 { return 3 } if i == 4 { return 4 } if i == 5 { return 5 } if i == 6 { return 6 } if i < 8 { return 7 + <() as Shape>::rank(i - 7) } if i == 8 { return 8 } if i == 9 { return 9 } if i == 10 { return 10 } if i == 11 { return 11 } if i == 12 { return 12 } if i == 13 { return 13 } if i == 14 { return 14 } if i == 15 { return 15 } if i == 16 { return 16 } if i == 17 { return 17 } if i == 18 { return 18 } if i == 19 { return 19 } if i == 20 { return 20 } if i == 21 { return 21 } if i == 22 { return 22 } if i == 23 { return 23 } if i == 24 { return 24 } if i == 25 { return 25 } if i == 26 { return 26 } if i == 27 { return 27 } if i == 28 { return 28 } if i == 29 { return 29 } if i == 30 { return 30 } if i == 31 { return 31 } if i == 32 { return 32 } if i == 33 { return 33 } if i == 34 { return 34 } if i == 35 { return 35 } if i == 36 { return 36 } if i == 37 { return 37 } if i == 38 { return 38 } if i == 39 { return 39 } if i == 40 { return 40 } if i == 41 { return 41 } if i == 42 { return 42 } if i == 43 { return 43 } if i == 44 { return 44 } if i == 45 { return 45 } if i == 46 { return 46 } if i == 47 { return 47 } if i == 48 { return 48 } if i == 49 { return 49 } if i == 50 { return 50 } if i == 51 { return 51 } if i == 52 { return 52 } if i == 53 { return 53 } if i == 54 { return 54 } if i == 55 { return 55 } if i == 56 { return 56 } if i < 58 { return 57 + <() as Shape>::rank(i - 57) } if i == 58 { return 58 } if i == 59 { return 59 } if i == 60 { return 60 } if i == 61 { return 61 } if i == 62 { return 62 } if i == 63 { return 63 } if i == 64 { return 64 } if i == 65 { return 65 } if i == 66 { return 66 } if i == 67 { return 67 } if i == 68 { return 68 } if i == 69 { return 69 } if i == 70 { return 70 } if i == 71 { return 71 } if i == 72 { return 72 } if i == 73 { return 73 } if i == 74 { return 74 } if i == 75 { return 75 } if i == 76 { return 76 } if i == 77 { return 77 } if i == 78 { return 78 } if i == 79 { return 79 } if i == 80 { return 80 } if i == 81 { return 81 } if i == 82 { return 82 } if i == 83 { return 83 } if i == 84 { return 84 } if i == 85 { return 85 } if i == 86 { return 86 } if i == 87 { return 87 } if i == 88 { return 88 } if i == 89 { return 89 } if i == 90 { return 90 } if i == 91 { return 91 } if i == 92 { return 92 } if i == 93 { return 93 } if i == 94 { return 94 } if i == 95 { return 95 } if i == 96 { return 96 } if i == 97 { return 97 } if i == 98 { return 98 } if i == 99 { return 99 } if i == 100 { return 100 } if i == 101 { return 101 } if i == 102 { return 102 } if i == 103 { return 103 } if i == 104 { return 104 } if i == 105 { return 105 } if i == 106 { return 106 } if i < 108 { return 107 + <() as Shape>::rank(i - 107) } if i == 108 { return 108 } if i == 109 { return 109 } if i == 110 { return 110 } if i == 111 { return 111 } if i == 112 { return 112 } if i == 113 { return 113 } if i == 114 { return 114 } if i == 115 { return 115 } if i == 116 { return 116 } if i == 117 { return 117 } if i == 118 { return 118 } if i == 119 { return 119 } if i == 120 { return 120 } if i == 121 { return 121 } if i == 122 { return 122 } if i == 123 { return 123 } if i == 124 { return 124 } if i == 125 { return 125 } if i == 126 { return 126 } if i == 127 { return 127 } if i == 128 { return 128 } if i == 129 { return 129 } if i == 130 { return 130 } if i == 131 { return 131 } if i == 132 { return 132 } if i == 133 { return 133 } if i == 134 { return 134 } if i == 135 { return 135 } if i == 136 { return 136 } if i == 137 { return 137 } if i == 138 { return 138 } if i == 139 { return 139 } if i == 140 { return 140 } if i == 141 { return 141 } if i == 142 { return 142 } if i == 143 { return 143 } if i == 144 { return 144 } if i == 145 { return 145 } if i == 146 { return 146 } if i == 147 { return 147 } if i == 148 { return 148 } if i == 149 { return 149 } if i == 150 { return 150 } if i == 151 { return 151 } if i == 152 { return 152 } if i == 153 { return 153 } if i == 154 { return 154 } if i == 155 { return 155 } if i == 156 { return 156 } if i < 158 { return 157 + <() as Shape>::rank(i - 157) } if i == 158 { return 158 } if i == 159 { return 159 } if i == 160 { return 160 } if i == 161 { return 161 } if i == 162 { return 162 } if i == 163 { return 163 } if i == 164 { return 164 } if i == 165 { return 165 } if i == 166 { return 166 } if i == 167 { return 167 } if i == 168 { return 168 } if i == 169 { return 169 } if i == 170 { return 170 } if i == 171 { return 171 } if i == 172 { return 172 } if i == 173 { return 173 } if i == 174 { return 174 } if i == 175 { return 175 } if i == 176 { return 176 } if i == 177 { return 177 } if i == 178 { return 178 } if i == 179 { return 179 } if i == 180 { return 180 } if i == 181 { return 181 } if i == 182 { return 182 } if i == 183 { return 183 } if i == 184 { return 184 } if i == 185 { return 185 } if i == 186 { return 186 } if i == 187 { return 187 } if i == 188 { return 188 } if i == 189 { return 189 } if i == 190 { return 190 } if i == 191 { return 191 } if i == 192 { return 192 } if i == 193 { return 193 } if i == 194 { return 194 } if i == 195 { return 195 } if i == 196 { return 196 } if i == 197 { return 197 } if i == 198 { return 198 } if i == 199 { return 199 } if i == 200 { return 200 } if i == 201 { return 201 } if i == 202 { return 202 } if i == 203 { return 203 } if i == 204 { return 204 } if i == 205 { return 205 } if i == 206 { return 206 } if i < 208 { return 207 + <() as Shape>::rank(i - 207) } if i == 208 { return 208 } if i == 209 { return 209 } if i == 210 { return 210 } if i == 211 { return 211 } if i == 212 { return 212 } if i == 213 { return 213 } if i == 214 { return 214 } if i == 215 { return 215 } if i == 216 { return 216 } if i == 217 { return 217 } if i == 218 { return 218 } if i == 219 { return 219 } if i == 220 { return 220 } if i == 221 { return 221 } if i == 222 { return 222 } if i == 223 { return 223 } if i == 224 { return 224 } if i == 225 { return 225 } if i == 226 { return 226 } if i == 227 { return 227 } if i == 228 { return 228 } if i == 229 { return 229 } if i == 230 { return 230 } if i == 231 { return 231 } if i == 232 { return 232 } if i == 233 { return 233 } if i == 234 { return 234 } if i == 235 { return 235 } if i == 236 { return 236 } if i == 237 { return 237 } if i == 238 { return 238 } if i == 239 { return 239 } if i == 240 { return 240 } if i == 241 { return 241 } if i == 242 { return 242 } if i == 243 { return 243 } if i == 244 { return 244 } if i == 245 { return 245 } if i == 246 { return 246 } if i == 247 { return 247 } if i == 248 { return 248 } if i == 249 { return 249 } if i == 250 { return 250 } if i == 251 { return 251 } if i == 252 { return 252 } if i == 253 { return 253 } if i == 254 { return 254 } if i == 255 { return 255 } if i == 256 { return 256 } if i < 258 { return 257 + <() as Shape>::rank(i - 257) } if i == 258 { return 258 } if i == 259 { return 259 } fm::undecided() }
}
keyed!(Huge);
#[cfg(feature = "hash")]
mod hashed_hash1 {
use super::*;
#[derive(Clone, Copy, Key)]
pub enum Hash1 { A(u32), B }
impl Shape for Hash1 {
    const N: usize = 4;
    fn key(i: usize) -> Self { if i < 3 { return Hash1::A(<u32 as Shape>::key(i - 0)) } if i == 3 { return Hash1::B } fm::undecided() }
    fn idx(self) -> usize { match self { Hash1::A(k) => 0 + k.idx(), Hash1::B => 3, } }
    fn rank(i: usize) -> usize { if i < 3 { return 0 + <u32 as Shape>::rank(i - 0) } if i == 3 { return 3 } fm::undecided() }
}
keyed!(Hash1);
}
#[cfg(feature = "hash")]
pub use hashed_hash1::*;
#[cfg(feature = "hash")]
mod hashed_hash2 {
use super::*;
#[derive(Clone, Copy, Key)]
pub enum Hash2 { A, B(u32), C(bool) }
impl Shape for Hash2 {
    const N: usize = 6;
    fn key(i: usize) -> Self { if i == 0 { return Hash2::A } if i < 4 { return Hash2::B(<u32 as Shape>::key(i - 1)) } if i < 6 { return Hash2::C(<bool as Shape>::key(i - 4)) } fm::undecided() }
    fn idx(self) -> usize { match self { Hash2::A => 0, Hash2::B(k) => 1 + k.idx(), Hash2::C(k) => 4 + k.idx(), } }
    fn rank(i: usize) -> usize { if i == 0 { return 0 } if i < 4 { return 1 + <u32 as Shape>::rank(i - 1) } if i < 6 { return 4 + <bool as Shape>::rank(i - 4) } fm::undecided() }
}
keyed!(Hash2);
}
#[cfg(feature = "hash")]
pub use hashed_hash2::*;
#[cfg(feature = "hash")]
mod hashed_hashin {
use super::*;
#[derive(Clone, Copy, Key)]
pub enum HashIn { A(SoloHash), B(bool) }
impl Shape for HashIn {
    const N: usize = 5;
    fn key(i: usize) -> Self { if i < 3 { return HashIn::A(<SoloHash as Shape>::key(i - 0)) } if i < 5 { return HashIn::B(<bool as Shape>::key(i - 3)) } fm::undecided() }
    fn idx(self) -> usize { match self { HashIn::A(k) => 0 + k.idx(), HashIn::B(k) => 3 + k.idx(), } }
    fn rank(i: usize) -> usize { if i < 3 { return 0 + <SoloHash as Shape>::rank(i - 0) } if i < 5 { return 3 + <bool as Shape>::rank(i - 3) } fm::undecided() }
}
keyed!(HashIn);
}
#[cfg(feature = "hash")]
pub use hashed_hashin::*;
#[cfg(feature = "hash")]
mod hashed_solohash {
use super::*;
#[derive(Clone, Copy, Key)]
pub enum SoloHash { H(u32) }
impl Shape for SoloHash {
    const N: usize = 3;
    fn key(i: usize) -> Self { if i < 3 { return SoloHash::H(<u32 as Shape>::key(i - 0)) } fm::undecided() }
    fn idx(self) -> usize { match self { SoloHash::H(k) => 0 + k.idx(), } }
    fn rank(i: usize) -> usize { if i < 3 { return 0 + <u32 as Shape>::rank(i - 0) } fm::undecided() }
}
keyed!(SoloHash);
}
#[cfg(feature = "hash")]
pub use hashed_solohash::*;
pub type Bool = bool;
pub type Unit = ();
pub type OptBool = Option<bool>;
pub type OptUnit = Option<()>;
pub type OptU2 = Option<U2>;
pub type OptOptBool = Option<Option<bool>>;
pub type OptOptUnit = Option<Option<()>>;
pub type OptMix = Option<Twice>;
pub type OptEmpty = Option<U0>;
pub type OptBit = Option<B3>;
#[cfg(feature = "hash")]
pub type Num = u32;
#[cfg(feature = "hash")]
pub type OptNum = Option<u32>;
#[cfg(all(feature = "hash", crowd))]
pub type Crowd = u64;
// Mix: 10 keys
// Ends: 7 keys
// Solo: 2 keys
// SoloBool: 2 keys
// SoloUnit: 1 keys
// Twice: 5 keys
// TwiceEnum: 5 keys
// Deep: 9 keys
// DiscMix: 4 keys
// Holes: 3 keys
// BitIn: 4 keys
// Many: 34 keys
// Huge: 260 keys
// Hash1: 4 keys
// Hash2: 6 keys
// HashIn: 5 keys
// SoloHash: 3 keys
// Bool: 2 keys
// Unit: 1 keys
// OptBool: 3 keys
// OptUnit: 2 keys
// OptU2: 3 keys
// OptOptBool: 4 keys
// OptOptUnit: 3 keys
// OptMix: 6 keys
// OptEmpty: 1 keys
// OptBit: 4 keys
// Num: 3 keys
// OptNum: 4 keys
