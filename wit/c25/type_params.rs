//! Key types named like the type parameters and items a derive might use.
#![allow(non_camel_case_types, dead_code)]
use fixed_map::{Key, Map, Set};
macro_rules! named {
    ($($n:ident)*) => {$(
        #[allow(non_snake_case)]
        mod $n {
            use fixed_map::{Key, Map, Set};
            #[derive(Clone, Copy, Key)]
            pub enum $n { A, B }
            pub mod bits {
                use fixed_map::Key;
                #[derive(Clone, Copy, Key)]
                #[key(bitset)]
                pub enum $n { A, B }
            }
            #[derive(Clone, Copy, Key)]
            pub enum Outer { A($n), B, C(bits::$n) }
            mod again {
                use super::$n as Nested;
                use fixed_map::Key;
                #[derive(Clone, Copy, Key)]
                pub enum $n { A(Nested), B }
            }
            fn check(m: &mut Map<Outer, u8>, s: &mut Set<Outer>) {
                m.insert(Outer::A($n::A), 1);
                s.insert(Outer::A($n::B));
            }
        }
    )*};
}
named! { A B C D E F G H I J K L M N O P Q R S T U V W X Y Z v t f __V __K __T __F __R __Key __Value __A __MapStorage __SetStorage Occupied Vacant OccupiedEntry VacantEntry Entry Output Error
    MapStorage SetStorage Iter Keys Values IterMut ValuesMut IntoIter Item data Data Storage Map_ Inner this key value option_to_entry }
fn main() {}
