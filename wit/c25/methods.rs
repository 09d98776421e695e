//! A trait in scope gives every type methods of every likely name.
#![allow(dead_code)]
use fixed_map::Key;
macro_rules! evil {
    ($($m:ident)*) => {
        pub trait Evil: Sized { $(fn $m(self) -> Self { self })* }
        impl<T> Evil for T {}
        pub trait EvilRef { $(fn $m(&self) {})* }
        impl<T: ?Sized> EvilRef for T {}
        pub trait EvilMut { $(fn $m(&mut self) {})* }
        impl<T: ?Sized> EvilMut for T {}
    };
}
mod evil {
    evil! { max min clamp cmp partial_cmp lt le gt ge eq ne clone clone_from hash next next_back size_hint len count nth nth_back last fold rfold map filter filter_map
        flat_map flatten enumerate zip chain rev take skip find any all sum product into_iter iter iter_mut keys values values_mut insert remove get get_mut contains contains_key
        is_some is_none as_ref as_mut take_ replace unwrap unwrap_or expect clear retain is_empty entry empty full as_raw from_raw into into_mut key from default borrow borrow_mut
        to_owned try_from try_into by_ref cloned copied fuse peekable step_by or_default and_then or_else ok err then then_some not bitor bitand bitxor shl shr add sub
        count_ones trailing_zeros leading_zeros wrapping_add wrapping_sub is_power_of_two swap fmt drop finish write write_u8 write_usize is_sorted reverse then_with is_eq is_lt }
}
mod keys {
    #[allow(unused_imports)]
    use super::evil::*;
    use fixed_map::Key;
    #[derive(Clone, Copy, Key)]
    pub enum Unit { A, B, C }
    #[derive(Clone, Copy, Key)]
    #[key(bitset)]
    pub enum Bits { A, B, C }
    #[derive(Clone, Copy, Key)]
    pub enum Mixed { A, B(bool), C(Unit), D(()), E(Option<bool>), F(Bits), G(u32) }
    #[derive(Clone, Copy, Key)]
    pub enum Empty {}
}
fn main() {}
