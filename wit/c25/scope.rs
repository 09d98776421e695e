//! The derive introduces no name: everything it might be tempted to define is
//! defined here too, and everything else stays unresolved.
#![allow(dead_code, non_camel_case_types, non_upper_case_globals)]
pub struct __MapStorage;
pub struct __SetStorage;
pub struct __MapStorageIter;
pub struct MapStorage;
pub struct SetStorage;
pub struct Occupied;
pub struct Vacant;
pub struct OccupiedEntry;
pub struct VacantEntry;
pub struct Entry;
pub struct UnitMapStorage;
pub struct UnitSetStorage;
pub fn option_to_entry() {}
pub fn to_bits() {}
pub mod fixed_map_storage {}
#[derive(Clone, Copy, ::fixed_map::Key)]
pub enum Unit { A, B }
#[derive(Clone, Copy, ::fixed_map::Key)]
#[key(bitset)]
pub enum Bits { A, B }
#[derive(Clone, Copy, ::fixed_map::Key)]
pub enum Comp { A(Unit), B(Bits), C }
mod clean {
    #[derive(Clone, Copy, ::fixed_map::Key)]
    pub enum Unit { A, B }
    #[derive(Clone, Copy, ::fixed_map::Key)]
    #[key(bitset)]
    pub enum Bits { A, B }
    #[derive(Clone, Copy, ::fixed_map::Key)]
    pub enum Comp { A(Unit), B(Bits), C }
    pub fn f() {
        let _ = to_bits; //~ E0425
        let _ = option_to_entry; //~ E0425
        let _: __MapStorage; //~ E0412|E0425
        let _: OccupiedEntry; //~ E0412|E0425
        let _: VacantEntry; //~ E0412|E0425
        let _: Map; //~ E0412|E0425
        let _: Key; //~ E0412|E0425
        let _: Option; //~ E0107
    }
}
fn main() {}
