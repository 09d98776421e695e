//! The analysis vocabulary.  None of these bodies is ever analysed: fmlint
//! gives each function its meaning (fmlint/src/intr.rs).
#![allow(unused_variables)]

/// An unconstrained boolean, the same one for the same number.
#[inline(never)]
pub fn atom(i: u32) -> bool {
    i == 0
}
/// The rule `label`: `ok` holds in every state that gets here.
#[inline(never)]
pub fn check(ok: bool, label: &'static str) {}
/// Only states with `ok` go on.
#[inline(never)]
pub fn assume(ok: bool) {}
/// A cell of analysis state outside the program (zero at first).
#[inline(never)]
pub fn ghost_get(i: usize) -> u32 {
    0
}
#[inline(never)]
pub fn ghost_set(i: usize, v: u32) {}
/// Are the two abstract values the same, field by field?
#[inline(never)]
pub fn same_repr<T>(a: &T, b: &T) -> bool {
    false
}
/// Run `f`; did it unwind?
#[inline(never)]
pub fn catch<F: FnOnce()>(f: F) -> bool {
    f();
    false
}
/// A panic out of the caller's own code (not a finding by itself).
#[inline(never)]
pub fn panic_now() -> ! {
    loop {}
}
/// The client cannot tell; not a finding.
#[inline(never)]
pub fn undecided() -> ! {
    loop {}
}
/// A value nothing is known about, nor needs to be.
#[inline(never)]
pub fn opaque<T>() -> T {
    loop {}
}
/// From here on, count the decisions (outside the client) that the content
/// other than the entry of atom `own` can change.
#[inline(never)]
pub fn steady(own: usize) {}
/// The rule `label`: no more than `most` such decisions since.
#[inline(never)]
pub fn steady_end(most: usize, label: &'static str) {}
