//! What core's debug builders do, as far as a client can tell: each entry is
//! formatted once, nothing is formatted after an error, finish reports the
//! first error.  What comes out goes to ghost cells.
use crate::fm;
use core::fmt::{Debug, DebugList, DebugMap, DebugSet, Error, Formatter, Result};

pub const F: usize = 200;
pub const KIND: usize = F; // 0 nothing, 1 map, 2 set, 3 list
pub const ENDED: usize = F + 1;
pub const FAIL: usize = F + 2;
pub const OPEN: usize = F + 3; // a key waits for its value
pub const WHO: usize = F + 4; // what has been written last
pub const SEQ: usize = F + 5; // entries so far
pub const EXTRA: usize = F + 6; // text from outside the entries
pub const BUSY: usize = F + 7; // inside an entry
pub const KEYS: usize = F + 8;
pub const VALS: usize = F + 28;
pub const ROOM: usize = 20;
/// Atoms of this key index say where formatting fails.
pub const FA: usize = 300;

/// What the own key types of the corpus write.
pub fn key_event(i: usize, _f: &mut Formatter<'_>) -> Result {
    fm::ghost_set(WHO, i as u32);
    Ok(())
}
fn fails(n: usize, k: usize) -> bool {
    let mut r = false;
    let mut j = 0;
    while j < ROOM {
        if n == j {
            r = fm::atom(((FA + j) * 16 + k) as u32);
        }
        j += 1;
    }
    r
}
fn one(d: &dyn Debug, k: usize) {
    fm::ghost_set(BUSY, 1);
    let mut f: Formatter<'_> = fm::opaque();
    let r = d.fmt(&mut f);
    fm::ghost_set(BUSY, 0);
    let bad = fails(fm::ghost_get(SEQ) as usize, k);
    if r.is_err() | bad {
        fm::ghost_set(FAIL, 1);
    }
}
fn open(k: u32) {
    if fm::ghost_get(BUSY) != 0 || fm::ghost_get(KIND) != 0 {
        fm::undecided();
    }
    fm::ghost_set(KIND, k);
}
fn end() -> Result {
    if fm::ghost_get(FAIL) != 0 {
        return Err(Error);
    }
    if fails(ROOM - 1, 3) {
        fm::ghost_set(FAIL, 1);
        return Err(Error);
    }
    fm::ghost_set(ENDED, 1);
    Ok(())
}
fn item(d: &dyn Debug) {
    if fm::ghost_get(FAIL) != 0 {
        return;
    }
    one(d, 1);
    let n = fm::ghost_get(SEQ) as usize;
    if n >= ROOM {
        fm::undecided();
    }
    fm::ghost_set(KEYS + n, fm::ghost_get(WHO));
    fm::ghost_set(SEQ, n as u32 + 1);
}
pub fn debug_map<'b, 'a>(_f: &'b mut Formatter<'a>) -> DebugMap<'b, 'a> {
    open(1);
    fm::opaque()
}
pub fn debug_map_key<'x, 'a, 'b>(m: &'x mut DebugMap<'a, 'b>, k: &dyn Debug) -> &'x mut DebugMap<'a, 'b> {
    if fm::ghost_get(FAIL) == 0 {
        if fm::ghost_get(OPEN) != 0 {
            panic!();
        }
        one(k, 1);
        if fm::ghost_get(FAIL) == 0 {
            fm::ghost_set(OPEN, 1);
            let n = fm::ghost_get(SEQ) as usize;
            if n >= ROOM {
                fm::undecided();
            }
            fm::ghost_set(KEYS + n, fm::ghost_get(WHO));
        }
    }
    m
}
pub fn debug_map_value<'x, 'a, 'b>(m: &'x mut DebugMap<'a, 'b>, v: &dyn Debug) -> &'x mut DebugMap<'a, 'b> {
    if fm::ghost_get(FAIL) == 0 {
        if fm::ghost_get(OPEN) == 0 {
            panic!();
        }
        one(v, 2);
        if fm::ghost_get(FAIL) == 0 {
            fm::ghost_set(OPEN, 0);
            let n = fm::ghost_get(SEQ) as usize;
            fm::ghost_set(VALS + n, fm::ghost_get(WHO));
            fm::ghost_set(SEQ, n as u32 + 1);
        }
    }
    m
}
pub fn debug_map_entry<'x, 'a, 'b>(m: &'x mut DebugMap<'a, 'b>, k: &dyn Debug, v: &dyn Debug) -> &'x mut DebugMap<'a, 'b> {
    debug_map_key(m, k);
    debug_map_value(m, v)
}
pub fn debug_map_finish(_m: &mut DebugMap<'_, '_>) -> Result {
    if fm::ghost_get(FAIL) == 0 && fm::ghost_get(OPEN) != 0 {
        panic!();
    }
    end()
}
pub fn debug_map_more(_m: &mut DebugMap<'_, '_>) -> Result {
    fm::ghost_set(EXTRA, 1);
    end()
}
pub fn debug_set<'b, 'a>(_f: &'b mut Formatter<'a>) -> DebugSet<'b, 'a> {
    open(2);
    fm::opaque()
}
pub fn debug_set_entry<'x, 'a, 'b>(m: &'x mut DebugSet<'a, 'b>, k: &dyn Debug) -> &'x mut DebugSet<'a, 'b> {
    item(k);
    m
}
pub fn debug_set_finish(_m: &mut DebugSet<'_, '_>) -> Result {
    end()
}
pub fn debug_set_more(_m: &mut DebugSet<'_, '_>) -> Result {
    fm::ghost_set(EXTRA, 1);
    end()
}
pub fn debug_list<'b, 'a>(_f: &'b mut Formatter<'a>) -> DebugList<'b, 'a> {
    open(3);
    fm::opaque()
}
pub fn debug_list_entry<'x, 'a, 'b>(m: &'x mut DebugList<'a, 'b>, k: &dyn Debug) -> &'x mut DebugList<'a, 'b> {
    item(k);
    m
}
pub fn debug_list_finish(_m: &mut DebugList<'_, '_>) -> Result {
    end()
}
pub fn debug_list_more(_m: &mut DebugList<'_, '_>) -> Result {
    fm::ghost_set(EXTRA, 1);
    end()
}
/// `true`, `false`, `()`, `None`: told apart by their length.
pub fn write_str(_f: &mut Formatter<'_>, s: &str) -> Result {
    if fm::ghost_get(BUSY) == 0 {
        fm::ghost_set(EXTRA, 1);
        return Ok(());
    }
    let n = s.len();
    fm::ghost_set(WHO, if n == 5 { 1 } else { 0 });
    if n != 2 && n != 4 && n != 5 {
        fm::undecided();
    }
    Ok(())
}
pub fn pad(f: &mut Formatter<'_>, s: &str) -> Result {
    write_str(f, s)
}
pub fn write_fmt(_f: &mut Formatter<'_>, _: core::fmt::Arguments<'_>) -> Result {
    if fm::ghost_get(BUSY) != 0 {
        fm::undecided();
    }
    fm::ghost_set(EXTRA, 1);
    Ok(())
}
/// `Some(x)`.
pub fn field1(f: &mut Formatter<'_>, _name: &str, x: &dyn Debug) -> Result {
    let x: &&dyn Debug = &x;
    match x.fmt(f) {
        Ok(()) => {
            fm::ghost_set(WHO, 1 + fm::ghost_get(WHO));
            Ok(())
        }
        Err(e) => Err(e),
    }
}
pub fn u32_debug(x: &u32, _f: &mut Formatter<'_>) -> Result {
    fm::ghost_set(WHO, *x);
    Ok(())
}
pub fn bool_display(x: &bool, f: &mut Formatter<'_>) -> Result {
    pad(f, if *x { "true" } else { "false" })
}

// What the caller asks of the format: anything.
const ASK: u32 = 5000 * 16;
fn some(k: u32) -> Option<usize> {
    if !fm::atom(ASK + k) {
        None
    } else if fm::atom(ASK + k + 1) {
        Some(0)
    } else if fm::atom(ASK + k + 2) {
        Some(1)
    } else {
        Some(65535)
    }
}
pub fn precision(_: &Formatter<'_>) -> Option<usize> {
    some(0)
}
pub fn width(_: &Formatter<'_>) -> Option<usize> {
    some(3)
}
pub fn fill(_: &Formatter<'_>) -> char {
    if fm::atom(ASK + 6) {
        ' '
    } else {
        '#'
    }
}
pub fn align(_: &Formatter<'_>) -> Option<core::fmt::Alignment> {
    if fm::atom(ASK + 7) {
        None
    } else if fm::atom(ASK + 8) {
        Some(core::fmt::Alignment::Left)
    } else if fm::atom(ASK + 9) {
        Some(core::fmt::Alignment::Right)
    } else {
        Some(core::fmt::Alignment::Center)
    }
}
pub fn alternate(_: &Formatter<'_>) -> bool {
    fm::atom(ASK + 10)
}
pub fn sign_plus(_: &Formatter<'_>) -> bool {
    fm::atom(ASK + 11)
}
pub fn sign_minus(_: &Formatter<'_>) -> bool {
    fm::atom(ASK + 12)
}
pub fn zero_pad(_: &Formatter<'_>) -> bool {
    fm::atom(ASK + 13)
}
pub fn write_char(f: &mut Formatter<'_>, _: char) -> Result {
    write_str(f, "")
}

pub fn memchr(x: u8, text: &[u8]) -> Option<usize> {
    let mut i = 0;
    while i < text.len() {
        if text[i] == x {
            return Some(i);
        }
        i += 1;
    }
    None
}
