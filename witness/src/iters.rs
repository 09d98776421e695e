//! Clients of the methods which `Iterator` and `DoubleEndedIterator` provide, for any
//! iterator over a container: an implementation may replace any of them, and must then
//! do what the provided one does, to what is returned and to what is left behind.
//!
//! `{ $prep }` binds the container (fresh for each use), `$r` is the region of its
//! content, `$it` makes the iterator, `$wrap` makes an `Item` of what it yields.

/// Which key a borrowed item is about.
#[macro_export]
macro_rules! ixof {
    (K, $x:expr) => {
        (*$x).idx()
    };
    (id, $x:expr) => {
        Item::<S>::ix($x)
    };
}
/// Some way into the iterator, from the front.
#[macro_export]
macro_rules! partial {
    ($r:ident, $i:ident, $wrap:ident) => {
        if at(0, 5) {
            $r.front::<S, _>($i.next().map($wrap));
            if at(1, 5) {
                $r.front::<S, _>($i.next().map($wrap));
            }
        }
    };
}
/// Some way into the iterator, from either end.
#[macro_export]
macro_rules! partial2 {
    ($r:ident, $i:ident, $wrap:ident) => {
        if at(0, 5) {
            if at(1, 5) {
                $r.front::<S, _>($i.next().map($wrap));
            } else {
                $r.back::<S, _>($i.next_back().map($wrap));
            }
        }
    };
}
/// What comes after is just what is left.
#[macro_export]
macro_rules! rest {
    ($r:ident, $i:ident, $wrap:ident) => {
        $r.hint::<S>($i.size_hint());
        while $r.front::<S, _>($i.next().map($wrap)).is_some() {}
        $r.hint::<S>($i.size_hint());
        ck($i.next().is_none(), "an exhausted iterator stays exhausted");
    };
}
#[macro_export]
macro_rules! rest_back {
    ($r:ident, $i:ident, $wrap:ident) => {
        $r.hint::<S>($i.size_hint());
        while $r.back::<S, _>($i.next_back().map($wrap)).is_some() {}
        $r.hint::<S>($i.size_hint());
        ck($i.next().is_none(), "an exhausted iterator stays exhausted");
    };
}

/// Methods which take the iterator by value.
#[macro_export]
macro_rules! consume {
    ($name:ident, {$($prep:tt)*}, $reg:expr, $it:expr, $wrap:ident) => {
        fn $name<S: Shape>() {
            let mut which = 0;
            while which < 10 {
                clear::<S>(A);
                clear::<S>(B);
                $($prep)*
                let r = Ref::start::<S>($reg);
                let mut it = $it;
                $crate::partial!(r, it, $wrap);
                if which == 0 {
                    let n = r.left::<S>();
                    let m = it.fold(3, |n, x| {
                        r.front::<S, _>(Some($wrap(x)));
                        n + 1
                    });
                    r.done::<S>();
                    ck(m == n + 3, "folding threads the accumulator through");
                } else if which == 1 {
                    let n = r.left::<S>();
                    ck(it.count() == n, "count is the number of entries left");
                } else if which == 2 {
                    r.back::<S, _>(it.last().map($wrap));
                } else if which == 3 {
                    for x in it {
                        r.front::<S, _>(Some($wrap(x)));
                    }
                    r.done::<S>();
                } else if which == 4 {
                    it.for_each(|x| {
                        r.front::<S, _>(Some($wrap(x)));
                    });
                    r.done::<S>();
                } else if which == 5 {
                    // Which one is handed on is up to the closure.
                    let mut n = 0;
                    let x = it.reduce(|a, b| {
                        n += 1;
                        if at(n, 6) { a } else { b }
                    });
                    let left = r.left::<S>();
                    ck(n == left.saturating_sub(1), "reducing takes every entry");
                    match x {
                        Some(x) => r.pending_item::<S, _>($wrap(x)),
                        None => r.done::<S>(),
                    }
                } else if which == 6 {
                    let x = it.max_by(|a, b| $crate::ixof!($wrap, a).cmp(&$crate::ixof!($wrap, b)));
                    r.extreme::<S, _>(x.map($wrap), true);
                } else if which == 7 {
                    let x = it.min_by(|a, b| $crate::ixof!($wrap, a).cmp(&$crate::ixof!($wrap, b)));
                    r.extreme::<S, _>(x.map($wrap), false);
                } else if which == 8 {
                    // Lazy adaptors, taken to their end.
                    let mut it = it.filter(|_| true).map(|x| x).fuse();
                    r.hint_upper::<S>(it.size_hint());
                    while r.front::<S, _>(it.next().map($wrap)).is_some() {}
                } else {
                    let mut n = 0;
                    let mut it = it.enumerate();
                    loop {
                        match it.next() {
                            Some((i, x)) => {
                                ck(i == n, "entries are counted one by one");
                                n += 1;
                                r.front::<S, _>(Some($wrap(x)));
                            }
                            None => break,
                        }
                    }
                    r.done::<S>();
                }
                which += 1;
            }
        }
    };
}

/// Methods which take the iterator by reference and may stop short.
#[macro_export]
macro_rules! search {
    ($name:ident, {$($prep:tt)*}, $reg:expr, $it:expr, $wrap:ident) => {
        fn $name<S: Shape>() {
            let mut which = 0;
            while which < 7 {
                clear::<S>(A);
                clear::<S>(B);
                $($prep)*
                let r = Ref::start::<S>($reg);
                let mut it = $it;
                $crate::partial!(r, it, $wrap);
                let mut n = 0;
                let mut stop = false;
                if which == 0 {
                    stop = it.any(|x| {
                        r.front::<S, _>(Some($wrap(x)));
                        n += 1;
                        at(n, 6)
                    });
                } else if which == 1 {
                    let x = it.find_map(|x| {
                        r.front::<S, _>(Some($wrap(x)));
                        n += 1;
                        if at(n, 6) { Some(n) } else { None }
                    });
                    match x {
                        Some(m) => {
                            stop = true;
                            ck(m == n, "searching hands on what it was given");
                        }
                        None => {}
                    }
                } else if which == 2 {
                    stop = !it.all(|x| {
                        r.front::<S, _>(Some($wrap(x)));
                        n += 1;
                        !at(n, 6)
                    });
                } else if which == 3 {
                    match it.position(|x| {
                        r.front::<S, _>(Some($wrap(x)));
                        n += 1;
                        at(n, 6)
                    }) {
                        Some(p) => {
                            stop = true;
                            ck(p + 1 == n, "a position counts the entries before");
                        }
                        None => {}
                    }
                } else if which == 4 {
                    let x = it.try_fold(7, |m, x| {
                        r.front::<S, _>(Some($wrap(x)));
                        n += 1;
                        if at(n, 6) { Err(m) } else { Ok(m + 1) }
                    });
                    match x {
                        Ok(m) => ck(m == n + 7, "folding threads the accumulator through"),
                        Err(m) => {
                            stop = true;
                            ck(m + 1 == n + 7, "folding threads the accumulator through");
                        }
                    }
                } else if which == 5 {
                    let x = it.try_for_each(|x| {
                        r.front::<S, _>(Some($wrap(x)));
                        n += 1;
                        if at(n, 6) { None } else { Some(()) }
                    });
                    stop = x.is_none();
                } else {
                    let mut last = S::N;
                    let x = it.find(|x| {
                        last = $crate::ixof!($wrap, x);
                        r.pass::<S>(last, val(last));
                        n += 1;
                        at(n, 6)
                    });
                    match x {
                        Some(x) => {
                            stop = true;
                            let x = $wrap(x);
                            ck(Item::<S>::ix(&x) == last, "searching hands on what it was given");
                            ck(Item::<S>::v(&x) == val(last), "searching hands on what it was given");
                        }
                        None => {}
                    }
                }
                if stop {
                    ck(n != 0, "a search stops at the first hit");
                    ck(at(n, 6), "a search stops at the first hit");
                } else {
                    r.done::<S>();
                    ck((n == 0) | !at(n, 6), "a search stops at the first hit");
                }
                $crate::rest!(r, it, $wrap);
                which += 1;
            }
        }
    };
}

/// `nth`, then whatever is left (ordered shapes).
#[macro_export]
macro_rules! nth {
    ($name:ident, {$($prep:tt)*}, $reg:expr, $it:expr, $wrap:ident) => {
        fn $name<S: Shape>() {
            let mut n = 0;
            while n < 5 {
                clear::<S>(A);
                clear::<S>(B);
                $($prep)*
                let r = Ref::start::<S>($reg);
                let mut it = $it;
                if at(0, 5) {
                    r.front::<S, _>(it.next().map($wrap));
                }
                let x = it.nth(if n == 4 { usize::MAX } else { n });
                let mut k = 0;
                while k < if n == 4 { S::N } else { n } {
                    r.skip::<S>();
                    k += 1;
                }
                r.front::<S, _>(x.map($wrap));
                $crate::rest!(r, it, $wrap);
                n += 1;
            }
        }
    };
}

/// Methods which start from the back (ordered shapes).
#[macro_export]
macro_rules! rev {
    ($name:ident, {$($prep:tt)*}, $reg:expr, $it:expr, $wrap:ident, $($b:tt)*) => {
        fn $name<S: Shape>() where $($b)* {
            // which = 0: rev, 1: rfold, 2 to 5: nth_back, 6: try_rfold, 7: rfind, 8: nth then the back
            let mut which = 0;
            while which < 9 {
                clear::<S>(A);
                clear::<S>(B);
                $($prep)*
                let r = Ref::start::<S>($reg);
                let mut it = $it;
                $crate::partial2!(r, it, $wrap);
                if which == 0 {
                    let mut it = it.rev();
                    while r.back::<S, _>(it.next().map($wrap)).is_some() {}
                } else if which == 1 {
                    let n = r.left::<S>();
                    let m = it.rfold(3, |n, x| {
                        r.back::<S, _>(Some($wrap(x)));
                        n + 1
                    });
                    r.done::<S>();
                    ck(m == n + 3, "folding threads the accumulator through");
                } else if which < 6 {
                    let n = which - 2;
                    let x = it.nth_back(if n == 3 { usize::MAX } else { n });
                    let mut k = 0;
                    while k < if n == 3 { S::N } else { n } {
                        r.skip_back::<S>();
                        k += 1;
                    }
                    r.back::<S, _>(x.map($wrap));
                    $crate::rest!(r, it, $wrap);
                } else if which == 6 {
                    let mut n = 0;
                    let x = it.try_rfold(7, |m, x| {
                        r.back::<S, _>(Some($wrap(x)));
                        n += 1;
                        if at(n, 6) { Err(m) } else { Ok(m + 1) }
                    });
                    match x {
                        Ok(m) => {
                            ck(m == n + 7, "folding threads the accumulator through");
                            r.done::<S>();
                            ck((n == 0) | !at(n, 6), "a search stops at the first hit");
                        }
                        Err(m) => {
                            ck(m + 1 == n + 7, "folding threads the accumulator through");
                            ck(at(n, 6), "a search stops at the first hit");
                        }
                    }
                    $crate::rest!(r, it, $wrap);
                } else if which == 7 {
                    let mut n = 0;
                    let x = it.rfind(|_| {
                        n += 1;
                        at(n, 6)
                    });
                    let mut k = 1;
                    while k < n {
                        r.skip_back::<S>();
                        k += 1;
                    }
                    match x {
                        Some(x) => {
                            ck(n != 0, "a search stops at the first hit");
                            ck(at(n, 6), "a search stops at the first hit");
                            r.back::<S, _>(Some($wrap(x)));
                        }
                        None => {
                            r.skip_back::<S>();
                            r.done::<S>();
                        }
                    }
                    $crate::rest_back!(r, it, $wrap);
                } else {
                    let x = it.nth(1);
                    r.skip::<S>();
                    r.front::<S, _>(x.map($wrap));
                    $crate::rest_back!(r, it, $wrap);
                }
                which += 1;
            }
        }
    };
}

/// The least and the greatest item, of which order keys may have.
#[macro_export]
macro_rules! extremes {
    ($name:ident, {$($prep:tt)*}, $reg:expr, $it:expr, $wrap:ident) => {
        fn $name<S: Shape + Ord>() {
            let mut which = 0;
            while which < 4 {
                clear::<S>(A);
                clear::<S>(B);
                $($prep)*
                let r = Ref::start::<S>($reg);
                let mut it = $it;
                $crate::partial!(r, it, $wrap);
                if which == 0 {
                    r.extreme_key::<S, _>(it.max().map($wrap), true);
                } else if which == 1 {
                    r.extreme_key::<S, _>(it.min().map($wrap), false);
                } else if which == 2 {
                    r.extreme::<S, _>(it.max_by_key(|x| $crate::ixof!($wrap, x)).map($wrap), true);
                } else {
                    r.extreme::<S, _>(it.min_by_key(|x| $crate::ixof!($wrap, x)).map($wrap), false);
                }
                which += 1;
            }
        }
    };
}
