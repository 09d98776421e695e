//! Transfer functions of compiler intrinsics, and of the analysis vocabulary
//! (`witness::fm`) the most-general clients are written in.
use crate::dd::*;
use crate::exec::*;
use crate::val::*;
use rustc_hir::def_id::DefId;
use rustc_middle::mir::*;
use rustc_middle::ty::{self, GenericArgsRef, Instance, Ty};
use std::collections::HashMap;
use std::rc::Rc;

/// Ghost cells of `fm::steady`: whose own key, and the decisions counted.
const STEADY: usize = 4088;

type Next<'tcx> = Option<Vec<Cfg<'tcx>>>;

impl<'tcx> Eng<'tcx> {
    fn fin(&mut self, c: &mut Cfg<'tcx>, d: &PlaceR<'tcx>, v: Val, t: Option<BasicBlock>) -> R<Option<Next<'tcx>>> {
        self.finish(c, d, v, t).map(Some)
    }
    pub fn const_str(&mut self, v: &Val, g: Dd) -> R<String> {
        let p = self.one_ptr(v, g)?;
        let n = match p.meta {
            Meta::Len(n) => n,
            _ => return und("string without length"),
        };
        let Base::Glob(gi) = p.base else { return und("string not constant") };
        let Val::A(a) = self.globs[gi as usize].1.clone() else { return und("string constant") };
        let mut out = vec![];
        for i in 0..n as usize {
            out.push(self.one_int(&a[i], g)? as u8);
        }
        Ok(String::from_utf8_lossy(&out).into_owned())
    }
    pub fn intrinsic(
        &mut self,
        c: &mut Cfg<'tcx>,
        def: DefId,
        ga: GenericArgsRef<'tcx>,
        args: &[Val],
        dest: &PlaceR<'tcx>,
        target: Option<BasicBlock>,
    ) -> R<Option<Next<'tcx>>> {
        let name = self.tcx.item_name(def);
        let g = c.guard;
        let t0 = || -> Ty<'tcx> { ga.type_at(0) };
        let v: Val = match name.as_str() {
            "abort" | "abort_immediate" | "breakpoint" => return Err(Stop::Panic("abort".into())),
            "unreachable" => return Err(Stop::Ub("unreachable_unchecked is reached".into())),
            "assume" => {
                let b = self.boolean(&args[0], g)?;
                let nb = self.m.not(b);
                if self.m.and(g, nb) != FALSE {
                    return Err(Stop::Ub("assume of a false condition".into()));
                }
                unit()
            }
            "cold_path" | "assert_inhabited" | "assert_zero_valid" | "assert_mem_uninitialized_valid" => unit(),
            "likely" | "unlikely" | "black_box" => args[0].clone(),
            "ub_checks" | "contract_checks" | "is_val_statically_known" => Self::vbool(false),
            "overflow_checks" => Self::vbool(true),
            "size_of" => {
                let n = self.size_of(t0())?;
                self.int(n as u128)
            }
            "align_of" | "min_align_of" => match self.tcx.layout_of(self.env.as_query_input(t0())) {
                Ok(l) => self.int(l.align.abi.bytes() as u128),
                Err(_) => return und("layout"),
            },
            "needs_drop" => Self::vbool(t0().needs_drop(self.tcx, self.env)),
            "variant_count" => {
                let n = match t0().kind() {
                    ty::Adt(d, _) => d.variants().len(),
                    _ => 0,
                };
                self.int(n as u128)
            }
            "type_name" => self.top("type name"),
            "type_id" => self.top("type id"),
            "caller_location" => self.top("caller location"),
            "discriminant_value" => {
                let p = self.one_ptr(&args[0], g)?;
                let pl = PlaceR { ptr: p, ty: t0(), variant: None };
                let v = self.load(c, &pl)?;
                self.discriminant(g, &v, t0())?
            }
            "read_via_copy" | "volatile_load" | "unaligned_volatile_load" => {
                let p = self.one_ptr(&args[0], g)?;
                self.load(c, &PlaceR { ptr: p, ty: t0(), variant: None })?
            }
            "write_via_move" | "volatile_store" => {
                let p = self.one_ptr(&args[0], g)?;
                self.store(c, &PlaceR { ptr: p, ty: t0(), variant: None }, args[1].clone())?;
                unit()
            }
            "copy_nonoverlapping" | "copy" => {
                let ty = Ty::new_imm_ptr(self.tcx, t0());
                self.copy_mem(c, &args[0], &args[1], &args[2], ty)?;
                unit()
            }
            "typed_swap_nonoverlapping" => {
                let p = self.one_ptr(&args[0], g)?;
                let q = self.one_ptr(&args[1], g)?;
                let (p, q) = (PlaceR { ptr: p, ty: t0(), variant: None }, PlaceR { ptr: q, ty: t0(), variant: None });
                let (a, b) = (self.load(c, &p)?, self.load(c, &q)?);
                self.store(c, &p, b)?;
                self.store(c, &q, a)?;
                unit()
            }
            "write_bytes" | "volatile_set_memory" => return und("write_bytes"),
            "forget" => unit(),
            "transmute" | "transmute_unchecked" | "transmute_prefix" => {
                let (a, b) = (ga.type_at(0), ga.type_at(1));
                self.transmute(g, args[0].clone(), a, b)?
            }
            "arith_offset" | "offset" | "ptr_offset" => {
                let n = self.one_int(&args[1], g)?;
                let n = sext(n, 64) as i64;
                let d = self.to_d(&args[0], g)?;
                Val::D(self.m.map(d, &mut |t| match t {
                    Term::Ptr(p) => Term::Ptr(p.add(n)),
                    t => t.clone(),
                }))
            }
            "ptr_offset_from" | "ptr_offset_from_unsigned" => {
                let p = self.one_ptr(&args[0], g)?;
                let q = self.one_ptr(&args[1], g)?;
                match p.diff(&q) {
                    Some(n) => {
                        if name.as_str().ends_with("unsigned") && n < 0 {
                            return Err(Stop::Ub("negative pointer distance".into()));
                        }
                        self.int(n as i64 as u64 as u128)
                    }
                    None => return und("distance of unrelated pointers"),
                }
            }
            "ptr_guaranteed_cmp" => self.int(2),
            "slice_get_unchecked" => {
                // (slice ptr/ref, index) -> element ptr/ref
                let p = self.one_ptr(&args[0], g)?;
                let i = self.one_int(&args[1], g)? as u64;
                if let Meta::Len(n) = p.meta {
                    if i >= n {
                        return Err(Stop::Ub(format!("get_unchecked index {i} of {n}")));
                    }
                }
                self.vptr(p.add(i as i64).thin())
            }
            "ptr_metadata" => self.unop(g, UnOp::PtrMetadata, args[0].clone(), t0())?,
            "size_of_val" | "align_of_val" | "min_align_of_val" => {
                if t0().is_sized(self.tcx, self.env) {
                    let n = self.size_of(t0())?;
                    if name.as_str() == "size_of_val" {
                        self.int(n as u128)
                    } else {
                        self.top("alignment")
                    }
                } else {
                    self.top("size of unsized value")
                }
            }
            "add_with_overflow" | "sub_with_overflow" | "mul_with_overflow" => {
                let op = match name.as_str() {
                    "add_with_overflow" => BinOp::AddWithOverflow,
                    "sub_with_overflow" => BinOp::SubWithOverflow,
                    _ => BinOp::MulWithOverflow,
                };
                self.binop(g, op, args[0].clone(), args[1].clone(), t0(), t0())?
            }
            "wrapping_add" | "unchecked_add" | "wrapping_sub" | "unchecked_sub" | "wrapping_mul" | "unchecked_mul" | "unchecked_div" | "unchecked_rem" | "exact_div" | "disjoint_bitor" => {
                let op = match name.as_str() {
                    "wrapping_add" => BinOp::Add,
                    "unchecked_add" => BinOp::AddUnchecked,
                    "wrapping_sub" => BinOp::Sub,
                    "unchecked_sub" => BinOp::SubUnchecked,
                    "wrapping_mul" => BinOp::Mul,
                    "unchecked_mul" => BinOp::MulUnchecked,
                    "unchecked_rem" => BinOp::Rem,
                    "disjoint_bitor" => BinOp::BitOr,
                    _ => BinOp::Div,
                };
                self.binop(g, op, args[0].clone(), args[1].clone(), t0(), t0())?
            }
            "unchecked_shl" | "unchecked_shr" => {
                let op = if name.as_str() == "unchecked_shl" { BinOp::Shl } else { BinOp::Shr };
                let t1 = ga.type_at(1);
                self.binop(g, op, args[0].clone(), args[1].clone(), t0(), t1)?
            }
            "saturating_add" | "saturating_sub" => {
                let add = name.as_str() == "saturating_add";
                let op = if add { BinOp::AddWithOverflow } else { BinOp::SubWithOverflow };
                let Some((w, sg)) = ibits(self.tcx, self.tcx.normalize_erasing_regions(self.env, ty::Unnormalized::new_wip(t0()))) else { return und("saturating") };
                let r = self.binop(g, op, args[0].clone(), args[1].clone(), t0(), t0())?;
                let Val::A(r) = r else { return und("saturating") };
                let ov = self.boolean(&r[1].clone(), g)?;
                if ov == FALSE {
                    r[0].clone()
                } else if sg {
                    return und("signed saturation");
                } else {
                    let lim = self.int(if add { mask(w) } else { 0 });
                    self.ite_val(ov, &lim, &r[0].clone())
                }
            }
            "three_way_compare" => self.binop(g, BinOp::Cmp, args[0].clone(), args[1].clone(), t0(), t0())?,
            "select_unpredictable" => {
                let b = self.boolean(&args[0], g)?;
                self.ite_val(b, &args[1], &args[2])
            }
            "ctpop" => self.popcount(&args[0], g)?,
            "cttz" | "cttz_nonzero" | "ctlz" | "ctlz_nonzero" => {
                let Some((w, _)) = ibits(self.tcx, t0()) else { return und("bit count") };
                if name.as_str().ends_with("nonzero") {
                    let b = self.to_b(&args[0])?;
                    let mut any = FALSE;
                    for x in b.iter() {
                        any = self.m.or(any, *x);
                    }
                    let z = self.m.not(any);
                    if self.m.and(z, g) != FALSE {
                        return Err(Stop::Ub(format!("{name} of zero")));
                    }
                }
                let b = self.to_b(&args[0])?;
                let tz = name.as_str().starts_with("cttz");
                let mut acc = self.m.term(Term::Int(w as u128));
                let order: Vec<usize> = if tz { (0..w as usize).rev().collect() } else { (0..w as usize).collect() };
                for i in order {
                    let bit = b.get(i).copied().unwrap_or(FALSE);
                    let k = self.m.term(Term::Int(if tz { i as u128 } else { w as u128 - 1 - i as u128 }));
                    acc = self.m.ite(bit, k, acc);
                }
                Val::D(acc)
            }
            "bitreverse" | "bswap" => {
                let Some((w, _)) = ibits(self.tcx, t0()) else { return und("bit reverse") };
                let b = self.to_b(&args[0])?;
                let rev = name.as_str() == "bitreverse";
                let mut o = vec![];
                for i in 0..w as usize {
                    let j = if rev { w as usize - 1 - i } else { (w as usize / 8 - 1 - i / 8) * 8 + i % 8 };
                    o.push(b.get(j).copied().unwrap_or(FALSE));
                }
                Val::B(Rc::new(o))
            }
            "rotate_left" | "rotate_right" => {
                let Some((w, _)) = ibits(self.tcx, t0()) else { return und("rotate") };
                let w = w as usize;
                let n = (self.one_int(&args[1], g)? % w as u128) as usize;
                let b = self.to_b(&args[0])?;
                let mut o = vec![];
                for i in 0..w {
                    let j = if name.as_str() == "rotate_left" { (i + w - n) % w } else { (i + n) % w };
                    o.push(b.get(j).copied().unwrap_or(FALSE));
                }
                Val::B(Rc::new(o))
            }
            "const_eval_select" => {
                // run-time branch: args = (tuple, const_fn, rt_fn)
                let f = ga.type_at(2);
                let ty::FnDef(d, fa) = f.kind() else { return und("const_eval_select") };
                let fa = match fa.no_bound_vars() {
                    Some(a) => a,
                    None => return und("const_eval_select"),
                };
                let inst = match Instance::try_resolve(self.tcx, self.env, *d, fa) {
                    Ok(Some(i)) => i,
                    _ => return und("const_eval_select"),
                };
                let Val::A(t) = &args[0] else { return und("const_eval_select") };
                let a: Vec<Val> = t.iter().cloned().collect();
                return self.call(c, inst, a, dest.clone(), target, false).map(Some);
            }
            "raw_eq" => {
                let p = self.one_ptr(&args[0], g)?;
                let q = self.one_ptr(&args[1], g)?;
                let a = self.load(c, &PlaceR { ptr: p, ty: t0(), variant: None })?;
                let b = self.load(c, &PlaceR { ptr: q, ty: t0(), variant: None })?;
                self.raw_eq(&a, &b, g)?
            }
            "compare_bytes" => {
                let n = self.one_int(&args[2], g)?;
                if n == 0 {
                    self.int(0)
                } else {
                    self.top("memcmp")
                }
            }
            "vtable_size" | "vtable_align" => self.top("vtable"),
            _ => return Ok(None),
        };
        self.fin(c, dest, v, target)
    }
    fn raw_eq(&mut self, a: &Val, b: &Val, g: Dd) -> R<Val> {
        match (a, b) {
            (Val::A(x), Val::A(y)) if x.len() == y.len() => {
                let mut acc = TRUE;
                for (p, q) in x.iter().zip(y.iter()) {
                    let Val::D(d) = self.raw_eq(p, q, g)? else { return und("raw_eq") };
                    acc = self.m.and(acc, d);
                }
                Ok(Val::D(acc))
            }
            _ => {
                let (p, q) = (self.to_b(a)?, self.to_b(b)?);
                let mut acc = TRUE;
                for i in 0..p.len().max(q.len()) {
                    let x = self.m.xor(p.get(i).copied().unwrap_or(FALSE), q.get(i).copied().unwrap_or(FALSE));
                    let nx = self.m.not(x);
                    acc = self.m.and(acc, nx);
                }
                Ok(Val::D(acc))
            }
        }
    }
    fn popcount(&mut self, v: &Val, g: Dd) -> R<Val> {
        let b = self.to_b(v)?;
        let mut acc = FALSE;
        for bit in b.iter() {
            let bit = self.m.constrain(*bit, g);
            if bit == FALSE {
                continue;
            }
            let inc = self.m.map(acc, &mut |t| match t {
                Term::Int(i) => Term::Int(i + 1),
                t => t.clone(),
            });
            acc = self.m.ite(bit, inc, acc);
        }
        Ok(self.tidy(acc))
    }

    /// Under `fm::steady`, count a decision that other entries can change.
    pub fn sway(&mut self, c: &Cfg<'tcx>, outs: &mut [Cfg<'tcx>], sp: rustc_span::Span) -> R<()> {
        let Some(Val::D(on)) = c.ghost.get(STEADY).cloned() else { return Ok(()) };
        let Some(Term::Int(own)) = self.m.as_term(on).cloned() else { return und("steady in some cases only") };
        if own == 0 || outs.len() < 2 {
            return Ok(());
        }
        let f = c.frames.last().unwrap().f;
        if self.fns[f].inst.def_id().is_local() && !self.fns[f].is_repo {
            return Ok(());
        }
        let hide = |v: u32| v % 16 == 0 && v != own as u32 - 1;
        let mut memo = HashMap::new();
        let seen: Vec<Dd> = outs.iter().map(|k| k.guard).collect();
        let seen: Vec<Dd> = seen.into_iter().map(|g| self.m.exists(g, &hide, &mut memo)).collect();
        let mut both = false;
        for i in 0..seen.len() {
            for j in 0..i {
                both |= self.m.and(seen[i], seen[j]) != FALSE;
            }
        }
        if !both {
            return Ok(());
        }
        let lo = self.tcx.sess.source_map().lookup_char_pos(sp.lo());
        let at = format!("{} ({}:{})", self.fns[f].name, lo.file.name.prefer_local_unconditionally(), lo.line);
        self.swayed.insert(at);
        for k in outs {
            let d = self.to_d(&k.ghost[STEADY + 1].clone(), k.guard)?;
            let n = self.m.map(d, &mut |t| match t {
                Term::Int(i) => Term::Int((i + 1).min(1000)),
                t => t.clone(),
            });
            k.ghost[STEADY + 1] = Val::D(n);
        }
        Ok(())
    }
    /// Calls with a built-in meaning.
    pub fn hook(
        &mut self,
        c: &mut Cfg<'tcx>,
        def: DefId,
        inst: Instance<'tcx>,
        args: &[Val],
        dest: &PlaceR<'tcx>,
        target: Option<BasicBlock>,
    ) -> R<Option<Next<'tcx>>> {
        let path = self.path(def);
        let g = c.guard;
        if let Some(f) = path.strip_prefix("witness::fm::") {
            let f = strip_generics(f);
            let v = match f.as_str() {
                "atom" => {
                    let i = self.one_int(&args[0], g)? as u32;
                    Val::D(self.m.var(i))
                }
                "check" => {
                    let ok = self.boolean(&args[0], g)?;
                    let label = self.const_str(&args[1], g)?;
                    self.stats.checks += 1;
                    *self.labels.entry(label.clone()).or_insert(0) += 1;
                    let nok = self.m.not(ok);
                    let bad = self.m.and(g, nok);
                    if bad != FALSE {
                        let mut k = c.clone();
                        k.guard = bad;
                        self.report(&k, "rule", label.clone(), label);
                    } else if c.calls.len() > 0 {
                        c.calls = Rc::new(vec![]);
                    }
                    let good = self.m.and(g, ok);
                    if good == FALSE {
                        return Err(Stop::Dead);
                    }
                    c.guard = good;
                    unit()
                }
                "assume" => {
                    let ok = self.boolean(&args[0], g)?;
                    self.stats.assumed += 1;
                    let good = self.m.and(g, ok);
                    if good == FALSE {
                        return Err(Stop::Dead);
                    }
                    c.guard = good;
                    unit()
                }
                "ghost_get" => {
                    let i = self.one_int(&args[0], g)? as usize;
                    match c.ghost.get(i) {
                        Some(v) => v.clone(),
                        None => Val::D(FALSE),
                    }
                }
                "ghost_set" => {
                    let i = self.one_int(&args[0], g)? as usize;
                    if i > 4096 {
                        return und("ghost index");
                    }
                    while c.ghost.len() <= i {
                        c.ghost.push(Val::D(FALSE));
                    }
                    c.ghost[i] = args[1].clone();
                    unit()
                }
                "steady" => {
                    let own = self.one_int(&args[0], g)? as u32;
                    while c.ghost.len() <= STEADY + 1 {
                        c.ghost.push(Val::D(FALSE));
                    }
                    c.ghost[STEADY] = Val::D(self.m.term(Term::Int(own as u128 + 1)));
                    c.ghost[STEADY + 1] = Val::D(FALSE);
                    self.swayed.clear();
                    unit()
                }
                "steady_end" => {
                    let most = self.one_int(&args[0], g)?;
                    let label = self.const_str(&args[1], g)?;
                    self.stats.checks += 1;
                    *self.labels.entry(label.clone()).or_insert(0) += 1;
                    if c.ghost.len() > STEADY + 1 {
                        c.ghost[STEADY] = Val::D(FALSE);
                        let d = self.to_d(&c.ghost[STEADY + 1].clone(), g)?;
                        for (t, w) in self.m.cases(d, g) {
                            if matches!(t, Term::Int(n) if n > most) {
                                let mut k = c.clone();
                                k.guard = w;
                                let at: Vec<String> = self.swayed.iter().cloned().collect();
                                let msg = format!("{label}: more than {most} decisions on the way depend on other entries, at {}", at.join(", "));
                                self.report(&k, "rule", label.clone(), msg);
                            }
                        }
                    }
                    unit()
                }
                "same_repr" => {
                    let t = inst.args.type_at(0);
                    let p = self.one_ptr(&args[0], g)?;
                    let q = self.one_ptr(&args[1], g)?;
                    let a = self.load(c, &PlaceR { ptr: p, ty: t, variant: None })?;
                    let b = self.load(c, &PlaceR { ptr: q, ty: t, variant: None })?;
                    match self.same(g, &a, &b) {
                        Some(true) => {
                            self.stats.repr_same += 1;
                            Self::vbool(true)
                        }
                        _ => {
                            self.stats.repr_diff += 1;
                            Self::vbool(false)
                        }
                    }
                }
                "catch" => {
                    // catch(f): run f, true if it unwound
                    let ft = inst.args.type_at(0);
                    let lang = self.tcx.lang_items();
                    let Some(tr) = lang.fn_once_trait() else { return und("FnOnce") };
                    let m = self.tcx.associated_item_def_ids(tr).iter().copied().find(|d| self.tcx.item_name(*d).as_str() == "call_once");
                    let Some(m) = m else { return und("call_once") };
                    let ga = self.tcx.mk_args(&[ft.into(), self.tcx.types.unit.into()]);
                    let callee = match Instance::try_resolve(self.tcx, self.env, m, ga) {
                        Ok(Some(i)) => i,
                        _ => return und("catch"),
                    };
                    let a = vec![args[0].clone()];
                    self.catch_next = true;
                    // moves were recorded for the current frame
                    let mv = std::mem::take(&mut self.moves);
                    let _ = mv;
                    self.push_frame(c, callee, a, Some(dest.clone()), target)?;
                    return Ok(Some(Some(vec![c.clone()])));
                }
                "panic_now" => {
                    return self.unwind_here(c).map(Some);
                }
                "opaque" => self.top("opaque value"),
                "undecided" => {
                    return und("client gave up");
                }
                _ => return Ok(None),
            };
            return self.fin(c, dest, v, target);
        }
        if &*path == "hashbrown::undecided" {
            return und("outside the model of the hash table");
        }
        if path.starts_with("core::panicking::") || path.starts_with("std::panicking::") {
            return Err(Stop::Panic(format!("{}", path)));
        }
        Ok(None)
    }
}
