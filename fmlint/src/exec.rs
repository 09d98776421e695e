//! Interprocedural abstract interpretation of MIR.
//!
//! Disjuncts that reach the same program point (same call string, same loop
//! iteration) are joined; joins are `ite` on the guards, hence lossless.
use crate::dd::*;
use crate::val::*;
use rustc_abi::{FieldIdx, VariantIdx};
use rustc_hir::def_id::DefId;
use rustc_middle::mir::{self, *};
use rustc_middle::ty::{self, Instance, InstanceKind, ShimKind, Ty, TyCtxt};
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::rc::Rc;

pub enum Stop {
    Fork(Dd),
    Und(String),
    Ub(String),
    Panic(String),
    Dead,
}
pub type R<T> = Result<T, Stop>;
pub fn und<T>(s: impl Into<String>) -> R<T> {
    Err(Stop::Und(s.into()))
}

pub struct FnBody<'tcx> {
    pub inst: Instance<'tcx>,
    pub body: Body<'tcx>,
    pub rpo: Vec<u32>,
    pub loops: Vec<Vec<u32>>, // per block: enclosing loop headers (rpo), outer first
    pub is_repo: bool,
    pub name: String,
    pub loc: String,
}

#[derive(Clone)]
pub struct Frame {
    pub f: usize,
    pub bb: BasicBlock,
    pub stmt: usize,
    pub loops: Vec<(u32, u32)>,
    pub locals: Rc<Vec<Val>>,
    pub dest: Option<usize>, // index into cfg.dests? (see Dest)
    pub target: Option<BasicBlock>,
    pub catch: bool,
}

#[derive(Clone, PartialEq)]
pub struct Dest<'tcx> {
    pub place: Option<PlaceR<'tcx>>,
}

#[derive(Clone)]
pub struct Cfg<'tcx> {
    pub guard: Dd,
    pub frames: Vec<Frame>,
    pub dests: Vec<Dest<'tcx>>, // parallel to frames
    pub ghost: Vec<Val>,
    pub calls: Rc<Vec<usize>>,
}

#[derive(Clone, PartialEq, Debug)]
pub struct PlaceR<'tcx> {
    pub ptr: Ptr<'tcx>,
    pub ty: Ty<'tcx>,
    pub variant: Option<u32>,
}

pub struct Finding {
    pub label: String,
    pub kind: &'static str,
    pub msg: String,
}

#[derive(Default)]
pub struct Stats {
    pub steps: u64,
    pub joins: u64,
    pub forks: u64,
    pub checks: u64,
    pub repr_same: u64,
    pub repr_diff: u64,
    pub nodes: usize,
    pub assumed: u64,
}

pub struct Eng<'tcx> {
    pub tcx: TyCtxt<'tcx>,
    pub env: ty::TypingEnv<'tcx>,
    pub m: M<'tcx>,
    pub uninit: Dd,
    pub globs: Vec<(Ty<'tcx>, Val)>,
    pub fns: Vec<Rc<FnBody<'tcx>>>,
    pub fidx: HashMap<Instance<'tcx>, usize>,
    pub trans: HashMap<Ty<'tcx>, Option<(u32, Ty<'tcx>)>>,
    pub const_memo: HashMap<(rustc_middle::mir::interpret::AllocId, u64, Ty<'tcx>), u32>,
    pub discr_memo: HashMap<Ty<'tcx>, Rc<Vec<u128>>>,
    pub queue: BTreeMap<Vec<u32>, Vec<Cfg<'tcx>>>,
    pub moves: Vec<PlaceR<'tcx>>,
    pub findings: Vec<Finding>,
    pub seen: BTreeSet<String>,
    pub undecided: Vec<String>,
    pub stats: Stats,
    pub entered: BTreeSet<usize>,
    pub labels: BTreeMap<String, u64>,
    pub swayed: BTreeSet<String>,
    pub budget: u64,
    pub deadline: std::time::Instant,
    pub names: HashMap<DefId, Rc<str>>,
    pub models: HashMap<String, DefId>,
    pub catch_next: bool,
    pub trace: bool,
    /// Blocks of the repository's functions some obligation got to.
    pub cover: std::collections::HashMap<DefId, BTreeSet<usize>>,
}

pub fn ibits<'tcx>(tcx: TyCtxt<'tcx>, ty: Ty<'tcx>) -> Option<(u32, bool)> {
    let _ = tcx;
    Some(match ty.kind() {
        ty::Bool => (1, false),
        ty::Char => (32, false),
        ty::Int(i) => (i.bit_width().unwrap_or(64) as u32, true),
        ty::Uint(i) => (i.bit_width().unwrap_or(64) as u32, false),
        _ => return None,
    })
}
pub fn mask(b: u32) -> u128 {
    if b >= 128 {
        u128::MAX
    } else {
        (1u128 << b) - 1
    }
}
pub fn sext(v: u128, b: u32) -> i128 {
    if b >= 128 {
        v as i128
    } else {
        ((v << (128 - b)) as i128) >> (128 - b)
    }
}

impl<'tcx> Eng<'tcx> {
    pub fn new(tcx: TyCtxt<'tcx>, models: HashMap<String, DefId>) -> Self {
        let mut m = Mgr::new(Term::Int(0), Term::Int(1));
        let uninit = m.term(Term::Uninit);
        let mut e = Eng {
            tcx,
            env: ty::TypingEnv::fully_monomorphized(),
            m,
            uninit,
            globs: vec![],
            fns: vec![],
            fidx: HashMap::new(),
            trans: HashMap::new(),
            const_memo: HashMap::new(),
            discr_memo: HashMap::new(),
            queue: BTreeMap::new(),
            moves: vec![],
            findings: vec![],
            seen: BTreeSet::new(),
            undecided: vec![],
            stats: Stats::default(),
            entered: BTreeSet::new(),
            labels: BTreeMap::new(),
            swayed: BTreeSet::new(),
            budget: 0,
            deadline: std::time::Instant::now(),
            names: HashMap::new(),
            models,
            catch_next: false,
            trace: std::env::var("FMLINT_TRACE").is_ok(),
            cover: Default::default(),
        };
        e.globs.push((tcx.types.unit, unit()));
        e
    }
    /// Forget everything that belongs to the previous obligation.
    pub fn reset(&mut self) {
        self.m = Mgr::new(Term::Int(0), Term::Int(1));
        self.uninit = self.m.term(Term::Uninit);
        self.globs.clear();
        self.globs.push((self.tcx.types.unit, unit()));
        self.const_memo.clear();
        self.queue.clear();
        self.moves.clear();
        self.findings.clear();
        self.seen.clear();
        self.undecided.clear();
        self.stats = Stats::default();
        self.entered.clear();
        self.labels.clear();
        self.swayed.clear();
        self.catch_next = false;
    }
    pub fn int(&mut self, v: u128) -> Val {
        Val::D(self.m.term(Term::Int(v)))
    }
    pub fn vbool(b: bool) -> Val {
        Val::D(if b { TRUE } else { FALSE })
    }
    pub fn vptr(&mut self, p: Ptr<'tcx>) -> Val {
        Val::D(self.m.term(Term::Ptr(p)))
    }
    pub fn top(&mut self, why: &'static str) -> Val {
        Val::D(self.m.term(Term::Top(why)))
    }
    pub fn un(&self) -> Val {
        Val::D(self.uninit)
    }
    pub fn is_un(&self, v: &Val) -> bool {
        matches!(v, Val::D(d) if *d == self.uninit)
    }
    pub fn trans(&mut self, ty: Ty<'tcx>) -> Option<(u32, Ty<'tcx>)> {
        if !matches!(ty.kind(), ty::Adt(..) | ty::Pat(..)) {
            return None;
        }
        if let Some(r) = self.trans.get(&ty) {
            return *r;
        }
        let r = transparent(self.tcx, self.env, ty);
        self.trans.insert(ty, r);
        r
    }
    pub fn rep(&mut self, mut ty: Ty<'tcx>) -> Ty<'tcx> {
        while let Some((_, t)) = self.trans(ty) {
            ty = t;
        }
        ty
    }
    pub fn norm(&self, ty: Ty<'tcx>) -> Ty<'tcx> {
        self.tcx.normalize_erasing_regions(self.env, ty::Unnormalized::new_wip(ty))
    }
    pub fn is_zst(&self, ty: Ty<'tcx>) -> bool {
        self.tcx.layout_of(self.env.as_query_input(ty)).map(|l| l.is_zst()).unwrap_or(false)
    }
    pub fn size_of(&self, ty: Ty<'tcx>) -> R<u64> {
        match self.tcx.layout_of(self.env.as_query_input(ty)) {
            Ok(l) => Ok(l.size.bytes()),
            Err(_) => und(format!("no layout for {ty}")),
        }
    }

    // ---- leaves -----------------------------------------------------------
    /// The single terminal of a leaf under the guard, or a request to fork.
    pub fn one(&mut self, d: Dd, g: Dd) -> R<Term<'tcx>> {
        let t = match self.m.as_term(d) {
            Some(t) => t.clone(),
            None => {
                let c = self.m.constrain(d, g);
                match self.m.as_term(c) {
                    Some(t) => t.clone(),
                    None => return Err(Stop::Fork(d)),
                }
            }
        };
        match t {
            Term::Top(w) => und(w),
            Term::Uninit => Err(Stop::Ub("use of an uninitialised or moved-out value".into())),
            t => Ok(t),
        }
    }
    pub fn one_int(&mut self, v: &Val, g: Dd) -> R<u128> {
        let d = self.to_d(v, g)?;
        match self.one(d, g)? {
            Term::Int(i) => Ok(i),
            t => und(format!("integer expected, found {}", tname(&t))),
        }
    }
    pub fn one_ptr(&mut self, v: &Val, g: Dd) -> R<Ptr<'tcx>> {
        let d = self.to_d(v, g)?;
        match self.one(d, g)? {
            Term::Ptr(p) => Ok(p),
            Term::Int(i) => Ok(Ptr::new(Base::Addr(i as u64))),
            Term::Fn(..) => und("function used as data pointer"),
            t => und(format!("pointer expected, found {}", tname(&t))),
        }
    }
    /// A boolean guard out of a value.
    pub fn boolean(&mut self, v: &Val, g: Dd) -> R<Dd> {
        match v {
            Val::D(d) => {
                let c = self.m.constrain(*d, g);
                for t in self.m.all_terms(c) {
                    match t {
                        Term::Int(0) | Term::Int(1) => {}
                        Term::Top(_) | Term::Uninit => {
                            if self.m.is_term(c) {
                                self.one(c, g)?;
                            }
                            return Err(Stop::Fork(*d));
                        }
                        _ => return und("boolean expected"),
                    }
                }
                Ok(c)
            }
            Val::B(b) => {
                if b.len() > 1 {
                    let z = b[1..].iter().all(|x| *x == FALSE);
                    if !z {
                        return und("wide boolean");
                    }
                }
                Ok(b.first().copied().unwrap_or(FALSE))
            }
            _ => und("boolean expected, found aggregate"),
        }
    }
    pub fn to_d(&mut self, v: &Val, g: Dd) -> R<Dd> {
        match v {
            Val::D(d) => Ok(*d),
            Val::B(b) => {
                let b = b.clone();
                let mut acc = FALSE; // Int(0)
                for (i, bit) in b.iter().enumerate() {
                    let c = self.m.constrain(*bit, g);
                    if c == FALSE {
                        continue;
                    }
                    let set = self.m.map(acc, &mut |t| match t {
                        Term::Int(x) => Term::Int(x | (1u128 << i)),
                        t => t.clone(),
                    });
                    acc = self.m.ite(c, set, acc);
                    if self.m.term_count(acc, 300) > 300 {
                        return und("integer with too many possible values");
                    }
                }
                Ok(acc)
            }
            Val::A(a) if a.len() == 1 => {
                let x = a[0].clone();
                self.to_d(&x, g)
            }
            Val::A(a) if a.is_empty() => Ok(FALSE),
            _ => und("scalar expected, found aggregate"),
        }
    }
    pub fn to_b(&mut self, v: &Val) -> R<Rc<Vec<Dd>>> {
        match v {
            Val::B(b) => Ok(b.clone()),
            Val::D(d) => {
                let mut out: Vec<Dd> = vec![];
                let mut hi = 0u32;
                for t in self.m.all_terms(*d) {
                    match t {
                        Term::Int(i) => hi = hi.max(128 - i.leading_zeros()),
                        Term::Top(w) => return und(w),
                        Term::Uninit => {}
                        _ => return und("integer expected"),
                    }
                }
                for k in 0..hi {
                    let bit = self.m.map(*d, &mut |t| match t {
                        Term::Int(i) => Term::Int((i >> k) & 1),
                        _ => Term::Int(0),
                    });
                    out.push(bit);
                }
                Ok(Rc::new(out))
            }
            _ => und("integer expected, found aggregate"),
        }
    }
    /// Keep integers with many possible values as one diagram per bit.
    pub fn tidy(&mut self, d: Dd) -> Val {
        if !self.m.is_term(d) && self.m.term_count(d, 12) > 12 {
            let all = self.m.all_terms(d);
            if all.iter().all(|t| matches!(t, Term::Int(_))) {
                if let Ok(b) = self.to_b(&Val::D(d)) {
                    return Val::B(b);
                }
            }
        }
        Val::D(d)
    }

    // ---- joins ------------------------------------------------------------
    pub fn ite_val(&mut self, g: Dd, a: &Val, b: &Val) -> Val {
        if g == TRUE {
            return a.clone();
        }
        if g == FALSE {
            return b.clone();
        }
        match (a, b) {
            (Val::D(x), Val::D(y)) => {
                if x == y {
                    return a.clone();
                }
                let d = self.m.ite(g, *x, *y);
                self.tidy(d)
            }
            (Val::B(x), Val::B(y)) => {
                if Rc::ptr_eq(x, y) {
                    return a.clone();
                }
                let n = x.len().max(y.len());
                let mut out = Vec::with_capacity(n);
                for i in 0..n {
                    let p = x.get(i).copied().unwrap_or(FALSE);
                    let q = y.get(i).copied().unwrap_or(FALSE);
                    out.push(self.m.ite(g, p, q));
                }
                Val::B(Rc::new(out))
            }
            (Val::B(x), Val::D(y)) => {
                if *y == self.uninit {
                    return a.clone();
                }
                match self.to_b(b) {
                    Ok(yb) => self.ite_val(g, &Val::B(x.clone()), &Val::B(yb)),
                    Err(_) => self.top("join of integer and non-integer"),
                }
            }
            (Val::D(x), Val::B(_)) => {
                if *x == self.uninit {
                    return b.clone();
                }
                let ng = self.m.not(g);
                self.ite_val(ng, b, a)
            }
            (Val::A(x), Val::A(y)) => {
                if Rc::ptr_eq(x, y) {
                    return a.clone();
                }
                if x.len() != y.len() {
                    return self.top("join of unlike aggregates");
                }
                let v: Vec<Val> = x.iter().zip(y.iter()).map(|(p, q)| self.ite_val(g, p, q)).collect();
                Val::A(Rc::new(v))
            }
            (Val::E(x), Val::E(y)) => {
                if Rc::ptr_eq(x, y) {
                    return a.clone();
                }
                let tag = self.m.ite(g, x.tag, y.tag);
                let mut vars = vec![];
                let mut ids: Vec<u32> = x.vars.iter().chain(y.vars.iter()).map(|v| v.0).collect();
                ids.sort();
                ids.dedup();
                for id in ids {
                    let v = match (x.var(id), y.var(id)) {
                        (Some(p), Some(q)) => {
                            // The payload of a variant only matters where the tag says so.
                            let (gx, gy) = (self.tag_is(x.tag, id), self.tag_is(y.tag, id));
                            if gx == FALSE {
                                q.clone()
                            } else if gy == FALSE {
                                p.clone()
                            } else {
                                p.iter().zip(q.iter()).map(|(r, s)| self.ite_val(g, r, s)).collect()
                            }
                        }
                        (Some(p), None) => p.clone(),
                        (None, Some(q)) => q.clone(),
                        (None, None) => continue,
                    };
                    vars.push((id, v));
                }
                Val::E(Rc::new(EnumV { tag, vars }))
            }
            (Val::D(x), o) | (o, Val::D(x)) if *x == self.uninit => {
                let gg = if matches!(a, Val::D(_)) {
                    self.m.not(g)
                } else {
                    g
                };
                self.spread(gg, o)
            }
            _ => {
                if std::env::var("FMDBG").is_ok() {
                    eprintln!("JOIN {} / {}", self.show(a), self.show(b));
                }
                self.top("join of unlike values")
            }
        }
    }
    fn show(&mut self, v: &Val) -> String {
        match v {
            Val::D(d) => format!("D{:?}", self.m.all_terms(*d)),
            Val::B(b) => format!("B{}", b.len()),
            Val::A(a) => format!("A[{}]", a.iter().map(|x| self.show(x)).collect::<Vec<_>>().join(",")),
            Val::E(e) => {
                let t = format!("{:?}", self.m.all_terms(e.tag));
                format!("E{}{{{}}}", t, e.vars.iter().map(|(i, x)| format!("{i}:{}", x.iter().map(|x| self.show(x)).collect::<Vec<_>>().join(","))).collect::<Vec<_>>().join(";"))
            }
        }
    }
    fn tag_is(&mut self, tag: Dd, id: u32) -> Dd {
        self.m.map(tag, &mut |t| match t {
            Term::Int(i) => Term::Int((*i == id as u128) as u128),
            _ => Term::Int(0),
        })
    }
    /// `o` under `g`, uninitialised elsewhere.
    fn spread(&mut self, g: Dd, o: &Val) -> Val {
        let u = self.uninit;
        match o {
            Val::D(d) => Val::D(self.m.ite(g, *d, u)),
            Val::B(_) => o.clone(),
            Val::A(a) => Val::A(Rc::new(a.iter().map(|x| self.spread(g, x)).collect())),
            Val::E(e) => {
                let tag = self.m.ite(g, e.tag, u);
                Val::E(Rc::new(EnumV { tag, vars: e.vars.clone() }))
            }
        }
    }
    /// Are two values the same wherever `g` holds?  (None: cannot tell.)
    pub fn same(&mut self, g: Dd, a: &Val, b: &Val) -> Option<bool> {
        if g == FALSE {
            return Some(true);
        }
        match (a, b) {
            (Val::D(x), Val::D(y)) => {
                let p = self.m.constrain(*x, g);
                let q = self.m.constrain(*y, g);
                Some(p == q)
            }
            (Val::A(x), Val::A(y)) => {
                if x.len() != y.len() {
                    return None;
                }
                for (p, q) in x.iter().zip(y.iter()) {
                    match self.same(g, p, q) {
                        Some(true) => {}
                        r => return r,
                    }
                }
                Some(true)
            }
            (Val::E(x), Val::E(y)) => {
                let p = self.m.constrain(x.tag, g);
                let q = self.m.constrain(y.tag, g);
                if p != q {
                    return Some(false);
                }
                let ids: Vec<u32> = x.vars.iter().map(|v| v.0).collect();
                for id in ids {
                    let t = self.tag_is(p, id);
                    let gg = self.m.and(g, t);
                    if gg == FALSE {
                        continue;
                    }
                    let (u, v) = (x.var(id).cloned().unwrap_or_default(), y.var(id).cloned().unwrap_or_default());
                    if u.len() != v.len() {
                        return None;
                    }
                    for (r, s) in u.iter().zip(v.iter()) {
                        match self.same(gg, r, s) {
                            Some(true) => {}
                            o => return o,
                        }
                    }
                }
                Some(true)
            }
            (Val::B(_), _) | (_, Val::B(_)) => {
                let p = self.to_b(a).ok()?;
                let q = self.to_b(b).ok()?;
                for i in 0..p.len().max(q.len()) {
                    let r = p.get(i).copied().unwrap_or(FALSE);
                    let s = q.get(i).copied().unwrap_or(FALSE);
                    let x = self.m.xor(r, s);
                    if self.m.and(x, g) != FALSE {
                        return Some(false);
                    }
                }
                Some(true)
            }
            _ => None,
        }
    }
    fn compatible(&self, a: &Cfg<'tcx>, b: &Cfg<'tcx>) -> bool {
        a.frames.len() == b.frames.len()
            && a.dests == b.dests
            && a.frames.iter().zip(b.frames.iter()).all(|(x, y)| {
                x.f == y.f && x.bb == y.bb && x.stmt == y.stmt && x.loops == y.loops && x.target == y.target && x.catch == y.catch
            })
    }
    fn join(&mut self, a: Cfg<'tcx>, b: Cfg<'tcx>) -> Cfg<'tcx> {
        self.stats.joins += 1;
        let sel = a.guard;
        let g = self.m.or(a.guard, b.guard);
        let mut frames = vec![];
        for (x, y) in a.frames.into_iter().zip(b.frames.into_iter()) {
            let locals = if Rc::ptr_eq(&x.locals, &y.locals) {
                x.locals.clone()
            } else {
                Rc::new(x.locals.iter().zip(y.locals.iter()).map(|(p, q)| self.ite_val(sel, p, q)).collect())
            };
            frames.push(Frame { locals, ..x });
        }
        let n = a.ghost.len().max(b.ghost.len());
        let z = Val::D(FALSE);
        let mut ghost = Vec::with_capacity(n);
        for i in 0..n {
            let p = a.ghost.get(i).unwrap_or(&z).clone();
            let q = b.ghost.get(i).unwrap_or(&z).clone();
            ghost.push(self.ite_val(sel, &p, &q));
        }
        let calls = if a.calls.len() >= b.calls.len() { a.calls } else { b.calls };
        Cfg { guard: g, frames, dests: a.dests, ghost, calls }
    }
    fn key(&self, c: &Cfg<'tcx>) -> Vec<u32> {
        let mut k = Vec::with_capacity(c.frames.len() * 4);
        for f in &c.frames {
            for (h, i) in &f.loops {
                k.push(*h);
                k.push(*i);
            }
            k.push(self.fns[f.f].rpo[f.bb.index()]);
            k.push(f.stmt as u32);
        }
        k
    }
    fn enqueue(&mut self, c: Cfg<'tcx>) {
        let k = self.key(&c);
        let mut v = self.queue.remove(&k).unwrap_or_default();
        if let Some(i) = v.iter().position(|o| self.compatible(o, &c)) {
            let o = v.remove(i);
            let j = self.join(o, c);
            v.push(j);
        } else {
            v.push(c);
        }
        self.queue.insert(k, v);
    }

    // ---- functions --------------------------------------------------------
    pub fn fn_body(&mut self, inst: Instance<'tcx>) -> R<usize> {
        if let Some(&i) = self.fidx.get(&inst) {
            return Ok(i);
        }
        let tcx = self.tcx;
        if let InstanceKind::Item(def) = inst.def {
            if !tcx.is_mir_available(def) {
                return und(format!("no MIR for {}", tcx.def_path_str(def)));
            }
        }
        let raw = tcx.instance_mir(inst.def).clone();
        let body = match inst.try_instantiate_mir_and_normalize_erasing_regions(tcx, self.env, ty::EarlyBinder::bind(tcx, raw)) {
            Ok(b) => b,
            Err(_) => return und(format!("cannot monomorphise {}", tcx.def_path_str(inst.def_id()))),
        };
        let n = body.basic_blocks.len();
        let mut rpo = vec![u32::MAX; n];
        for (i, (bb, _)) in mir::traversal::reverse_postorder(&body).enumerate() {
            rpo[bb.index()] = i as u32;
        }
        let mut loops: Vec<Vec<u32>> = vec![vec![]; n];
        let dom = body.basic_blocks.dominators();
        let preds = body.basic_blocks.predecessors();
        let mut heads: BTreeMap<u32, BTreeSet<usize>> = BTreeMap::new();
        for (bb, data) in body.basic_blocks.iter_enumerated() {
            if rpo[bb.index()] == u32::MAX {
                continue;
            }
            for s in data.terminator().successors() {
                if dom.dominates(s, bb) {
                    let set = heads.entry(rpo[s.index()]).or_default();
                    set.insert(s.index());
                    let mut st = vec![bb];
                    while let Some(x) = st.pop() {
                        if set.insert(x.index()) {
                            for p in &preds[x] {
                                if rpo[p.index()] != u32::MAX {
                                    st.push(*p);
                                }
                            }
                        }
                    }
                }
            }
        }
        for (h, set) in &heads {
            for b in set {
                loops[*b].push(*h);
            }
        }
        drop(dom);
        let def = inst.def_id();
        let krate = tcx.crate_name(def.krate);
        let sp = tcx.def_span(def);
        let sm = tcx.sess.source_map();
        let derived = def.is_local() && sp.from_expansion() && is_key_derive(tcx, sp);
        let is_repo = krate.as_str() == "fixed_map" || derived;
        let sp2 = if derived { sp.source_callsite() } else { sp };
        let lo = sm.lookup_char_pos(sp2.lo());
        let file = format!("{}", lo.file.name.prefer_local_unconditionally());
        let loc = format!("{}:{}{}", file, lo.line, if derived { " (generated by derive(Key))" } else { "" });
        let name = rustc_middle::ty::print::with_no_trimmed_paths!(format!("{}", inst));
        let fb = FnBody { inst, body, rpo, loops, is_repo, name, loc };
        self.fns.push(Rc::new(fb));
        self.fidx.insert(inst, self.fns.len() - 1);
        Ok(self.fns.len() - 1)
    }
    pub fn push_frame(&mut self, c: &mut Cfg<'tcx>, inst: Instance<'tcx>, args: Vec<Val>, dest: Option<PlaceR<'tcx>>, target: Option<BasicBlock>) -> R<()> {
        if c.frames.len() > 200 {
            return und("call stack deeper than 200");
        }
        let f = self.fn_body(inst)?;
        self.entered.insert(f);
        let fb = self.fns[f].clone();
        let mut args = args;
        if let Some(l) = fb.body.spread_arg {
            let k = l.index() - 1;
            if args.len() < k {
                return und("spread argument mismatch");
            }
            let rest = args.split_off(k);
            args.push(Val::A(Rc::new(rest)));
        }
        if args.len() != fb.body.arg_count {
            return und(format!("argument count mismatch calling {} ({} for {})", fb.name, args.len(), fb.body.arg_count));
        }
        let mut locals = vec![self.un(); fb.body.local_decls.len()];
        for (i, a) in args.into_iter().enumerate() {
            locals[i + 1] = a;
        }
        if fb.is_repo {
            let mut v = (*c.calls).clone();
            if v.last() != Some(&f) {
                if v.len() >= 24 {
                    v.remove(0);
                }
                v.push(f);
                c.calls = Rc::new(v);
            }
        }
        let loops = fb.loops[0].iter().map(|h| (*h, 0)).collect();
        let catch = std::mem::replace(&mut self.catch_next, false);
        c.frames.push(Frame { f, bb: START_BLOCK, stmt: 0, loops, locals: Rc::new(locals), dest: None, target, catch });
        c.dests.push(Dest { place: dest });
        Ok(())
    }
    fn goto(&mut self, c: &mut Cfg<'tcx>, bb: BasicBlock) {
        let fr = c.frames.last_mut().unwrap();
        let fb = &self.fns[fr.f];
        let cur = &fr.loops;
        let mut nl: Vec<(u32, u32)> = vec![];
        let h_of_bb = fb.rpo[bb.index()];
        for h in &fb.loops[bb.index()] {
            match cur.iter().find(|x| x.0 == *h) {
                Some(x) if *h == h_of_bb => nl.push((*h, x.1 + 1)),
                Some(x) => nl.push(*x),
                None => nl.push((*h, 0)),
            }
        }
        fr.loops = nl;
        fr.bb = bb;
        fr.stmt = 0;
    }

    // ---- memory -----------------------------------------------------------
    fn root<'a>(&'a self, c: &'a Cfg<'tcx>, b: Base) -> R<(&'a Val, Ty<'tcx>)> {
        match b {
            Base::Loc(d, l) => {
                let Some(fr) = c.frames.get(d as usize) else {
                    return Err(Stop::Ub("access through a dangling pointer (frame is gone)".into()));
                };
                Ok((&fr.locals[l as usize], self.fns[fr.f].body.local_decls[Local::from_u32(l)].ty))
            }
            Base::Glob(i) => Ok((&self.globs[i as usize].1, self.globs[i as usize].0)),
            Base::Addr(_) => Err(Stop::Ub("access through a dangling pointer".into())),
        }
    }
    pub fn field_ty(&mut self, ty: Ty<'tcx>, p: Proj) -> R<Ty<'tcx>> {
        let ty = self.rep(ty);
        let tcx = self.tcx;
        let t = match (p, ty.kind()) {
            (Proj::F(i), ty::Adt(def, args)) if def.is_struct() => {
                let f = &def.non_enum_variant().fields[FieldIdx::from_u32(i)];
                tcx.normalize_erasing_regions(self.env, f.ty(tcx, args))
            }
            (Proj::F(i), ty::Tuple(l)) => l[i as usize],
            (Proj::F(i), ty::Closure(_, args)) => args.as_closure().upvar_tys()[i as usize],
            (Proj::V(v, i), ty::Adt(def, args)) if def.is_enum() => {
                let f = &def.variants()[VariantIdx::from_u32(v)].fields[FieldIdx::from_u32(i)];
                tcx.normalize_erasing_regions(self.env, f.ty(tcx, args))
            }
            (Proj::I(_), ty::Array(t, _)) | (Proj::I(_), ty::Slice(t)) => *t,
            (Proj::I(_), ty::Str) => tcx.types.u8,
            _ => return und(format!("projection {p:?} of {ty}")),
        };
        Ok(t)
    }
    pub fn array_len(&mut self, n: ty::Const<'tcx>) -> R<u64> {
        match n.try_to_target_usize(self.tcx) {
            Some(n) => Ok(n),
            None => und("array length"),
        }
    }
    pub fn field_count(&mut self, ty: Ty<'tcx>) -> R<usize> {
        Ok(match ty.kind() {
            ty::Adt(def, _) if def.is_struct() => def.non_enum_variant().fields.len(),
            ty::Tuple(l) => l.len(),
            ty::Closure(_, args) => args.as_closure().upvar_tys().len(),
            ty::Array(_, n) => self.array_len(*n)? as usize,
            _ => return und(format!("no fields in {ty}")),
        })
    }
    pub fn zst_val(&mut self, ty: Ty<'tcx>) -> R<Val> {
        let ty = self.rep(ty);
        Ok(match ty.kind() {
            ty::Adt(def, _) if def.is_enum() => {
                if def.variants().is_empty() {
                    self.un()
                } else {
                    let l = match self.tcx.layout_of(self.env.as_query_input(ty)) {
                        Ok(l) => l,
                        Err(_) => return und("layout"),
                    };
                    let v = match l.variants {
                        rustc_abi::Variants::Single { index } => index.as_u32(),
                        _ => 0,
                    };
                    let n = def.variants()[VariantIdx::from_u32(v)].fields.len();
                    let mut fs = vec![];
                    for i in 0..n {
                        let t = self.field_ty(ty, Proj::V(v, i as u32))?;
                        fs.push(self.zst_val(t)?);
                    }
                    let tag = self.m.term(Term::Int(v as u128));
                    Val::E(Rc::new(EnumV { tag, vars: if n > 0 { vec![(v, fs)] } else { vec![] } }))
                }
            }
            ty::FnDef(..) | ty::Never => unit(),
            ty::Adt(..) | ty::Tuple(_) | ty::Closure(..) => {
                let n = self.field_count(ty)?;
                let mut fs = vec![];
                for i in 0..n {
                    let t = self.field_ty(ty, Proj::F(i as u32))?;
                    fs.push(self.zst_val(t)?);
                }
                Val::A(Rc::new(fs))
            }
            ty::Array(t, n) => {
                let n = self.array_len(*n)? as usize;
                let e = if n == 0 { unit() } else { self.zst_val(*t)? };
                Val::A(Rc::new(vec![e; n]))
            }
            _ => unit(),
        })
    }
    pub fn load(&mut self, c: &Cfg<'tcx>, p: &PlaceR<'tcx>) -> R<Val> {
        if let Base::Addr(_) = p.ptr.base {
            if self.is_zst(p.ty) {
                return self.zst_val(p.ty);
            }
        }
        if p.ptr.off != 0 {
            if self.is_zst(p.ty) {
                return self.zst_val(p.ty);
            }
            return Err(Stop::Ub("access past the end of an object".into()));
        }
        if p.ptr.cast {
            let t = self.type_at(c, &p.ptr)?;
            let (a, b) = (self.rep(t), self.rep(p.ty));
            if a != b {
                let v = self.load_raw(c, &p.ptr)?;
                return self.transmute(c.guard, v, a, b);
            }
        }
        let v = self.load_raw(c, &p.ptr)?;
        if self.is_un(&v) && self.is_zst(p.ty) {
            // The optimiser drops assignments of zero-sized values.
            return self.zst_val(p.ty);
        }
        Ok(v)
    }
    pub fn type_at(&mut self, c: &Cfg<'tcx>, p: &Ptr<'tcx>) -> R<Ty<'tcx>> {
        let (_, mut ty) = self.root(c, p.base)?;
        for pr in p.path.iter() {
            ty = self.field_ty(ty, *pr)?;
        }
        Ok(ty)
    }
    fn load_raw(&mut self, c: &Cfg<'tcx>, p: &Ptr<'tcx>) -> R<Val> {
        let (root, _) = self.root(c, p.base)?;
        let mut v = root;
        for pr in p.path.iter() {
            v = match (v, pr) {
                (Val::A(a), Proj::F(i)) => match a.get(*i as usize) {
                    Some(x) => x,
                    None => return und("field out of shape"),
                },
                (Val::A(a), Proj::I(i)) => match a.get(*i as usize) {
                    Some(x) => x,
                    None => return Err(Stop::Ub(format!("element {} of an array of {}", i, a.len()))),
                },
                (Val::E(e), Proj::V(v, i)) => match e.var(*v).and_then(|x| x.get(*i as usize)) {
                    Some(x) => x,
                    None => {
                        return Ok(self.un());
                    }
                },
                (Val::D(d), _) => {
                    let d = *d;
                    let k = self.m.constrain(d, c.guard);
                    if k == self.uninit {
                        return Ok(self.un());
                    }
                    if let Some(Term::Top(w)) = self.m.as_term(k).cloned() {
                        return Ok(self.top(w));
                    }
                    return und("projection of a scalar");
                }
                _ => return und("projection does not fit the value"),
            };
        }
        Ok(v.clone())
    }
    pub fn store(&mut self, c: &mut Cfg<'tcx>, p: &PlaceR<'tcx>, v: Val) -> R<()> {
        if p.ptr.off != 0 || matches!(p.ptr.base, Base::Addr(_)) {
            if self.is_zst(p.ty) {
                return Ok(());
            }
            return Err(Stop::Ub("write through a dangling pointer".into()));
        }
        let mut v = v;
        if p.ptr.cast {
            let t = self.type_at(c, &p.ptr)?;
            let (a, b) = (self.rep(t), self.rep(p.ty));
            if a != b {
                v = self.transmute(c.guard, v, b, a)?;
            }
        }
        let (d, l) = match p.ptr.base {
            Base::Loc(d, l) => (d as usize, l as usize),
            _ => {
                if self.is_zst(p.ty) {
                    return Ok(());
                }
                return Err(Stop::Ub("write to constant memory".into()));
            }
        };
        if d >= c.frames.len() {
            return Err(Stop::Ub("write through a dangling pointer (frame is gone)".into()));
        }
        if p.ptr.path.is_empty() {
            Rc::make_mut(&mut c.frames[d].locals)[l] = v;
            return Ok(());
        }
        let ty = self.fns[c.frames[d].f].body.local_decls[Local::from_usize(l)].ty;
        let mut locals = std::mem::replace(&mut c.frames[d].locals, Rc::new(vec![]));
        let slot = &mut Rc::make_mut(&mut locals)[l];
        let r = self.set_path(slot, ty, &p.ptr.path, v, c.guard);
        c.frames[d].locals = locals;
        r
    }
    fn set_path(&mut self, slot: &mut Val, ty: Ty<'tcx>, path: &[Proj], v: Val, g: Dd) -> R<()> {
        if path.is_empty() {
            *slot = v;
            return Ok(());
        }
        let ty = self.rep(ty);
        if let Val::D(d) = slot {
            let k = self.m.constrain(*d, g);
            if k == self.uninit {
                match ty.kind() {
                    ty::Adt(def, _) if def.is_enum() => {
                        *slot = Val::E(Rc::new(EnumV { tag: self.uninit, vars: vec![] }));
                    }
                    _ => {
                        let n = self.field_count(ty)?;
                        *slot = Val::A(Rc::new(vec![self.un(); n]));
                    }
                }
            } else if let Some(Term::Top(w)) = self.m.as_term(k).cloned() {
                return und(w);
            } else {
                return und("write into a scalar");
            }
        }
        let sub = self.field_ty(ty, path[0])?;
        match (slot, path[0]) {
            (Val::A(a), Proj::F(i)) => {
                let a = Rc::make_mut(a);
                match a.get_mut(i as usize) {
                    Some(s) => self.set_path(s, sub, &path[1..], v, g),
                    None => und("field out of shape"),
                }
            }
            (Val::A(a), Proj::I(i)) => {
                let n = a.len();
                let a = Rc::make_mut(a);
                match a.get_mut(i as usize) {
                    Some(s) => self.set_path(s, sub, &path[1..], v, g),
                    None => Err(Stop::Ub(format!("write to element {} of an array of {}", i, n))),
                }
            }
            (Val::E(e), Proj::V(var, i)) => {
                let e = Rc::make_mut(e);
                let nf = match ty.kind() {
                    ty::Adt(def, _) => def.variants()[VariantIdx::from_u32(var)].fields.len(),
                    _ => return und("variant of non-enum"),
                };
                let u = Val::D(self.uninit);
                let vs = e.var_mut(var);
                while vs.len() < nf {
                    vs.push(u.clone());
                }
                self.set_path(&mut vs[i as usize], sub, &path[1..], v, g)
            }
            _ => und("write does not fit the value"),
        }
    }
    pub fn pointee(&self, ty: Ty<'tcx>) -> R<Ty<'tcx>> {
        match ty.builtin_deref(true) {
            Some(t) => Ok(t),
            None => und(format!("deref of {ty}")),
        }
    }
    pub fn place(&mut self, c: &Cfg<'tcx>, pl: &Place<'tcx>) -> R<PlaceR<'tcx>> {
        let depth = c.frames.len() - 1;
        let fr = &c.frames[depth];
        let fb = self.fns[fr.f].clone();
        let mut cur = PlaceR {
            ptr: Ptr::new(Base::Loc(depth as u32, pl.local.as_u32())),
            ty: fb.body.local_decls[pl.local].ty,
            variant: None,
        };
        for el in pl.projection.iter() {
            match el {
                ProjectionElem::Deref | ProjectionElem::PhantomDeref => {
                    let t = self.rep(cur.ty);
                    let v = self.load(c, &cur)?;
                    let p = self.one_ptr(&v, c.guard)?;
                    cur = PlaceR { ptr: p, ty: self.pointee(t)?, variant: None };
                }
                ProjectionElem::Field(i, fty) => {
                    let i = i.as_u32();
                    if cur.variant.is_none() {
                        if let Some((k, t)) = self.trans(cur.ty) {
                            if k == i {
                                cur.ty = t;
                            } else {
                                cur = PlaceR { ptr: Ptr::new(Base::Glob(0)), ty: fty, variant: None };
                            }
                            continue;
                        }
                    }
                    let pr = match cur.variant {
                        Some(v) => Proj::V(v, i),
                        None => Proj::F(i),
                    };
                    let mut p = cur.ptr.push(pr);
                    match fty.kind() {
                        ty::Slice(_) | ty::Str => p = p.push(Proj::I(0)),
                        _ => {
                            if !matches!(p.meta, Meta::None) && fty.is_sized(self.tcx, self.env) {
                                p = p.thin();
                            }
                        }
                    }
                    cur = PlaceR { ptr: p, ty: fty, variant: None };
                }
                ProjectionElem::Index(l) => {
                    let iv = self.load(c, &PlaceR { ptr: Ptr::new(Base::Loc(depth as u32, l.as_u32())), ty: self.tcx.types.usize, variant: None })?;
                    let i = self.one_int(&iv, c.guard)? as u64;
                    cur = self.index(cur, i)?;
                }
                ProjectionElem::ConstantIndex { offset, min_length: _, from_end } => {
                    let n = self.len_of(&cur)?;
                    let i = if from_end { n - offset } else { offset };
                    cur = self.index(cur, i)?;
                }
                ProjectionElem::Subslice { from, to, from_end } => {
                    let n = self.len_of(&cur)?;
                    let t = self.rep(cur.ty);
                    if !matches!(t.kind(), ty::Slice(_)) {
                        return und("subslice of array");
                    }
                    let end = if from_end { n - to } else { to };
                    let p = cur.ptr.add(from as i64).with_meta(Meta::Len(end - from));
                    cur.ptr = p;
                }
                ProjectionElem::Downcast(_, v) => cur.variant = Some(v.as_u32()),
                ProjectionElem::OpaqueCast(t) | ProjectionElem::UnwrapUnsafeBinder(t) => cur.ty = t,
            }
        }
        Ok(cur)
    }
    pub fn len_of(&mut self, p: &PlaceR<'tcx>) -> R<u64> {
        let t = self.rep(p.ty);
        match t.kind() {
            ty::Array(_, n) => self.array_len(*n),
            _ => match p.ptr.meta {
                Meta::Len(n) => Ok(n),
                _ => und("length of unsized place"),
            },
        }
    }
    pub fn index(&mut self, cur: PlaceR<'tcx>, i: u64) -> R<PlaceR<'tcx>> {
        let t = self.rep(cur.ty);
        let n = self.len_of(&cur)?;
        if i >= n {
            return Err(Stop::Ub(format!("index {i} out of bounds of {n}")));
        }
        match t.kind() {
            ty::Array(e, _) => Ok(PlaceR { ptr: cur.ptr.push(Proj::I(i)), ty: *e, variant: None }),
            ty::Slice(e) => Ok(PlaceR { ptr: cur.ptr.add(i as i64).thin(), ty: *e, variant: None }),
            ty::Str => Ok(PlaceR { ptr: cur.ptr.add(i as i64).thin(), ty: self.tcx.types.u8, variant: None }),
            _ => und("index of non-array"),
        }
    }

    // ---- constants --------------------------------------------------------
    pub fn constant(&mut self, k: &ConstOperand<'tcx>) -> R<Val> {
        let ty = k.const_.ty();
        if matches!(ty.kind(), ty::FnDef(..)) {
            return Ok(unit());
        }
        match k.const_.eval(self.tcx, self.env, k.span) {
            Ok(cv) => self.decode(cv, ty),
            Err(_) => Ok(self.top("constant that cannot be evaluated")),
        }
    }
    pub fn decode(&mut self, cv: ConstValue, ty: Ty<'tcx>) -> R<Val> {
        if let ConstValue::Indirect { alloc_id, offset } = cv {
            let size = self.size_of(ty)?;
            if size > 0 {
                let alloc = self.tcx.global_alloc(alloc_id).unwrap_memory();
                let range: mir::interpret::AllocRange = mir::interpret::AllocRange { start: offset, size: rustc_abi::Size::from_bytes(size) };
                if alloc.inner().init_mask().range_as_init_chunks(range.into()).all(|k| !k.is_init()) {
                    return Ok(self.un());
                }
            }
        }
        if let Some((i, t)) = self.trans(ty) {
            // a transparent wrapper: decode its payload
            if let ty::Adt(def, _) = ty.kind() {
                if def.is_union() {
                    return match cv {
                        ConstValue::ZeroSized => self.zst_val(t),
                        _ => self.decode(cv, t).or_else(|_| Ok(self.top("union constant"))),
                    };
                }
                match cv {
                    ConstValue::ZeroSized => return self.zst_val(t),
                    ConstValue::Scalar(_) => return self.decode(cv, t),
                    ConstValue::Indirect { .. } | ConstValue::Slice { .. } => return self.decode(cv, t),
                }
            }
            let _ = i;
            return self.decode(cv, t);
        }
        match ty.kind() {
            ty::Bool | ty::Char | ty::Int(_) | ty::Uint(_) => match cv.try_to_bits_for_ty(self.tcx, self.env, ty) {
                Some(b) => Ok(self.int(b)),
                None => self.decode_mem(cv, ty),
            },
            ty::Float(_) => Ok(self.top("float")),
            ty::FnDef(..) | ty::Never => Ok(unit()),
            ty::RawPtr(t, _) | ty::Ref(_, t, _) => self.decode_ptr(cv, *t),
            ty::FnPtr(..) => {
                if let ConstValue::Scalar(mir::interpret::Scalar::Ptr(p, _)) = cv {
                    let id = p.provenance.alloc_id();
                    if let mir::interpret::GlobalAlloc::Function { instance } = self.tcx.global_alloc(id) {
                        return Ok(Val::D(self.m.term(Term::Fn(instance, false))));
                    }
                }
                Ok(self.top("function pointer constant"))
            }
            ty::Adt(..) | ty::Tuple(_) | ty::Array(..) | ty::Closure(..) => {
                if let ConstValue::ZeroSized = cv {
                    return self.zst_val(ty);
                }
                if let ty::Closure(..) = ty.kind() {
                    return Ok(self.top("closure constant"));
                }
                let Some(ds) = self.tcx.try_destructure_mir_constant_for_user_output(cv, ty) else {
                    return Ok(self.top("constant that cannot be destructured"));
                };
                let mut fs = vec![];
                for (v, t) in ds.fields {
                    fs.push(self.decode(*v, *t)?);
                }
                if ty.is_enum() {
                    let v = ds.variant.map(|v| v.as_u32()).unwrap_or(0);
                    let tag = self.m.term(Term::Int(v as u128));
                    Ok(Val::E(Rc::new(EnumV { tag, vars: if fs.is_empty() { vec![] } else { vec![(v, fs)] } })))
                } else {
                    Ok(Val::A(Rc::new(fs)))
                }
            }
            _ => Ok(self.top("constant of unsupported type")),
        }
    }
    fn decode_mem(&mut self, cv: ConstValue, ty: Ty<'tcx>) -> R<Val> {
        if let ConstValue::Indirect { alloc_id, offset } = cv {
            let alloc = self.tcx.global_alloc(alloc_id).unwrap_memory();
            let size = rustc_abi::Size::from_bytes(self.size_of(ty)?);
            if let Ok(s) = alloc.inner().read_scalar(&self.tcx, mir::interpret::AllocRange { start: offset, size }, false) {
                if let mir::interpret::Scalar::Int(i) = s {
                    return Ok(self.int(i.to_bits(size)));
                }
            }
        }
        Ok(self.top("constant integer"))
    }
    fn decode_ptr(&mut self, cv: ConstValue, pointee: Ty<'tcx>) -> R<Val> {
        use mir::interpret::{GlobalAlloc, Scalar};
        let (id, off, meta) = match cv {
            ConstValue::Scalar(Scalar::Ptr(p, _)) => {
                let (prov, off) = p.into_raw_parts();
                (prov.alloc_id(), off.bytes(), None)
            }
            ConstValue::Scalar(Scalar::Int(i)) => {
                let a = i.to_bits(i.size()) as u64;
                return Ok(self.vptr(Ptr::new(Base::Addr(a))));
            }
            ConstValue::Slice { alloc_id, meta } => (alloc_id, 0, Some(meta)),
            ConstValue::Indirect { alloc_id, offset } => {
                let alloc = self.tcx.global_alloc(alloc_id).unwrap_memory();
                let ps = self.tcx.data_layout.pointer_size();
                let p = match alloc.inner().read_scalar(&self.tcx, mir::interpret::AllocRange { start: offset, size: ps }, true) {
                    Ok(Scalar::Ptr(p, _)) => p,
                    Ok(Scalar::Int(i)) => {
                        let a = i.to_bits(i.size()) as u64;
                        return Ok(self.vptr(Ptr::new(Base::Addr(a))));
                    }
                    _ => return Ok(self.top("constant pointer")),
                };
                let (prov, off) = p.into_raw_parts();
                let meta = if pointee.is_slice() || pointee.is_str() {
                    match alloc.inner().read_scalar(&self.tcx, mir::interpret::AllocRange { start: offset + ps, size: ps }, false) {
                        Ok(Scalar::Int(i)) => Some(i.to_bits(i.size()) as u64),
                        _ => return Ok(self.top("constant wide pointer")),
                    }
                } else if !pointee.is_sized(self.tcx, self.env) {
                    return Ok(self.top("constant trait object"));
                } else {
                    None
                };
                (prov.alloc_id(), off.bytes(), meta)
            }
            _ => return Ok(self.top("constant pointer")),
        };
        match self.tcx.global_alloc(id) {
            GlobalAlloc::Memory(_) => {}
            GlobalAlloc::Static(_) => return Ok(self.top("pointer to a static")),
            _ => return Ok(self.top("pointer to a function or vtable")),
        }
        let prep = self.rep(pointee);
        let (gty, m) = match prep.kind() {
            ty::Slice(e) => (Ty::new_array(self.tcx, *e, meta.unwrap_or(0)), Meta::Len(meta.unwrap_or(0))),
            ty::Str => (Ty::new_array(self.tcx, self.tcx.types.u8, meta.unwrap_or(0)), Meta::Len(meta.unwrap_or(0))),
            _ => (pointee, Meta::None),
        };
        let gi = match self.const_memo.get(&(id, off, gty)) {
            Some(g) => *g,
            None => {
                let v = if self.is_zst(gty) {
                    self.zst_val(gty)?
                } else {
                    self.decode(ConstValue::Indirect { alloc_id: id, offset: rustc_abi::Size::from_bytes(off) }, gty)?
                };
                self.globs.push((gty, v));
                let g = (self.globs.len() - 1) as u32;
                self.const_memo.insert((id, off, gty), g);
                g
            }
        };
        let mut p = Ptr::new(Base::Glob(gi)).with_meta(m);
        if !matches!(m, Meta::None) {
            p = p.push(Proj::I(0));
        }
        Ok(self.vptr(p))
    }

    // ---- operands and rvalues --------------------------------------------
    pub fn operand(&mut self, c: &Cfg<'tcx>, op: &Operand<'tcx>) -> R<Val> {
        match op {
            Operand::Copy(p) => {
                let p = self.place(c, p)?;
                self.load(c, &p)
            }
            Operand::Move(pl) => {
                let p = self.place(c, pl)?;
                let v = self.load(c, &p)?;
                if matches!(p.ptr.base, Base::Loc(..)) && !pl.is_indirect() {
                    self.moves.push(p);
                }
                Ok(v)
            }
            Operand::Constant(k) => self.constant(k),
            Operand::RuntimeChecks(k) => Ok(Self::vbool(matches!(k, RuntimeChecks::OverflowChecks))),
        }
    }
    fn op_ty(&self, c: &Cfg<'tcx>, op: &Operand<'tcx>) -> Ty<'tcx> {
        let fr = c.frames.last().unwrap();
        op.ty(&self.fns[fr.f].body.local_decls, self.tcx)
    }
    fn rvalue(&mut self, c: &mut Cfg<'tcx>, rv: &Rvalue<'tcx>, dty: Ty<'tcx>) -> R<Val> {
        let g = c.guard;
        match rv {
            Rvalue::Use(op, _) => self.operand(c, op),
            Rvalue::Repeat(op, n) => {
                let v = self.operand(c, op)?;
                let n = self.array_len(*n)?;
                if n > 4096 {
                    return und("array too long");
                }
                Ok(Val::A(Rc::new(vec![v; n as usize])))
            }
            Rvalue::Ref(_, _, p) | Rvalue::RawPtr(_, p) | Rvalue::Reborrow(_, _, p) => {
                let p = self.place(c, p)?;
                Ok(self.vptr(p.ptr))
            }
            Rvalue::ThreadLocalRef(_) => und("thread local"),
            Rvalue::CopyForDeref(p) => {
                let p = self.place(c, p)?;
                self.load(c, &p)
            }
            Rvalue::WrapUnsafeBinder(..) => und("unsafe binder"),
            Rvalue::Cast(kind, op, to) => {
                let from = self.op_ty(c, op);
                let v = self.operand(c, op)?;
                self.cast(g, *kind, v, from, *to)
            }
            Rvalue::BinaryOp(op, ab) => {
                let (ta, tb) = (self.op_ty(c, &ab.0), self.op_ty(c, &ab.1));
                let a = self.operand(c, &ab.0)?;
                let b = self.operand(c, &ab.1)?;
                self.binop(g, *op, a, b, ta, tb)
            }
            Rvalue::UnaryOp(op, x) => {
                let t = self.op_ty(c, x);
                let v = self.operand(c, x)?;
                self.unop(g, *op, v, t)
            }
            Rvalue::Discriminant(p) => {
                let p = self.place(c, p)?;
                let v = self.load(c, &p)?;
                self.discriminant(g, &v, p.ty)
            }
            Rvalue::Aggregate(k, ops) => {
                let mut vs = vec![];
                for o in ops.iter() {
                    vs.push(self.operand(c, o)?);
                }
                match &**k {
                    AggregateKind::Array(_) | AggregateKind::Tuple | AggregateKind::Closure(..) => Ok(Val::A(Rc::new(vs))),
                    AggregateKind::Adt(def, variant, _, _, active) => {
                        let adt = self.tcx.adt_def(*def);
                        if adt.is_enum() {
                            let tag = self.m.term(Term::Int(variant.as_u32() as u128));
                            return Ok(Val::E(Rc::new(EnumV { tag, vars: if vs.is_empty() { vec![] } else { vec![(variant.as_u32(), vs)] } })));
                        }
                        if let Some((i, _)) = self.trans(dty) {
                            if adt.is_union() {
                                let a = active.map(|f| f.as_u32()).unwrap_or(0);
                                return Ok(if a == i { vs.pop().unwrap() } else { self.un() });
                            }
                            return Ok(vs.swap_remove(i as usize));
                        }
                        if adt.is_union() {
                            return Ok(self.top("union"));
                        }
                        Ok(Val::A(Rc::new(vs)))
                    }
                    AggregateKind::RawPtr(t, _) => {
                        let p = self.one_ptr(&vs[0], g)?;
                        let tr = self.rep(*t);
                        match tr.kind() {
                            ty::Slice(_) | ty::Str => {
                                let n = self.one_int(&vs[1], g)?;
                                Ok(self.vptr(p.with_meta(Meta::Len(n as u64))))
                            }
                            _ => {
                                if t.is_sized(self.tcx, self.env) {
                                    Ok(self.vptr(p))
                                } else {
                                    und("aggregate wide pointer")
                                }
                            }
                        }
                    }
                    _ => und("coroutine"),
                }
            }
        }
    }
    pub fn discr_table(&mut self, ty: Ty<'tcx>) -> Option<Rc<Vec<u128>>> {
        if let Some(r) = self.discr_memo.get(&ty) {
            return Some(r.clone());
        }
        let ty::Adt(def, _) = ty.kind() else { return None };
        if !def.is_enum() {
            return None;
        }
        let dt = ty.discriminant_ty(self.tcx);
        let (b, _) = ibits(self.tcx, dt)?;
        let v: Vec<u128> = def.discriminants(self.tcx).map(|(_, d)| d.val & mask(b)).collect();
        let r = Rc::new(v);
        self.discr_memo.insert(ty, r.clone());
        Some(r)
    }
    pub fn discriminant(&mut self, _g: Dd, v: &Val, ty: Ty<'tcx>) -> R<Val> {
        let ty = self.rep(ty);
        if let Ok(l) = self.tcx.layout_of(self.env.as_query_input(ty)) {
            if let (rustc_abi::Variants::Single { index }, true) = (&l.variants, ty.is_enum()) {
                if let Some(tab) = self.discr_table(ty) {
                    if let Some(d) = tab.get(index.as_usize()) {
                        let d = *d;
                        return Ok(self.int(d));
                    }
                }
            }
        }
        match v {
            Val::E(e) => {
                let Some(tab) = self.discr_table(ty) else { return und("discriminant") };
                let tag = e.tag;
                if let Some(Term::Uninit) = self.m.as_term(tag) {
                    return Err(Stop::Ub("discriminant of an uninitialised or moved-out value".into()));
                }
                Ok(Val::D(self.m.map(tag, &mut |t| match t {
                    Term::Int(i) => Term::Int(tab[*i as usize]),
                    t => t.clone(),
                })))
            }
            Val::D(d) if !matches!(ty.kind(), ty::Adt(..)) => {
                let _ = d;
                Ok(Val::D(FALSE))
            }
            Val::D(d) if *d == self.uninit => Err(Stop::Ub("discriminant of an uninitialised or moved-out value".into())),
            Val::D(d) => Ok(Val::D(*d)),
            _ => Ok(Val::D(FALSE)),
        }
    }
    fn cast(&mut self, g: Dd, kind: CastKind, v: Val, from: Ty<'tcx>, to: Ty<'tcx>) -> R<Val> {
        match kind {
            CastKind::IntToInt => {
                let (fb, fs) = match ibits(self.tcx, from) {
                    Some(x) => x,
                    None => {
                        // C-like enum
                        let dt = from.discriminant_ty(self.tcx);
                        match ibits(self.tcx, dt) {
                            Some(x) => x,
                            None => return und("int cast"),
                        }
                    }
                };
                let v = if from.is_enum() { self.discriminant(g, &v, from)? } else { v };
                let Some((tb, _)) = ibits(self.tcx, to) else { return und("int cast") };
                self.int_cast(v, fb, fs, tb)
            }
            CastKind::PtrToPtr => self.ptr_cast(v, from, to),
            CastKind::Transmute | CastKind::BoxDerefTransmute => self.transmute(g, v, from, to),
            CastKind::Subtype => Ok(v),
            CastKind::PointerCoercion(pc, _) => {
                use ty::adjustment::PointerCoercion as PC;
                match pc {
                    PC::MutToConstPointer | PC::UnsafeFnPointer => Ok(v),
                    PC::ArrayToPointer => {
                        let d = self.to_d(&v, g)?;
                        Ok(Val::D(self.m.map(d, &mut |t| match t {
                            Term::Ptr(p) => Term::Ptr(p.push(Proj::I(0))),
                            t => t.clone(),
                        })))
                    }
                    PC::ReifyFnPointer(_) => {
                        let ty::FnDef(def, args) = from.kind() else { return und("reify") };
                        let args = args.no_bound_vars().unwrap();
                        match Instance::resolve_for_fn_ptr(self.tcx, self.env, *def, args) {
                            Some(i) => Ok(Val::D(self.m.term(Term::Fn(i, false)))),
                            None => und("reify"),
                        }
                    }
                    PC::ClosureFnPointer(_) => {
                        let ty::Closure(def, args) = from.kind() else { return und("closure pointer") };
                        let i = Instance::resolve_closure(self.tcx, *def, args, ty::ClosureKind::FnOnce);
                        Ok(Val::D(self.m.term(Term::Fn(i, true))))
                    }
                    PC::Unsize => self.unsize(v, from, to),
                }
            }
            CastKind::FnPtrToPtr => Ok(self.top("function pointer cast")),
            CastKind::PointerExposeProvenance | CastKind::PointerWithExposedProvenance => Ok(self.top("pointer-integer cast")),
            _ => Ok(self.top("float cast")),
        }
    }
    pub fn int_cast(&mut self, v: Val, fb: u32, fs: bool, tb: u32) -> R<Val> {
        match v {
            Val::D(d) => {
                let r = self.m.map(d, &mut |t| match t {
                    Term::Int(i) => Term::Int(if fs { (sext(*i, fb) as u128) & mask(tb) } else { *i & mask(tb) }),
                    t => t.clone(),
                });
                Ok(Val::D(r))
            }
            Val::B(b) => {
                let mut b = (*b).clone();
                if fs && tb > fb {
                    b.resize(fb as usize, FALSE);
                    let s = b[fb as usize - 1];
                    b.resize(tb as usize, s);
                }
                b.truncate(tb as usize);
                Ok(Val::B(Rc::new(b)))
            }
            _ => und("int cast of aggregate"),
        }
    }
    fn ptr_cast(&mut self, v: Val, from: Ty<'tcx>, to: Ty<'tcx>) -> R<Val> {
        let (fr, tr) = (self.rep(from), self.rep(to));
        let (Some(fp), Some(tp)) = (fr.builtin_deref(true), tr.builtin_deref(true)) else {
            return Ok(v);
        };
        let (a, b) = (self.rep(fp), self.rep(tp));
        if a == b {
            return Ok(v);
        }
        let Val::D(d) = v else { return und("pointer cast of aggregate") };
        let fat_to = !tp.is_sized(self.tcx, self.env);
        let fat_from = !fp.is_sized(self.tcx, self.env);
        enum K {
            Keep,
            Elem,
            Arr(u64),
        }
        let mut keep_meta = fat_to;
        let k = match (a.kind(), b.kind()) {
            (ty::Array(e, _), _) if self.rep(*e) == b => K::Elem,
            (ty::Slice(e), _) if self.rep(*e) == b => {
                keep_meta = false;
                K::Keep
            }
            (_, ty::Array(e, n)) if self.rep(*e) == a => K::Arr(self.array_len(*n)?),
            (ty::Slice(e), ty::Array(e2, n)) if self.rep(*e) == self.rep(*e2) => {
                keep_meta = false;
                K::Arr(self.array_len(*n)?)
            }
            (ty::Array(e, _), ty::Array(e2, _)) if self.rep(*e) == self.rep(*e2) => K::Keep,
            (ty::Slice(e), ty::Slice(e2)) if self.rep(*e) == self.rep(*e2) => {
                return Ok(Val::D(d));
            }
            (ty::Slice(_), ty::Str) | (ty::Str, ty::Slice(_)) => return Ok(Val::D(d)),
            _ => K::Keep,
        };
        let _ = fat_from;
        let mark = matches!(k, K::Keep) && !matches!((a.kind(), b.kind()), (ty::Slice(_), _));
        let r = self.m.map(d, &mut |t| match t {
            Term::Ptr(p) => {
                let mut q = match &k {
                    K::Keep => p.clone(),
                    K::Elem => p.push(Proj::I(0)),
                    K::Arr(_) => {
                        let mut q = p.clone();
                        if let Some(Proj::I(0)) = q.path.last() {
                            Rc::make_mut(&mut q.path).pop();
                        } else {
                            q.cast = true;
                        }
                        q
                    }
                };
                if !keep_meta {
                    q.meta = Meta::None;
                }
                if mark {
                    q.cast = true;
                }
                Term::Ptr(q)
            }
            t => t.clone(),
        });
        Ok(Val::D(r))
    }
    fn unsize(&mut self, v: Val, from: Ty<'tcx>, to: Ty<'tcx>) -> R<Val> {
        let (fr, tr) = (self.rep(from), self.rep(to));
        let (Some(fp), Some(tp)) = (fr.builtin_deref(true), tr.builtin_deref(true)) else {
            return und("unsizing of a smart pointer");
        };
        let Val::D(d) = v else { return und("unsizing aggregate") };
        let (a, b) = (self.rep(fp), self.rep(tp));
        let meta = if tp.is_trait() {
            if fp.is_trait() {
                return Ok(Val::D(d)); // upcast: the concrete type stays
            }
            Meta::Vt(fp)
        } else {
            let (sa, sb) = self.tcx.struct_lockstep_tails_for_codegen(fp, tp, self.env);
            match (sa.kind(), sb.kind()) {
                (ty::Array(_, n), ty::Slice(_)) => Meta::Len(self.array_len(*n)?),
                (_, ty::Dynamic(..)) => Meta::Vt(sa),
                _ => return und("unsizing"),
            }
        };
        let direct = matches!((a.kind(), b.kind()), (ty::Array(..), ty::Slice(_)));
        let r = self.m.map(d, &mut |t| match t {
            Term::Ptr(p) => {
                let q = if direct { p.push(Proj::I(0)) } else { p.clone() };
                Term::Ptr(q.with_meta(meta))
            }
            t => t.clone(),
        });
        Ok(Val::D(r))
    }
    fn leafy(&self, t: Ty<'tcx>) -> bool {
        matches!(t.kind(), ty::Bool | ty::Char | ty::Int(_) | ty::Uint(_) | ty::RawPtr(..) | ty::Ref(..) | ty::FnPtr(..))
    }
    pub fn transmute(&mut self, g: Dd, v: Val, from: Ty<'tcx>, to: Ty<'tcx>) -> R<Val> {
        let (a, b) = (self.rep(from), self.rep(to));
        if a == b {
            return Ok(v);
        }
        if self.leafy(a) && self.leafy(b) {
            if a.builtin_deref(true).is_some() && b.builtin_deref(true).is_some() {
                return self.ptr_cast(v, a, b);
            }
            if let (Some((x, _)), Some((y, _))) = (ibits(self.tcx, a), ibits(self.tcx, b)) {
                if y < x {
                    // e.g. u8 -> bool: only 0/1 are valid
                    let Val::D(d) = v else { return und("transmute to bool") };
                    for t in { let k = self.m.constrain(d, g); self.m.all_terms(k) } {
                        if let Term::Int(i) = t {
                            if i > 1 && y == 1 {
                                return Err(Stop::Ub("transmute to an invalid bool".into()));
                            }
                        }
                    }
                    return Ok(Val::D(d));
                }
                return Ok(v);
            }
            // integer <-> pointer
            if let Val::D(d) = v {
                if self.m.all_terms(d).iter().all(|t| matches!(t, Term::Int(_))) && b.builtin_deref(true).is_some() {
                    return Ok(Val::D(self.m.map(d, &mut |t| match t {
                        Term::Int(i) => Term::Ptr(Ptr::new(Base::Addr(*i as u64))),
                        t => t.clone(),
                    })));
                }
                if self.m.all_terms(d).iter().all(|t| matches!(t, Term::Ptr(p) if matches!(p.base, Base::Addr(_)))) {
                    return Ok(Val::D(self.m.map(d, &mut |t| match t {
                        Term::Ptr(Ptr { base: Base::Addr(a), off, .. }) => Term::Int((*a as i64 + off) as u64 as u128),
                        t => t.clone(),
                    })));
                }
            }
            return Ok(self.top("pointer-integer transmute"));
        }
        if let (ty::Array(x, n), ty::Array(y, k)) = (a.kind(), b.kind()) {
            if n == k {
                if let Val::A(vs) = &v {
                    let (x, y) = (*x, *y);
                    let mut out = vec![];
                    for e in vs.clone().iter() {
                        out.push(self.transmute(g, e.clone(), x, y)?);
                    }
                    return Ok(Val::A(Rc::new(out)));
                }
            }
        }
        // single-field wrappers
        if let Some(t) = self.sole_field(b)? {
            let inner = self.transmute(g, v, a, t.1)?;
            let mut fs = vec![];
            for i in 0..self.field_count(b)? {
                if i as u32 == t.0 {
                    fs.push(inner.clone());
                } else {
                    let z = self.field_ty(b, Proj::F(i as u32))?;
                    fs.push(self.zst_val(z)?);
                }
            }
            return Ok(Val::A(Rc::new(fs)));
        }
        if let Some(t) = self.sole_field(a)? {
            if let Val::A(fs) = &v {
                let x = fs[t.0 as usize].clone();
                return self.transmute(g, x, t.1, b);
            }
            if self.is_un(&v) {
                return Ok(v);
            }
        }
        // niche-encoded enum <-> integer or pointer
        if b.is_enum() && self.leafy(a) {
            if let (Some((un, ft, nv, start)), Val::D(d)) = (self.niche(b)?, &v) {
                let (w, _) = ibits(self.tcx, a).unwrap_or((64, false));
                let vi = move |t: &Term<'tcx>| -> Option<u128> {
                    let i = match t {
                        Term::Int(i) => *i,
                        Term::Ptr(Ptr { base: Base::Addr(x), off, .. }) => (*x as i64 + off) as u64 as u128,
                        Term::Ptr(_) | Term::Fn(..) => return Some(un as u128),
                        _ => return None,
                    };
                    let k = i.wrapping_sub(start) & mask(w);
                    Some(if k < nv.len() as u128 { nv[k as usize] as u128 } else { un as u128 })
                };
                let tag = self.m.map(*d, &mut |t| match vi(t) {
                    Some(i) => Term::Int(i),
                    None => t.clone(),
                });
                let is = self.tag_is(tag, un);
                let u = self.uninit;
                let pd = self.m.ite(is, *d, u);
                let gg = self.m.and(g, is);
                let p = self.transmute(gg, Val::D(pd), a, ft.1)?;
                let mut fs = vec![];
                let nf = match b.kind() {
                    ty::Adt(def, _) => def.variants()[VariantIdx::from_u32(un)].fields.len(),
                    _ => 0,
                };
                for i in 0..nf {
                    if i as u32 == ft.0 {
                        fs.push(p.clone());
                    } else {
                        let z = self.field_ty(b, Proj::V(un, i as u32))?;
                        fs.push(self.zst_val(z)?);
                    }
                }
                return Ok(Val::E(Rc::new(EnumV { tag, vars: vec![(un, fs)] })));
            }
        }
        if a.is_enum() && self.leafy(b) {
            if let (Some((un, ft, nv, start)), Val::E(e)) = (self.niche(a)?, &v) {
                let e = e.clone();
                let (w, _) = ibits(self.tcx, b).unwrap_or((64, false));
                let ptr = ibits(self.tcx, b).is_none();
                let niche = self.m.map(e.tag, &mut |t| match t {
                    Term::Int(i) => match nv.iter().position(|x| *x as u128 == *i) {
                        Some(k) => {
                            let i = start.wrapping_add(k as u128) & mask(w);
                            if ptr { Term::Ptr(Ptr::new(Base::Addr(i as u64))) } else { Term::Int(i) }
                        }
                        None => Term::Uninit,
                    },
                    t => t.clone(),
                });
                let is = self.tag_is(e.tag, un);
                let gg = self.m.and(g, is);
                if gg == FALSE {
                    return Ok(Val::D(niche));
                }
                if let Some(p) = e.var(un).and_then(|x| x.get(ft.0 as usize)).cloned() {
                    let p = self.transmute(gg, p, ft.1, b)?;
                    return Ok(self.ite_val(is, &p, &Val::D(niche)));
                }
            }
        }
        // unit-only enum <-> integer
        if b.is_enum() && ibits(self.tcx, a).is_some() {
            if let (Some(tab), Val::D(d)) = (self.discr_table(b), &v) {
                let mut bad = false;
                let k = self.m.constrain(*d, g);
                let tag = self.m.map(k, &mut |t| match t {
                    Term::Int(i) => match tab.iter().position(|x| x == i) {
                        Some(p) => Term::Int(p as u128),
                        None => {
                            bad = true;
                            Term::Uninit
                        }
                    },
                    t => t.clone(),
                });
                if bad {
                    return Err(Stop::Ub("transmute to an invalid enum value".into()));
                }
                return Ok(Val::E(Rc::new(EnumV { tag, vars: vec![] })));
            }
        }
        if a.is_enum() && ibits(self.tcx, b).is_some() {
            if let Val::E(e) = &v {
                if e.vars.is_empty() {
                    return self.discriminant(g, &v, a);
                }
            }
        }
        // Option<&T> / Option<NonNull<T>> <-> pointer
        if a.is_enum() && b.builtin_deref(true).is_some() {
            if let Val::E(e) = &v {
                let e = e.clone();
                let p = e.var(1).and_then(|x| x.first().cloned());
                let null = self.m.term(Term::Ptr(Ptr::new(Base::Addr(0))));
                let some = self.tag_is(e.tag, 1);
                let pd = match p {
                    Some(Val::D(d)) => d,
                    None => null,
                    _ => return Ok(self.top("transmute of enum")),
                };
                return Ok(Val::D(self.m.ite(some, pd, null)));
            }
        }
        Ok(self.top("transmute between unlike types"))
    }
    /// A niche-encoded enum with one dataful variant that is a scalar of the
    /// enum's whole size: (that variant, its field, the other variants, the
    /// first niche value).
    fn niche(&mut self, t: Ty<'tcx>) -> R<Option<(u32, (u32, Ty<'tcx>), Vec<u32>, u128)>> {
        let Ok(l) = self.tcx.layout_of(self.env.as_query_input(t)) else { return Ok(None) };
        let rustc_abi::Variants::Multiple { tag_encoding: rustc_abi::TagEncoding::Niche { untagged_variant, niche_variants, niche_start }, .. } = &l.variants
        else {
            return Ok(None);
        };
        let ty::Adt(def, _) = t.kind() else { return Ok(None) };
        let un = untagged_variant.as_u32();
        let mut r = None;
        for (vi, v) in def.variants().iter_enumerated() {
            for i in 0..v.fields.len() {
                let f = self.field_ty(t, Proj::V(vi.as_u32(), i as u32))?;
                if !self.is_zst(f) {
                    if vi.as_u32() != un || r.is_some() || self.size_of(f)? != l.size.bytes() {
                        return Ok(None);
                    }
                    r = Some((i as u32, f));
                }
            }
        }
        let nv = (niche_variants.start.as_u32()..=niche_variants.last.as_u32()).collect();
        Ok(r.map(|f| (un, f, nv, *niche_start)))
    }
    fn sole_field(&mut self, t: Ty<'tcx>) -> R<Option<(u32, Ty<'tcx>)>> {
        let n = match t.kind() {
            ty::Adt(d, _) if d.is_struct() => d.non_enum_variant().fields.len(),
            ty::Tuple(l) => l.len(),
            _ => return Ok(None),
        };
        let mut r = None;
        for i in 0..n {
            let f = self.field_ty(t, Proj::F(i as u32))?;
            if !self.is_zst(f) {
                if r.is_some() {
                    return Ok(None);
                }
                r = Some((i as u32, f));
            }
        }
        Ok(r)
    }
    pub fn unop(&mut self, g: Dd, op: UnOp, v: Val, t: Ty<'tcx>) -> R<Val> {
        match op {
            UnOp::Not => {
                if t.is_bool() {
                    let b = self.boolean(&v, g)?;
                    return Ok(Val::D(self.m.not(b)));
                }
                let Some((w, _)) = ibits(self.tcx, t) else { return und("not") };
                match v {
                    Val::D(d) => {
                        let r = self.m.map(d, &mut |t| match t {
                            Term::Int(i) => Term::Int(!i & mask(w)),
                            t => t.clone(),
                        });
                        Ok(Val::D(r))
                    }
                    Val::B(b) => {
                        let mut o = vec![];
                        for i in 0..w as usize {
                            let x = b.get(i).copied().unwrap_or(FALSE);
                            o.push(self.m.not(x));
                        }
                        Ok(Val::B(Rc::new(o)))
                    }
                    _ => und("not"),
                }
            }
            UnOp::Neg => {
                let Some((w, _)) = ibits(self.tcx, t) else { return und("neg") };
                let Val::D(d) = v else { return und("neg of wide") };
                Ok(Val::D(self.m.map(d, &mut |t| match t {
                    Term::Int(i) => Term::Int((i.wrapping_neg()) & mask(w)),
                    t => t.clone(),
                })))
            }
            UnOp::PtrMetadata => {
                let d = self.to_d(&v, g)?;
                let p = match self.one(d, g)? {
                    Term::Ptr(p) => p,
                    _ => return und("metadata"),
                };
                match p.meta {
                    Meta::Len(n) => Ok(self.int(n as u128)),
                    Meta::None => Ok(unit()),
                    Meta::Vt(_) => Ok(self.top("vtable metadata")),
                }
            }
        }
    }
    pub fn binop(&mut self, g: Dd, op: BinOp, a: Val, b: Val, ta: Ty<'tcx>, tb: Ty<'tcx>) -> R<Val> {
        use BinOp::*;
        let ta = self.rep(ta);
        if let Offset = op {
            let n = self.one_int(&b, g)?;
            let n = sext(n, 64) as i64;
            let d = self.to_d(&a, g)?;
            return Ok(Val::D(self.m.map(d, &mut |t| match t {
                Term::Ptr(p) => Term::Ptr(p.add(n)),
                t => t.clone(),
            })));
        }
        if ta.builtin_deref(true).is_some() || matches!(ta.kind(), ty::FnPtr(..)) {
            let (x, y) = (self.to_d(&a, g)?, self.to_d(&b, g)?);
            let (x, y) = (self.one(x, g)?, self.one(y, g)?);
            let r = match op {
                Eq | Ne => {
                    let e = match (&x, &y) {
                        (Term::Ptr(p), Term::Ptr(q)) => {
                            let mut p = p.clone();
                            let mut q = q.clone();
                            p.cast = false;
                            q.cast = false;
                            p == q
                        }
                        _ => x == y,
                    };
                    e == (op == Eq)
                }
                Lt | Le | Gt | Ge => match (&x, &y) {
                    (Term::Ptr(p), Term::Ptr(q)) => match p.diff(q) {
                        Some(n) => match op {
                            Lt => n < 0,
                            Le => n <= 0,
                            Gt => n > 0,
                            _ => n >= 0,
                        },
                        None => return und("order of unrelated pointers"),
                    },
                    _ => return und("pointer order"),
                },
                _ => return und("pointer arithmetic"),
            };
            return Ok(Self::vbool(r));
        }
        if ta.is_unit() {
            return Ok(Self::vbool(matches!(op, Eq | Le | Ge)));
        }
        let Some((w, sg)) = ibits(self.tcx, ta) else {
            return Ok(self.top("float arithmetic"));
        };
        let wide = matches!(a, Val::B(_)) || matches!(b, Val::B(_));
        if !wide {
            let (x, y) = (self.to_d(&a, g)?, self.to_d(&b, g)?);
            let (x, y) = (self.m.constrain(x, g), self.m.constrain(y, g));
            for d in [x, y] {
                if self.m.is_term(d) {
                    self.one(d, g)?;
                }
            }
            let wb = ibits(self.tcx, self.rep(tb)).map(|x| x.0).unwrap_or(w);
            // guard against quadratic blowup: go per-bit when both are rich
            if matches!(op, Add | Sub | BitAnd | BitOr | BitXor | AddWithOverflow | SubWithOverflow) && self.m.term_count(x, 12) > 12 && self.m.term_count(y, 12) > 12 {
                let (p, q) = (self.to_b(&Val::D(x))?, self.to_b(&Val::D(y))?);
                return self.wide(g, op, p, q, w, sg);
            }
            let mut err: Option<Stop> = None;
            let over = matches!(op, AddWithOverflow | SubWithOverflow | MulWithOverflow);
            let r = self.m.map2(x, y, &mut |s, t| match (s, t) {
                (Term::Int(i), Term::Int(j)) => match int_op(op, *i, *j, w, sg, wb) {
                    Ok(v) => Term::Int(v.0),
                    Err(e) => {
                        err = Some(e);
                        Term::Top("arithmetic")
                    }
                },
                (Term::Uninit, _) | (_, Term::Uninit) => Term::Uninit,
                (Term::Top(w), _) | (_, Term::Top(w)) => Term::Top(w),
                _ => Term::Top("arithmetic on pointers"),
            });
            if let Some(e) = err {
                // only report when forced: ask for a fork first
                if !self.m.is_term(x) {
                    return Err(Stop::Fork(x));
                }
                if !self.m.is_term(y) {
                    return Err(Stop::Fork(y));
                }
                return Err(e);
            }
            if over {
                let o = self.m.map2(x, y, &mut |s, t| match (s, t) {
                    (Term::Int(i), Term::Int(j)) => match int_op(op, *i, *j, w, sg, wb) {
                        Ok(v) => Term::Int(v.1 as u128),
                        Err(_) => Term::Int(0),
                    },
                    _ => Term::Top("arithmetic"),
                });
                let rv = self.tidy(r);
                return Ok(Val::A(Rc::new(vec![rv, Val::D(o)])));
            }
            if op == Cmp {
                return Ok(Val::E(Rc::new(EnumV { tag: r, vars: vec![] })));
            }
            return Ok(if matches!(op, Eq | Ne | Lt | Le | Gt | Ge) { Val::D(r) } else { self.tidy(r) });
        }
        // shifts by a constant
        if matches!(op, Shl | Shr | ShlUnchecked | ShrUnchecked) {
            let n = (self.one_int(&b, g)? % w as u128) as usize;
            let p = self.to_b(&a)?;
            let bit = |i: usize| p.get(i).copied().unwrap_or(FALSE);
            let mut o = vec![];
            for i in 0..w as usize {
                o.push(match op {
                    Shl | ShlUnchecked => {
                        if i >= n {
                            bit(i - n)
                        } else {
                            FALSE
                        }
                    }
                    _ => {
                        if i + n < w as usize {
                            bit(i + n)
                        } else if sg {
                            bit(w as usize - 1)
                        } else {
                            FALSE
                        }
                    }
                });
            }
            return Ok(Val::B(Rc::new(o)));
        }
        let (p, q) = (self.to_b(&a)?, self.to_b(&b)?);
        self.wide(g, op, p, q, w, sg)
    }
    fn wide(&mut self, g: Dd, op: BinOp, p: Rc<Vec<Dd>>, q: Rc<Vec<Dd>>, w: u32, sg: bool) -> R<Val> {
        use BinOp::*;
        let w = w as usize;
        let bit = |v: &Vec<Dd>, i: usize| v.get(i).copied().unwrap_or(FALSE);
        match op {
            BitAnd | BitOr | BitXor => {
                let mut o = vec![];
                for i in 0..w {
                    let (x, y) = (bit(&p, i), bit(&q, i));
                    o.push(match op {
                        BitAnd => self.m.and(x, y),
                        BitOr => self.m.or(x, y),
                        _ => self.m.xor(x, y),
                    });
                }
                Ok(Val::B(Rc::new(o)))
            }
            Eq | Ne => {
                let mut acc = TRUE;
                for i in (0..w).rev() {
                    let x = self.m.xor(bit(&p, i), bit(&q, i));
                    let nx = self.m.not(x);
                    acc = self.m.and(acc, nx);
                }
                if op == Ne {
                    acc = self.m.not(acc);
                }
                Ok(Val::D(acc))
            }
            Lt | Le | Gt | Ge | Cmp => {
                let mut lt = FALSE;
                let mut gt = FALSE;
                for i in 0..w {
                    let (mut x, mut y) = (bit(&p, i), bit(&q, i));
                    if sg && i == w - 1 {
                        std::mem::swap(&mut x, &mut y);
                    }
                    let nx = self.m.not(x);
                    let ny = self.m.not(y);
                    let l = self.m.and(nx, y);
                    let h = self.m.and(x, ny);
                    // higher bit decides
                    lt = self.m.ite(l, TRUE, lt);
                    lt = self.m.ite(h, FALSE, lt);
                    gt = self.m.ite(h, TRUE, gt);
                    gt = self.m.ite(l, FALSE, gt);
                }
                let r = match op {
                    Lt => lt,
                    Gt => gt,
                    Le => self.m.not(gt),
                    Ge => self.m.not(lt),
                    _ => {
                        let (t0, t1, t2) = (self.m.term(Term::Int(0)), self.m.term(Term::Int(1)), self.m.term(Term::Int(2)));
                        let r = self.m.ite(gt, t2, t1);
                        let tag = self.m.ite(lt, t0, r);
                        return Ok(Val::E(Rc::new(EnumV { tag, vars: vec![] })));
                    }
                };
                Ok(Val::D(r))
            }
            Add | AddUnchecked | AddWithOverflow | Sub | SubUnchecked | SubWithOverflow => {
                let sub = matches!(op, Sub | SubUnchecked | SubWithOverflow);
                let mut carry = if sub { TRUE } else { FALSE };
                let mut prev = carry;
                let mut o = vec![];
                for i in 0..w {
                    let x = bit(&p, i);
                    let mut y = bit(&q, i);
                    if sub {
                        y = self.m.not(y);
                    }
                    let s = self.m.xor(x, y);
                    let s2 = self.m.xor(s, carry);
                    let c1 = self.m.and(x, y);
                    let c2 = self.m.and(s, carry);
                    prev = carry;
                    carry = self.m.or(c1, c2);
                    o.push(s2);
                }
                let v = Val::B(Rc::new(o));
                if matches!(op, AddWithOverflow | SubWithOverflow) {
                    let ov = if sg {
                        self.m.xor(carry, prev)
                    } else if sub {
                        self.m.not(carry)
                    } else {
                        carry
                    };
                    return Ok(Val::A(Rc::new(vec![v, Val::D(ov)])));
                }
                Ok(v)
            }
            Rem | Div | Mul | MulUnchecked if !sg => {
                let _ = g;
                // by a constant
                let mut c = 0u128;
                for i in 0..w {
                    match bit(&q, i) {
                        FALSE => {}
                        TRUE => c |= 1 << i,
                        _ => return und(format!("wide integer operation {op:?}")),
                    }
                }
                if matches!(op, Mul | MulUnchecked) {
                    let mut acc: Rc<Vec<Dd>> = Rc::new(vec![FALSE; w]);
                    for s in 0..w {
                        if c >> s & 1 == 1 {
                            let sh: Vec<Dd> = (0..w).map(|i| if i >= s { bit(&p, i - s) } else { FALSE }).collect();
                            match self.wide(g, Add, acc.clone(), Rc::new(sh), w as u32, false)? {
                                Val::B(v) => acc = v,
                                _ => return und("wide multiplication"),
                            }
                        }
                    }
                    return Ok(Val::B(acc));
                }
                if !c.is_power_of_two() {
                    return und(format!("wide integer operation {op:?}"));
                }
                let s = c.trailing_zeros() as usize;
                let o = (0..w)
                    .map(|i| match op {
                        Rem => {
                            if i < s {
                                bit(&p, i)
                            } else {
                                FALSE
                            }
                        }
                        _ => {
                            if i + s < w {
                                bit(&p, i + s)
                            } else {
                                FALSE
                            }
                        }
                    })
                    .collect();
                Ok(Val::B(Rc::new(o)))
            }
            _ => {
                let _ = g;
                und(format!("wide integer operation {op:?}"))
            }
        }
    }

    // ---- stepping ---------------------------------------------------------
    pub fn run(&mut self, inst: Instance<'tcx>) {
        let mut c = Cfg { guard: TRUE, frames: vec![], dests: vec![], ghost: vec![], calls: Rc::new(vec![]) };
        if let Err(e) = self.push_frame(&mut c, inst, vec![], None, None) {
            self.stop(&mut c, e);
            return;
        }
        self.enqueue(c);
        while let Some((_, cs)) = self.queue.pop_first() {
            let mut ready = cs;
            while let Some(c) = ready.pop() {
                self.run_block(c, &mut ready);
                if self.stats.steps > self.budget || std::time::Instant::now() > self.deadline || self.m.size() > 12_000_000 {
                    self.undecided.push("analysis budget exhausted".into());
                    self.queue.clear();
                    return;
                }
            }
        }
        self.stats.nodes = self.m.size();
    }
    fn where_am_i(&self, c: &Cfg<'tcx>) -> String {
        let mut out = String::new();
        for fr in c.frames.iter().rev().take(8) {
            let fb = &self.fns[fr.f];
            let sp = {
                let d = &fb.body.basic_blocks[fr.bb];
                if fr.stmt < d.statements.len() {
                    d.statements[fr.stmt].source_info.span
                } else {
                    d.terminator().source_info.span
                }
            };
            let lo = self.tcx.sess.source_map().lookup_char_pos(sp.source_callsite().lo());
            out.push_str(&format!("\n      in {} at {}:{}", fb.name, lo.file.name.prefer_local_unconditionally(), lo.line));
        }
        out
    }
    pub fn report(&mut self, c: &Cfg<'tcx>, kind: &'static str, label: String, what: String) {
        let key = format!("{kind}|{label}");
        if !self.seen.insert(key) {
            return;
        }
        let asg = self.m.sat(c.guard);
        let mut s = what;
        if !asg.is_empty() {
            let a: Vec<String> = asg.iter().map(|(v, b)| format!("{}{}", if *b { "" } else { "!" }, atom_name(*v))).collect();
            s.push_str(&format!("\n      when {}", a.join(" ")));
        }
        s.push_str(&self.where_am_i(c));
        s.push_str("\n      repository functions since the last satisfied check:");
        let calls = c.calls.clone();
        for f in calls.iter() {
            let fb = &self.fns[*f];
            s.push_str(&format!("\n        {} [{}]", fb.name, fb.loc));
        }
        self.findings.push(Finding { label, kind, msg: s });
    }
    fn stop(&mut self, c: &mut Cfg<'tcx>, e: Stop) {
        match e {
            Stop::Und(w) => {
                let s = format!("{}{}", w, self.where_am_i(c));
                if self.undecided.len() < 20 {
                    self.undecided.push(s);
                }
            }
            Stop::Ub(w) => self.report(c, "ub", format!("undefined behaviour: {w}"), format!("undefined behaviour: {w}")),
            Stop::Panic(w) => self.report(c, "panic", format!("panic: {w}"), format!("the code panics: {w}")),
            Stop::Dead | Stop::Fork(_) => {}
        }
    }
    fn run_block(&mut self, c: Cfg<'tcx>, ready: &mut Vec<Cfg<'tcx>>) {
        let mut c = c;
        loop {
            self.stats.steps += 1;
            self.moves.clear();
            self.catch_next = false;
            let r = self.step(&mut c);
            match r {
                Ok(None) => {} // same block, next statement
                Ok(Some(outs)) => {
                    if outs.is_empty() {
                        return;
                    }
                    if outs.len() == 1 && self.queue.is_empty() && ready.is_empty() {
                        c = outs.into_iter().next().unwrap();
                        if self.stats.steps > self.budget {
                            return;
                        }
                        continue;
                    }
                    for o in outs {
                        self.enqueue(o);
                    }
                    return;
                }
                Err(Stop::Fork(d)) => {
                    self.stats.forks += 1;
                    let cases = self.m.cases(d, c.guard);
                    if cases.len() <= 1 {
                        // constrain said otherwise: cannot happen
                        self.stop(&mut c, Stop::Und("fork without progress".into()));
                        return;
                    }
                    for (_, g) in cases {
                        let mut k = c.clone();
                        k.guard = g;
                        ready.push(k);
                    }
                    return;
                }
                Err(e) => {
                    self.stop(&mut c, e);
                    return;
                }
            }
        }
    }
    fn flush_moves(&mut self, c: &mut Cfg<'tcx>) -> R<()> {
        let mv = std::mem::take(&mut self.moves);
        let u = self.un();
        for p in mv {
            if p.ptr.path.is_empty() {
                if let Base::Loc(d, l) = p.ptr.base {
                    Rc::make_mut(&mut c.frames[d as usize].locals)[l as usize] = u.clone();
                }
            } else if !self.is_zst(p.ty) {
                // partially moved aggregates keep their other fields
                self.store(c, &PlaceR { variant: None, ..p }, u.clone())?;
            }
        }
        Ok(())
    }
    fn step(&mut self, c: &mut Cfg<'tcx>) -> R<Option<Vec<Cfg<'tcx>>>> {
        let fr = c.frames.last().unwrap();
        let fb = self.fns[fr.f].clone();
        let data = &fb.body.basic_blocks[fr.bb];
        if fb.is_repo && fr.stmt == 0 {
            self.cover.entry(fb.inst.def_id()).or_default().insert(fr.bb.index());
        }
        if fr.stmt < data.statements.len() {
            let st = &data.statements[fr.stmt];
            match &st.kind {
                StatementKind::Assign(b) => {
                    let (pl, rv) = &**b;
                    let dst = self.place(c, pl)?;
                    let v = self.rvalue(c, rv, dst.ty)?;
                    self.flush_moves(c)?;
                    self.store(c, &dst, v)?;
                }
                StatementKind::SetDiscriminant { place, variant_index } => {
                    let p = self.place(c, place)?;
                    let v = self.load(c, &p)?;
                    let tag = self.m.term(Term::Int(variant_index.as_u32() as u128));
                    let nv = match v {
                        Val::E(e) => Val::E(Rc::new(EnumV { tag, vars: e.vars.clone() })),
                        _ => Val::E(Rc::new(EnumV { tag, vars: vec![] })),
                    };
                    self.store(c, &p, nv)?;
                }
                StatementKind::StorageLive(l) | StatementKind::StorageDead(l) => {
                    let u = self.un();
                    Rc::make_mut(&mut c.frames.last_mut().unwrap().locals)[l.index()] = u;
                }
                StatementKind::Intrinsic(i) => match &**i {
                    NonDivergingIntrinsic::Assume(op) => {
                        let v = self.operand(c, op)?;
                        let b = self.boolean(&v, c.guard)?;
                        let nb = self.m.not(b);
                        if self.m.and(c.guard, nb) != FALSE {
                            return Err(Stop::Ub("assume of a false condition".into()));
                        }
                    }
                    NonDivergingIntrinsic::CopyNonOverlapping(k) => {
                        let ty = self.op_ty(c, &k.src);
                        let s = self.operand(c, &k.src)?;
                        let d = self.operand(c, &k.dst)?;
                        let n = self.operand(c, &k.count)?;
                        self.copy_mem(c, &s, &d, &n, ty)?;
                    }
                },
                _ => {}
            }
            c.frames.last_mut().unwrap().stmt += 1;
            return Ok(None);
        }
        let term = data.terminator();
        match &term.kind {
            TerminatorKind::Goto { target, .. } | TerminatorKind::FalseEdge { real_target: target, .. } | TerminatorKind::FalseUnwind { real_target: target, .. } => {
                self.goto(c, *target);
                Ok(Some(vec![c.clone()]))
            }
            TerminatorKind::SwitchInt { discr, targets } => {
                let v = self.operand(c, discr)?;
                self.flush_moves(c)?;
                let mut outs = vec![];
                let mut rest = c.guard;
                match &v {
                    Val::B(b) => {
                        let b = b.clone();
                        for (val, bb) in targets.iter() {
                            let k = self.m.term(Term::Int(val));
                            let kb = self.to_b(&Val::D(k))?;
                            let e = match self.wide(c.guard, BinOp::Eq, b.clone(), kb, 128, false)? {
                                Val::D(d) => d,
                                _ => unreachable!(),
                            };
                            let g = self.m.and(rest, e);
                            if g != FALSE {
                                let ne = self.m.not(e);
                                rest = self.m.and(rest, ne);
                                let mut k = c.clone();
                                k.guard = g;
                                self.goto(&mut k, bb);
                                outs.push(k);
                            }
                        }
                    }
                    _ => {
                        let d = self.to_d(&v, c.guard)?;
                        let k = self.m.constrain(d, c.guard);
                        if self.m.is_term(k) {
                            self.one(k, c.guard)?;
                        } else {
                            for t in self.m.all_terms(k) {
                                if !matches!(t, Term::Int(_)) {
                                    return Err(Stop::Fork(d));
                                }
                            }
                        }
                        let mut by: BTreeMap<BasicBlock, Dd> = BTreeMap::new();
                        for (t, g) in self.m.cases(d, c.guard) {
                            let Term::Int(i) = t else { return und("switch on pointer") };
                            let bb = targets.target_for_value(i);
                            let e = by.get(&bb).copied().unwrap_or(FALSE);
                            let o = self.m.or(e, g);
                            by.insert(bb, o);
                        }
                        for (bb, g) in by {
                            let mut k = c.clone();
                            k.guard = g;
                            self.goto(&mut k, bb);
                            outs.push(k);
                        }
                        rest = FALSE;
                    }
                }
                if rest != FALSE {
                    let mut k = c.clone();
                    k.guard = rest;
                    self.goto(&mut k, targets.otherwise());
                    outs.push(k);
                }
                self.sway(c, &mut outs, term.source_info.span)?;
                Ok(Some(outs))
            }
            TerminatorKind::Return => {
                let fr = c.frames.last().unwrap();
                let v = fr.locals[0].clone();
                let target = fr.target;
                let catch = fr.catch;
                let d = c.dests.pop().unwrap();
                c.frames.pop();
                if c.frames.is_empty() {
                    return Ok(Some(vec![]));
                }
                if let Some(p) = d.place {
                    let v = if catch { Self::vbool(false) } else { v };
                    self.store(c, &p, v)?;
                }
                match target {
                    Some(bb) => {
                        self.goto(c, bb);
                        Ok(Some(vec![c.clone()]))
                    }
                    None => Err(Stop::Ub("return from a function that must not return".into())),
                }
            }
            TerminatorKind::Unreachable => Err(Stop::Ub("unreachable code is reached".into())),
            TerminatorKind::Drop { place, target, .. } => {
                let p = self.place(c, place)?;
                self.drop_place(c, p, *target)?;
                Ok(Some(vec![c.clone()]))
            }
            TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                let v = self.operand(c, cond)?;
                let b = self.boolean(&v, c.guard)?;
                let ok = if *expected { b } else { self.m.not(b) };
                let g1 = self.m.and(c.guard, ok);
                let nok = self.m.not(ok);
                let g0 = self.m.and(c.guard, nok);
                self.flush_moves(c)?;
                if g0 != FALSE {
                    let mut k = c.clone();
                    k.guard = g0;
                    let what = format!("{}", assert_name(msg));
                    self.stop(&mut k, Stop::Panic(what));
                }
                if g1 == FALSE {
                    return Ok(Some(vec![]));
                }
                c.guard = g1;
                self.goto(c, *target);
                Ok(Some(vec![c.clone()]))
            }
            TerminatorKind::Call { func, args, destination, target, .. } => {
                let fty = self.op_ty(c, func);
                let mut vs = vec![];
                for a in args.iter() {
                    vs.push(self.operand(c, &a.node)?);
                }
                match fty.kind() {
                    ty::FnDef(def, ga) => {
                        let ga = match ga.no_bound_vars() {
                            Some(g) => g,
                            None => return und("late-bound fn args"),
                        };
                        let inst = match Instance::try_resolve(self.tcx, self.env, *def, ga) {
                            Ok(Some(i)) => i,
                            _ => return und(format!("cannot resolve {}", self.tcx.def_path_str(*def))),
                        };
                        let dest = self.place(c, destination)?;
                        let rust_call = self.tcx.fn_sig(*def).skip_binder().abi() == rustc_abi::ExternAbi::RustCall;
                        self.call(c, inst, vs, dest, *target, rust_call)
                    }
                    ty::FnPtr(..) => {
                        let f = self.operand(c, func)?;
                        let d = self.to_d(&f, c.guard)?;
                        match self.one(d, c.guard)? {
                            Term::Fn(inst, clo) => {
                                let dest = self.place(c, destination)?;
                                if clo {
                                    vs.insert(0, unit());
                                }
                                self.call(c, inst, vs, dest, *target, false)
                            }
                            _ => und("call of a non-function"),
                        }
                    }
                    _ => und("call of unsupported value"),
                }
            }
            TerminatorKind::UnwindResume => {
                // continue unwinding in the caller
                let fr = c.frames.pop().unwrap();
                let d = c.dests.pop().unwrap();
                if fr.catch {
                    return self.caught(c, fr, d);
                }
                self.unwind_into_caller(c)
            }
            TerminatorKind::UnwindTerminate(_) => Err(Stop::Panic("panic while unwinding (abort)".into())),
            _ => und("unsupported terminator"),
        }
    }
    /// Start unwinding from the terminator the top frame stands at.
    pub fn unwind_here(&mut self, c: &mut Cfg<'tcx>) -> R<Option<Vec<Cfg<'tcx>>>> {
        self.unwind_into_caller(c)
    }
    fn unwind_into_caller(&mut self, c: &mut Cfg<'tcx>) -> R<Option<Vec<Cfg<'tcx>>>> {
        // The top frame stands at the call (or drop) terminator that unwinds.
        loop {
            let Some(fr) = c.frames.last() else { return Ok(Some(vec![])) };
            let fb = self.fns[fr.f].clone();
            let t = fb.body.basic_blocks[fr.bb].terminator();
            match t.unwind() {
                Some(UnwindAction::Cleanup(bb)) => {
                    let bb = *bb;
                    self.goto(c, bb);
                    return Ok(Some(vec![c.clone()]));
                }
                Some(UnwindAction::Terminate(_)) => return Err(Stop::Panic("panic in a function that must not unwind".into())),
                Some(UnwindAction::Unreachable) => return Err(Stop::Ub("unwinding out of a call that cannot unwind".into())),
                _ => {
                    let fr = c.frames.pop().unwrap();
                    let d = c.dests.pop().unwrap();
                    if fr.catch {
                        return self.caught(c, fr, d);
                    }
                }
            }
        }
    }
    fn caught(&mut self, c: &mut Cfg<'tcx>, fr: Frame, d: Dest<'tcx>) -> R<Option<Vec<Cfg<'tcx>>>> {
        if let Some(p) = d.place {
            self.store(c, &p, Self::vbool(true))?;
        }
        match fr.target {
            Some(bb) => {
                self.goto(c, bb);
                Ok(Some(vec![c.clone()]))
            }
            None => und("catch without target"),
        }
    }
    pub fn drop_place(&mut self, c: &mut Cfg<'tcx>, p: PlaceR<'tcx>, target: BasicBlock) -> R<()> {
        let ty = p.ty;
        if !ty.needs_drop(self.tcx, self.env) {
            self.goto(c, target);
            return Ok(());
        }
        let inst = Instance::resolve_drop_glue(self.tcx, ty);
        if let InstanceKind::Shim(ShimKind::DropGlue(_, None)) = inst.def {
            self.goto(c, target);
            return Ok(());
        }
        let ptr = self.vptr(p.ptr.clone());
        self.push_frame(c, inst, vec![ptr], None, Some(target))
    }
    pub fn copy_mem(&mut self, c: &mut Cfg<'tcx>, s: &Val, d: &Val, n: &Val, pty: Ty<'tcx>) -> R<()> {
        let g = c.guard;
        let n = self.one_int(n, g)? as i64;
        let s = self.one_ptr(s, g)?;
        let d = self.one_ptr(d, g)?;
        let t = self.pointee(pty)?;
        let mut vals = vec![];
        for i in 0..n {
            vals.push(self.load(c, &PlaceR { ptr: s.add(i), ty: t, variant: None })?);
        }
        for (i, v) in vals.into_iter().enumerate() {
            self.store(c, &PlaceR { ptr: d.add(i as i64), ty: t, variant: None }, v)?;
        }
        Ok(())
    }
    pub fn finish(&mut self, c: &mut Cfg<'tcx>, dest: &PlaceR<'tcx>, v: Val, target: Option<BasicBlock>) -> R<Option<Vec<Cfg<'tcx>>>> {
        self.flush_moves(c)?;
        self.store(c, dest, v)?;
        match target {
            Some(bb) => {
                self.goto(c, bb);
                Ok(Some(vec![c.clone()]))
            }
            None => Err(Stop::Dead),
        }
    }
    pub fn call(
        &mut self,
        c: &mut Cfg<'tcx>,
        inst: Instance<'tcx>,
        args: Vec<Val>,
        dest: PlaceR<'tcx>,
        target: Option<BasicBlock>,
        rust_call: bool,
    ) -> R<Option<Vec<Cfg<'tcx>>>> {
        let mut args = args;
        let mut inst = inst;
        if let InstanceKind::Virtual(def, _) = inst.def {
            let p = self.one_ptr(&args[0], c.guard)?;
            let Meta::Vt(ty) = p.meta else { return und("virtual call without a vtable") };
            args[0] = self.vptr(p.thin());
            let ga = self.tcx.mk_args_from_iter(std::iter::once(ty.into()).chain(inst.args.iter().skip(1)));
            inst = match Instance::try_resolve(self.tcx, self.env, def, ga) {
                Ok(Some(i)) => i,
                _ => return und("virtual call"),
            };
        }
        if rust_call {
            match args.pop() {
                Some(Val::A(t)) => args.extend(t.iter().cloned()),
                Some(v) if self.is_un(&v) => {}
                _ => return und("rust-call arguments"),
            }
        }
        match inst.def {
            InstanceKind::Intrinsic(def) => {
                if let Some(r) = self.intrinsic(c, def, inst.args, &args, &dest, target)? {
                    return Ok(r);
                }
                if self.tcx.intrinsic(def).map(|i| i.must_be_overridden).unwrap_or(true) {
                    return und(format!("intrinsic {}", self.tcx.item_name(def)));
                }
                inst = Instance::new_raw(def, inst.args);
            }
            InstanceKind::Shim(ShimKind::DropGlue(_, None)) => {
                let u = unit();
                return self.finish(c, &dest, u, target);
            }
            InstanceKind::Item(def) => {
                if let Some(r) = self.hook(c, def, inst, &args, &dest, target)? {
                    return Ok(r);
                }
            }
            _ => {}
        }
        if let InstanceKind::Item(def) = inst.def {
            if let rustc_hir::def::DefKind::Ctor(of, _) = self.tcx.def_kind(def) {
                let v = if let rustc_hir::def::CtorOf::Variant = of {
                    let ty = self.norm(self.tcx.fn_sig(def).instantiate(self.tcx, inst.args).skip_norm_wip().skip_binder().output());
                    let ty::Adt(adt, _) = ty.kind() else { return und("constructor") };
                    let vi = adt.variant_index_with_ctor_id(def).as_u32();
                    let tag = self.m.term(Term::Int(vi as u128));
                    Val::E(Rc::new(EnumV { tag, vars: if args.is_empty() { vec![] } else { vec![(vi, args)] } }))
                } else {
                    let ty = self.norm(self.tcx.fn_sig(def).instantiate(self.tcx, inst.args).skip_norm_wip().skip_binder().output());
                    match self.trans(ty) {
                        Some((i, _)) => args[i as usize].clone(),
                        None => Val::A(Rc::new(args)),
                    }
                };
                return self.finish(c, &dest, v, target);
            }
            let sig_never = target.is_none();
            let known = self.tcx.crate_name(def.krate).as_str() == "core" && self.model_for(def).is_some();
            if known || !self.tcx.is_mir_available(def) {
                if let Some(md) = self.model_for(def) {
                    // a model may be generic in the same way; models here are not generic
                    let ga = self.tcx.mk_args_from_iter(
                        inst.args.iter().filter(|a| a.as_type().is_some()).take(self.tcx.generics_of(md).count()),
                    );
                    inst = Instance::new_raw(md, ga);
                } else if sig_never {
                    return Err(Stop::Panic(format!("call of {}", self.path(def))));
                }
            }
        }
        self.flush_moves(c)?;
        self.push_frame(c, inst, args, Some(dest), target)?;
        Ok(Some(vec![c.clone()]))
    }
    pub fn path(&mut self, def: DefId) -> Rc<str> {
        if let Some(n) = self.names.get(&def) {
            return n.clone();
        }
        let mut s = rustc_middle::ty::print::with_no_trimmed_paths!(rustc_middle::ty::print::with_no_visible_paths!(self.tcx.def_path_str(def)));
        if def.is_local() {
            s = format!("{}::{}", self.tcx.crate_name(def.krate), s);
        }
        let s: Rc<str> = s.into();
        self.names.insert(def, s.clone());
        s
    }
    fn model_for(&mut self, def: DefId) -> Option<DefId> {
        let p = self.path(def);
        let n = model_name(&p)?;
        self.models.get(n).copied()
    }
}

pub fn model_name(p: &str) -> Option<&'static str> {
    if p.contains("Debug for u32>::fmt") {
        return Some("u32_debug");
    }
    if p.contains("Display for bool>::fmt") || p == "<bool as core::fmt::Display>::fmt" {
        return Some("bool_display");
    }
    if p.starts_with("<core::fmt::Formatter") && p.contains(" as core::fmt::Write>::") {
        return match p.rsplit("::").next() {
            Some("write_str") => Some("write_str"),
            Some("write_char") => Some("write_char"),
            Some("write_fmt") => Some("write_fmt"),
            _ => None,
        };
    }
    let q: String = strip_generics(p);
    Some(match q.as_str() {
        "core::slice::memchr::memchr_aligned" | "core::slice::memchr::memchr" => "memchr",
        "core::fmt::Formatter::precision" => "precision",
        "core::fmt::Formatter::width" => "width",
        "core::fmt::Formatter::fill" => "fill",
        "core::fmt::Formatter::align" => "align",
        "core::fmt::Formatter::alternate" => "alternate",
        "core::fmt::Formatter::sign_plus" => "sign_plus",
        "core::fmt::Formatter::sign_minus" => "sign_minus",
        "core::fmt::Formatter::sign_aware_zero_pad" => "zero_pad",
        "core::fmt::Formatter::debug_map" => "debug_map",
        "core::fmt::builders::DebugMap::entry" => "debug_map_entry",
        "core::fmt::builders::DebugMap::key" => "debug_map_key",
        "core::fmt::builders::DebugMap::value" => "debug_map_value",
        "core::fmt::builders::DebugMap::finish" => "debug_map_finish",
        "core::fmt::Formatter::debug_set" => "debug_set",
        "core::fmt::builders::DebugSet::entry" => "debug_set_entry",
        "core::fmt::builders::DebugSet::finish" => "debug_set_finish",
        "core::fmt::Formatter::debug_list" => "debug_list",
        "core::fmt::builders::DebugList::entry" => "debug_list_entry",
        "core::fmt::builders::DebugList::finish" => "debug_list_finish",
        "core::fmt::Formatter::write_str" => "write_str",
        "core::fmt::Formatter::write_fmt" => "write_fmt",
        "core::fmt::Formatter::pad" => "pad",
        "core::fmt::Formatter::debug_tuple_field1_finish" => "field1",
        "core::fmt::builders::DebugMap::finish_non_exhaustive" => "debug_map_more",
        "core::fmt::builders::DebugSet::finish_non_exhaustive" => "debug_set_more",
        "core::fmt::builders::DebugList::finish_non_exhaustive" => "debug_list_more",
        _ => return None,
    })
}
pub fn strip_generics(p: &str) -> String {
    let mut out = String::new();
    let mut depth = 0;
    let b: Vec<char> = p.chars().collect();
    let mut i = 0;
    while i < b.len() {
        if b[i] == ':' && i + 2 < b.len() && b[i + 1] == ':' && b[i + 2] == '<' && depth == 0 {
            depth = 1;
            i += 3;
            continue;
        }
        match b[i] {
            '<' => depth += 1,
            '>' => depth -= 1,
            ch if depth == 0 => out.push(ch),
            _ => {}
        }
        i += 1;
    }
    out
}
pub fn is_key_derive<'tcx>(_tcx: TyCtxt<'tcx>, sp: rustc_span::Span) -> bool {
    for e in sp.macro_backtrace() {
        if let rustc_span::ExpnKind::Macro(rustc_span::MacroKind::Derive, n) = e.kind {
            if n.as_str() == "Key" || n.as_str().ends_with("::Key") {
                return true;
            }
        }
    }
    false
}
pub fn tname(t: &Term<'_>) -> String {
    match t {
        Term::Int(i) => format!("integer {i}"),
        Term::Ptr(_) => "pointer".into(),
        Term::Fn(..) => "function".into(),
        Term::Uninit => "uninitialised".into(),
        Term::Top(w) => (*w).into(),
    }
}
pub fn assert_name<O: std::fmt::Debug>(m: &AssertKind<O>) -> &'static str {
    match m {
        AssertKind::BoundsCheck { .. } => "index out of bounds",
        AssertKind::Overflow(..) | AssertKind::OverflowNeg(_) => "arithmetic overflow",
        AssertKind::DivisionByZero(_) | AssertKind::RemainderByZero(_) => "division by zero",
        AssertKind::NullPointerDereference | AssertKind::NullReferenceConstructed => "null pointer",
        AssertKind::MisalignedPointerDereference { .. } => "misaligned pointer",
        _ => "assertion",
    }
}
/// Atom numbering: see witness::fm.
pub fn atom_name(v: u32) -> String {
    let (i, k) = (v / 16, v % 16);
    let n = match k {
        0 => format!("a[{i}]"),
        1 => format!("b[{i}]"),
        2 => format!("c[{i}]"),
        3 => format!("cb[{i}]"),
        4 => format!("cb2[{i}]"),
        _ => format!("x{k}[{i}]"),
    };
    n
}
fn int_op(op: BinOp, a: u128, b: u128, w: u32, sg: bool, wb: u32) -> R<(u128, bool)> {
    use BinOp::*;
    let m = mask(w);
    let (sa, sb) = (sext(a, w), sext(b, w));
    let fit = |r: Option<i128>| -> (u128, bool) {
        match r {
            Some(r) => {
                let t = (r as u128) & m;
                (t, sext(t, w) != r)
            }
            None => (0, true),
        }
    };
    Ok(match op {
        Add | AddUnchecked | AddWithOverflow => {
            let r = if sg {
                let (t, o) = fit(sa.checked_add(sb));
                if o { (a.wrapping_add(b) & m, true) } else { (t, false) }
            } else {
                let (r, o) = a.overflowing_add(b);
                (r & m, o || r > m)
            };
            if op == AddUnchecked && r.1 {
                return Err(Stop::Ub("unchecked addition overflows".into()));
            }
            r
        }
        Sub | SubUnchecked | SubWithOverflow => {
            let r = if sg {
                let (t, o) = fit(sa.checked_sub(sb));
                if o { (a.wrapping_sub(b) & m, true) } else { (t, false) }
            } else {
                (a.wrapping_sub(b) & m, a < b)
            };
            if op == SubUnchecked && r.1 {
                return Err(Stop::Ub("unchecked subtraction overflows".into()));
            }
            r
        }
        Mul | MulUnchecked | MulWithOverflow => {
            let r = if sg {
                let (t, o) = fit(sa.checked_mul(sb));
                if o { (a.wrapping_mul(b) & m, true) } else { (t, false) }
            } else {
                match a.checked_mul(b) {
                    Some(r) => (r & m, r > m),
                    None => (a.wrapping_mul(b) & m, true),
                }
            };
            if op == MulUnchecked && r.1 {
                return Err(Stop::Ub("unchecked multiplication overflows".into()));
            }
            r
        }
        Div | Rem => {
            if b == 0 {
                return Err(Stop::Ub("division by zero".into()));
            }
            let r = if sg {
                let v = if op == Div { sa.wrapping_div(sb) } else { sa.wrapping_rem(sb) };
                v as u128 & m
            } else if op == Div {
                a / b
            } else {
                a % b
            };
            (r, false)
        }
        BitXor => (a ^ b, false),
        BitAnd => (a & b, false),
        BitOr => (a | b, false),
        Shl | ShlUnchecked | Shr | ShrUnchecked => {
            let sh = b & mask(wb);
            if matches!(op, ShlUnchecked | ShrUnchecked) && sh >= w as u128 {
                return Err(Stop::Ub("unchecked shift overflows".into()));
            }
            let n = (sh % w as u128) as u32;
            let r = if matches!(op, Shl | ShlUnchecked) {
                (a << n) & m
            } else if sg {
                ((sa >> n) as u128) & m
            } else {
                a >> n
            };
            (r, false)
        }
        Eq => ((a == b) as u128, false),
        Ne => ((a != b) as u128, false),
        Lt | Le | Gt | Ge | Cmp => {
            let o = if sg { sa.cmp(&sb) } else { a.cmp(&b) };
            let r = match op {
                Lt => o.is_lt() as u128,
                Le => o.is_le() as u128,
                Gt => o.is_gt() as u128,
                Ge => o.is_ge() as u128,
                _ => (o as i8 + 1) as u128, // variant index of Ordering
            };
            (r, false)
        }
        Offset => return und("offset"),
    })
}
