//! The value domain: trees whose leaves are decision diagrams.
use crate::dd::*;
use rustc_middle::ty::{self, Ty, TyCtxt};
use std::rc::Rc;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Proj {
    F(u32),
    V(u32, u32),
    I(u64),
}
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Base {
    Loc(u32, u32),
    Glob(u32),
    Addr(u64),
}
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Meta<'tcx> {
    None,
    Len(u64),
    Vt(Ty<'tcx>),
}
#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub struct Ptr<'tcx> {
    pub base: Base,
    pub path: Rc<Vec<Proj>>,
    pub meta: Meta<'tcx>,
    pub off: i64,
    pub cast: bool,
}
#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum Term<'tcx> {
    Int(u128),
    Ptr(Ptr<'tcx>),
    Fn(ty::Instance<'tcx>, bool), // bool: closure coerced to fn pointer
    Uninit,
    Top(&'static str),
}
pub type M<'tcx> = Mgr<Term<'tcx>>;

#[derive(Clone, Debug)]
pub enum Val {
    D(Dd),
    B(Rc<Vec<Dd>>),
    A(Rc<Vec<Val>>),
    E(Rc<EnumV>),
}
#[derive(Clone, Debug)]
pub struct EnumV {
    pub tag: Dd, // Int(variant index)
    pub vars: Vec<(u32, Vec<Val>)>,
}
impl EnumV {
    pub fn var(&self, v: u32) -> Option<&Vec<Val>> {
        self.vars.iter().find(|x| x.0 == v).map(|x| &x.1)
    }
    pub fn var_mut(&mut self, v: u32) -> &mut Vec<Val> {
        if let Some(i) = self.vars.iter().position(|x| x.0 == v) {
            return &mut self.vars[i].1;
        }
        self.vars.push((v, vec![]));
        self.vars.sort_by_key(|x| x.0);
        let i = self.vars.iter().position(|x| x.0 == v).unwrap();
        &mut self.vars[i].1
    }
}
pub fn unit() -> Val {
    Val::A(Rc::new(vec![]))
}
impl<'tcx> Ptr<'tcx> {
    pub fn new(base: Base) -> Self {
        Ptr { base, path: Rc::new(vec![]), meta: Meta::None, off: 0, cast: false }
    }
    pub fn push(&self, p: Proj) -> Self {
        let mut q = self.clone();
        Rc::make_mut(&mut q.path).push(p);
        q
    }
    pub fn thin(&self) -> Self {
        let mut q = self.clone();
        q.meta = Meta::None;
        q
    }
    pub fn with_meta(&self, m: Meta<'tcx>) -> Self {
        let mut q = self.clone();
        q.meta = m;
        q
    }
    /// Pointer arithmetic in units of the pointee.
    pub fn add(&self, n: i64) -> Self {
        let mut q = self.clone();
        if n == 0 {
            return q;
        }
        if let Base::Addr(_) = q.base {
            q.off += n;
            return q;
        }
        let p = Rc::make_mut(&mut q.path);
        match p.last_mut() {
            Some(Proj::I(i)) if *i as i64 + n >= 0 && q.off == 0 => *i = (*i as i64 + n) as u64,
            _ => q.off += n,
        }
        q
    }
    pub fn diff(&self, o: &Self) -> Option<i64> {
        if self.base != o.base || self.path.len() != o.path.len() {
            return None;
        }
        let n = self.path.len();
        if n == 0 {
            return Some(self.off - o.off);
        }
        if self.path[..n - 1] != o.path[..n - 1] {
            return None;
        }
        match (self.path[n - 1], o.path[n - 1]) {
            (Proj::I(a), Proj::I(b)) => Some(a as i64 - b as i64 + self.off - o.off),
            (a, b) if a == b => Some(self.off - o.off),
            _ => None,
        }
    }
}

/// If `ty` is represented as one of its fields: that field's index and type.
pub fn transparent<'tcx>(tcx: TyCtxt<'tcx>, env: ty::TypingEnv<'tcx>, ty: Ty<'tcx>) -> Option<(u32, Ty<'tcx>)> {
    let ty::Adt(def, args) = ty.kind() else {
        if let ty::Pat(b, _) = ty.kind() {
            return Some((0, *b));
        }
        return None;
    };
    if def.is_union() || (def.is_struct() && def.repr().transparent()) {
        let mut best: Option<(u32, Ty<'tcx>, u64)> = None;
        let mut nz = 0;
        for (i, f) in def.non_enum_variant().fields.iter_enumerated() {
            let fty = tcx.normalize_erasing_regions(env, f.ty(tcx, args));
            let sz = match tcx.layout_of(env.as_query_input(fty)) {
                Ok(l) => {
                    if l.is_unsized() {
                        1
                    } else {
                        l.size.bytes()
                    }
                }
                Err(_) => 1,
            };
            if sz > 0 {
                nz += 1;
            }
            let phantom = match fty.kind() {
                ty::Adt(d, _) => d.is_phantom_data(),
                ty::Tuple(l) => l.is_empty(),
                _ => false,
            };
            let better = match &best {
                None => true,
                Some((_, bt, bs)) => {
                    let bp = match bt.kind() {
                        ty::Adt(d, _) => d.is_phantom_data(),
                        ty::Tuple(l) => l.is_empty(),
                        _ => false,
                    };
                    sz > *bs || (sz == *bs && bp && !phantom)
                }
            };
            if better {
                best = Some((i.as_u32(), fty, sz));
            }
        }
        if def.is_union() && nz > 1 {
            return None;
        }
        return best.map(|b| (b.0, b.1));
    }
    None
}
pub fn rep_ty<'tcx>(tcx: TyCtxt<'tcx>, env: ty::TypingEnv<'tcx>, mut ty: Ty<'tcx>) -> Ty<'tcx> {
    while let Some((_, t)) = transparent(tcx, env, ty) {
        ty = t;
    }
    ty
}
