use crate::exec::*;
use rustc_hir::def::DefKind;
use rustc_hir::def_id::DefId;
use rustc_middle::mir::visit::{PlaceContext, Visitor};
use rustc_middle::mir::*;
use rustc_middle::ty::{self, Instance, TyCtxt};
use std::collections::HashMap;
use std::io::Write;

fn jstr(s: &str) -> String {
    let mut o = String::from("\"");
    for ch in s.chars() {
        match ch {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

pub fn run(tcx: TyCtxt<'_>) {
    let out = std::env::var("FMLINT_OUT").unwrap_or_else(|_| "/dev/stdout".into());
    let filter = std::env::var("FMLINT_ONLY").unwrap_or_default();
    let budget: u64 = std::env::var("FMLINT_BUDGET").ok().and_then(|s| s.parse().ok()).unwrap_or(20_000_000);
    let secs: u64 = std::env::var("FMLINT_SECS").ok().and_then(|s| s.parse().ok()).unwrap_or(120);
    let cover = std::env::var("FMLINT_COVER").is_ok();
    let mut models = HashMap::new();
    let mut obs = vec![];
    for def in tcx.hir_crate_items(()).definitions() {
        let d = def.to_def_id();
        if tcx.def_kind(d) != DefKind::Fn {
            continue;
        }
        let p = rustc_middle::ty::print::with_no_trimmed_paths!(tcx.def_path_str(d));
        if let Some(m) = p.strip_prefix("models::") {
            models.insert(m.to_string(), d);
        }
        if p.starts_with("ob::") && tcx.generics_of(d).count() == 0 && tcx.fn_sig(d).skip_binder().inputs().skip_binder().is_empty() {
            let n = p["ob::".len()..].to_string();
            if filter.is_empty() || filter.split(',').any(|f| n.contains(f)) {
                obs.push((n, d));
            }
        }
    }
    obs.sort_by(|a, b| a.0.cmp(&b.0));
    // Under another configuration only what reaches code that differs is analysed again.
    let prints = prints(tcx);
    let since = std::env::var("FMLINT_SINCE").ok();
    let mut kept = String::new();
    if let Some(since) = since {
        // Written when the analysis of the other configuration is done.
        while !std::path::Path::new(&since).exists() {
            std::thread::sleep(std::time::Duration::from_millis(50));
        }
        let text = std::fs::read_to_string(&since).expect("FMLINT_SINCE");
        if text.is_empty() {
            return;
        }
        let mut base: HashMap<&str, &str> = HashMap::new();
        let mut reach: HashMap<&str, &str> = HashMap::new();
        for l in text.lines() {
            let mut c = l.split('\t');
            match (c.next(), c.next(), c.next()) {
                (Some("P"), Some(k), Some(v)) => drop(base.insert(k, v)),
                (Some("O"), Some(k), Some(v)) => drop(reach.insert(k, v)),
                _ => {}
            }
        }
        let mut diff: Vec<&str> = base.keys().copied().filter(|k| k.starts_with("F ") && !prints.contains_key(*k)).collect();
        let mut all = false;
        for (k, v) in &prints {
            match base.get(k.as_str()) {
                Some(b) if *b == v.to_string() => {}
                b => {
                    all |= b.is_none() || !k.starts_with("F ");
                    diff.push(k);
                }
            }
        }
        diff.sort();
        let before = obs.len();
        obs.retain(|(n, _)| all || reach.get(n.as_str()).map_or(true, |r| r.split('\x1f').any(|f| diff.binary_search(&f).is_ok())));
        kept = format!(
            "{{\"since\":{{\"items\":{},\"differ\":[{}],\"obligations\":{},\"again\":{}}}}}\n",
            prints.len(),
            diff.iter().map(|d| jstr(d)).collect::<Vec<_>>().join(","),
            before,
            obs.len()
        );
    }
    // Obligations are independent: share them out among processes.
    let jobs: usize = std::env::var("FMLINT_JOBS").ok().and_then(|s| s.parse().ok()).unwrap_or(1).max(1);
    let mut pids = vec![];
    let mut part = 0;
    for j in 1..jobs {
        let p = unsafe { fork() };
        if p == 0 {
            part = j;
            pids.clear();
            break;
        }
        assert!(p > 0, "fork");
        pids.push(p);
    }
    let path = if part == 0 { out.clone() } else { format!("{out}.{part}") };
    let mut f = std::fs::OpenOptions::new().create(true).write(true).truncate(true).open(&path).expect("FMLINT_OUT");
    let mut e = Eng::new(tcx, models);
    // What is not decided by then stays undecided.
    let total: u64 = std::env::var("FMLINT_TOTAL").ok().and_then(|s| s.parse().ok()).unwrap_or(420);
    let end = std::time::Instant::now() + std::time::Duration::from_secs(total);
    for (i, (n, d)) in obs.into_iter().enumerate() {
        if i % jobs != part {
            continue;
        }
        e.reset();
        e.budget = budget;
        let t0 = std::time::Instant::now();
        e.deadline = end.min(t0 + std::time::Duration::from_secs(secs));
        e.run(Instance::mono(tcx, d));
        let s = &e.stats;
        let mut line = format!(
            "{{\"ob\":{},\"steps\":{},\"joins\":{},\"forks\":{},\"checks\":{},\"repr_same\":{},\"repr_diff\":{},\"nodes\":{},\"ms\":{}",
            jstr(&n),
            s.steps,
            s.joins,
            s.forks,
            s.checks,
            s.repr_same,
            s.repr_diff,
            e.m.size(),
            t0.elapsed().as_millis()
        );
        line.push_str(",\"labels\":{");
        line.push_str(&e.labels.iter().map(|(k, v)| format!("{}:{}", jstr(k), v)).collect::<Vec<_>>().join(","));
        line.push_str("},\"undecided\":[");
        line.push_str(&e.undecided.iter().map(|u| jstr(u)).collect::<Vec<_>>().join(","));
        line.push_str("],\"findings\":[");
        line.push_str(
            &e.findings.iter().map(|x| format!("{{\"kind\":{},\"label\":{},\"msg\":{}}}", jstr(x.kind), jstr(&x.label), jstr(&x.msg))).collect::<Vec<_>>().join(","),
        );
        line.push_str("],\"fns\":[");
        line.push_str(
            &e.entered
                .iter()
                .filter(|i| e.fns[**i].is_repo)
                .map(|i| jstr(&format!("{} [{}]", e.fns[*i].name, e.fns[*i].loc)))
                .collect::<Vec<_>>()
                .join(","),
        );
        let mut ids: Vec<String> = e.entered.iter().filter(|i| e.fns[**i].is_repo).map(|i| pkey(tcx, e.fns[*i].inst.def_id())).collect();
        ids.sort();
        ids.dedup();
        line.push_str("],\"reach\":[");
        line.push_str(&ids.iter().map(|i| jstr(i)).collect::<Vec<_>>().join(","));
        if cover {
            let mut ids: Vec<String> = e.entered.iter().filter(|i| e.fns[**i].is_repo).map(|i| fid(tcx, e.fns[*i].inst.def_id())).collect();
            ids.sort();
            ids.dedup();
            line.push_str("],\"ids\":[");
            line.push_str(&ids.iter().map(|i| jstr(i)).collect::<Vec<_>>().join(","));
        }
        line.push_str(&format!("],\"fns_total\":{}}}\n", e.entered.len()));
        f.write_all(line.as_bytes()).unwrap();
    }
    let mut line = String::from("{\"visited\":[");
    let mut first = true;
    for (d, bbs) in &e.cover {
        if !first {
            line.push(',');
        }
        first = false;
        line.push_str(&format!("[{},{:?}]", jstr(&fid(tcx, *d)), bbs.iter().collect::<Vec<_>>()));
    }
    line.push_str("]}\n");
    f.write_all(line.as_bytes()).unwrap();
    if part != 0 {
        drop(f);
        unsafe { _exit(0) };
    }
    if cover {
        functions(tcx, &mut f);
    }
    f.write_all(kept.as_bytes()).unwrap();
    let line = format!("{{\"prints\":{{{}}}}}\n", prints.iter().map(|(k, v)| format!("{}:\"{}\"", jstr(k), v)).collect::<Vec<_>>().join(","));
    f.write_all(line.as_bytes()).unwrap();
    for (j, p) in pids.into_iter().enumerate() {
        let mut st = 0;
        let r = unsafe { waitpid(p, &mut st, 0) };
        assert!(r == p && st == 0, "a worker failed");
        let q = format!("{out}.{}", j + 1);
        f.write_all(&std::fs::read(&q).expect("worker output")).unwrap();
        let _ = std::fs::remove_file(&q);
    }
}
extern "C" {
    fn fork() -> i32;
    fn waitpid(pid: i32, status: *mut i32, options: i32) -> i32;
    fn _exit(code: i32) -> !;
}
fn fid(tcx: TyCtxt<'_>, d: DefId) -> String {
    format!("{}:{}", tcx.crate_name(d.krate), d.index.as_usize())
}
fn pkey(tcx: TyCtxt<'_>, d: DefId) -> String {
    format!("F {}", rustc_middle::ty::print::with_no_trimmed_paths!(tcx.def_path_str(d)))
}
/// The items of the repository (and those its derive generated here).
fn repo_items(tcx: TyCtxt<'_>) -> Vec<DefId> {
    let mut defs = vec![];
    for k in tcx.crates(()) {
        if tcx.crate_name(*k).as_str() == "fixed_map" {
            let n = rustc_metadata::creader::CStore::from_tcx(tcx).num_def_ids_untracked(*k);
            for i in 0..n {
                defs.push(DefId { krate: *k, index: rustc_hir::def_id::DefIndex::from_usize(i) });
            }
        }
    }
    for d in tcx.hir_crate_items(()).definitions() {
        let d = d.to_def_id();
        let sp = tcx.def_span(d);
        if sp.from_expansion() && is_key_derive(tcx, sp) {
            defs.push(d);
        }
    }
    defs
}
/// A fingerprint of each item: two configurations whose items agree behave the same.
fn prints(tcx: TyCtxt<'_>) -> std::collections::BTreeMap<String, u64> {
    use std::hash::{Hash, Hasher};
    let mut r: std::collections::BTreeMap<String, u64> = Default::default();
    let show = |t: ty::Ty<'_>| rustc_middle::ty::print::with_no_trimmed_paths!(t.to_string());
    for d in repo_items(tcx) {
        let w = rustc_middle::mir::pretty::MirWriter::new(tcx);
        let mut text: Vec<u8> = vec![];
        let path = rustc_middle::ty::print::with_no_trimmed_paths!(tcx.def_path_str(d));
        let key = match tcx.def_kind(d) {
            DefKind::Fn | DefKind::AssocFn | DefKind::Closure => {
                if tcx.is_mir_available(d) {
                    w.write_mir_fn(tcx.optimized_mir(d), &mut text).unwrap();
                    for b in tcx.promoted_mir(d).iter() {
                        w.write_mir_fn(b, &mut text).unwrap();
                    }
                }
                pkey(tcx, d)
            }
            DefKind::Const { .. } | DefKind::AssocConst { .. } | DefKind::Static { .. } => {
                if let Some(c) = tcx.trivial_const(d) {
                    text.extend(format!("{c:?}").bytes());
                } else if !matches!(tcx.def_kind(d), DefKind::AssocConst { .. }) || tcx.defaultness(d).has_value() {
                    w.write_mir_fn(tcx.mir_for_ctfe(d), &mut text).unwrap();
                }
                format!("C {path}")
            }
            DefKind::Struct | DefKind::Enum | DefKind::Union => {
                for f in tcx.adt_def(d).all_fields() {
                    text.extend(format!("{}: {}\n", f.name, show(tcx.type_of(f.did).instantiate_identity().skip_norm_wip())).bytes());
                }
                let r = tcx.adt_def(d).repr();
                text.extend(format!("{:?} {:?} {:?} {:?}", r.int, r.align, r.pack, r.flags).bytes());
                format!("T {path}")
            }
            DefKind::AssocTy if tcx.def_kind(tcx.parent(d)) != DefKind::Trait => {
                text.extend(show(tcx.type_of(d).instantiate_identity().skip_norm_wip()).bytes());
                format!("A {path}")
            }
            _ => continue,
        };
        let mut h = std::collections::hash_map::DefaultHasher::new();
        // The numbers of allocations are not part of what the code is.
        let mut plain = vec![];
        for (i, w) in String::from_utf8_lossy(&text).split("alloc").enumerate() {
            plain.extend((if i == 0 { w } else { w.trim_start_matches(|c: char| c.is_ascii_digit()) }).bytes());
        }
        plain.hash(&mut h);
        if std::env::var("FMLINT_PRINTS").map_or(false, |p| key.contains(&p)) {
            eprintln!("{key}\n{}", String::from_utf8_lossy(&text));
        }
        let e = r.entry(key).or_default();
        *e = e.wrapping_mul(31).wrapping_add(h.finish());
    }
    r
}
/// Every function of the repository there is a body of, with its blocks and
/// its unsafe operations.
fn functions<'tcx>(tcx: TyCtxt<'tcx>, f: &mut std::fs::File) {
    let defs = repo_items(tcx);
    let guards = guards(tcx, &defs);
    let sm = tcx.sess.source_map();
    for &g in &guards.types {
        for fd in tcx.adt_def(g).all_fields() {
            if tcx.visibility(fd.did).is_public() {
                let t = jstr(&format!("{:?}", tcx.type_of(fd.did).instantiate_identity().skip_norm_wip()));
                let s = format!("{{\"fn\":{},\"id\":\"\",\"loc\":{},\"pub\":true,\"blocks\":[],\"unsafe\":[],\"panics\":[],\"ext\":[],\"guard\":[1,{}]}}\n",
                    jstr(&format!("public field {}", tcx.def_path_str(fd.did))), jstr(&sm.span_to_diagnostic_string(tcx.def_span(fd.did))), t);
                f.write_all(s.as_bytes()).unwrap();
            }
        }
    }
    let line = |sp: rustc_span::Span| {
        let lo = sm.lookup_char_pos(sp.source_callsite().lo());
        format!("{}:{}", lo.file.name.prefer_local_unconditionally(), lo.line)
    };
    for d in defs {
        if !matches!(tcx.def_kind(d), DefKind::Fn | DefKind::AssocFn | DefKind::Closure) || !tcx.is_mir_available(d) {
            continue;
        }
        let body = tcx.optimized_mir(d);
        let name = rustc_middle::ty::print::with_no_trimmed_paths!(tcx.def_path_str(d));
        let mut blocks = String::new();
        let mut unsafes = String::new();
        let mut panics = String::new();
        let mut ext: Vec<String> = vec![];
        for (bb, data) in body.basic_blocks.iter_enumerated() {
            if data.is_cleanup {
                continue;
            }
            let t = data.terminator();
            if !blocks.is_empty() {
                blocks.push(',');
            }
            blocks.push_str(&format!("[{},{}]", bb.index(), jstr(&line(t.source_info.span))));
            let mut ops: Vec<(String, rustc_span::Span)> = vec![];
            if let TerminatorKind::Call { func, .. } = &t.kind {
                if let ty::FnDef(c, _) = *func.ty(&body.local_decls, tcx).kind() {
                    let k = tcx.crate_name(c.krate);
                    if !matches!(k.as_str(), "core" | "fixed_map") && !c.is_local() || tcx.is_foreign_item(c) {
                        let e = jstr(&format!("{}|{}|{}", k, tcx.def_path_str(c), line(t.source_info.span)));
                        if !ext.contains(&e) {
                            ext.push(e);
                        }
                    }
                    let cn = rustc_middle::ty::print::with_no_trimmed_paths!(tcx.def_path_str(c));
                    if tcx.fn_sig(c).skip_binder().safety().is_unsafe() {
                        ops.push((format!("call of {cn}"), t.source_info.span));
                    }
                    if tcx.fn_sig(c).skip_binder().output().skip_binder().is_never() {
                        panics.push_str(&format!("{}[{},{},{}]", if panics.is_empty() { "" } else { "," }, bb.index(), jstr(&line(t.source_info.span)), jstr(&cn)));
                    }
                }
            }
            if let TerminatorKind::Assert { msg, .. } = &t.kind {
                panics.push_str(&format!("{}[{},{},{}]", if panics.is_empty() { "" } else { "," }, bb.index(), jstr(&line(t.source_info.span)), jstr(assert_name(msg))));
            }
            if let TerminatorKind::InlineAsm { .. } = &t.kind {
                ops.push(("inline assembly".into(), t.source_info.span));
            }
            let mut v = UnsafeOps { tcx, body, ops: vec![] };
            v.visit_basic_block_data(bb, data);
            ops.append(&mut v.ops);
            for (w, sp) in ops {
                if !unsafes.is_empty() {
                    unsafes.push(',');
                }
                unsafes.push_str(&format!("[{},{},{}]", bb.index(), jstr(&line(sp)), jstr(&w)));
            }
        }
        let vis = tcx.visibility(if tcx.def_kind(d) == DefKind::Closure { tcx.parent(d) } else { d }).is_public();
        let s = format!(
            "{{\"fn\":{},\"id\":{},\"loc\":{},\"pub\":{},\"blocks\":[{}],\"unsafe\":[{}],\"panics\":[{}],\"ext\":[{}],\"guard\":[{}]}}\n",
            jstr(&name),
            jstr(&fid(tcx, d)),
            jstr(&line(tcx.def_span(d))),
            vis,
            blocks,
            unsafes,
            panics,
            ext.join(","),
            if vis && tcx.def_kind(d) != DefKind::Closure { guard_use(tcx, d, &guards) } else { String::new() }
        );
        f.write_all(s.as_bytes()).unwrap();
    }
}

/// The operations of a body which only unsafe code can contain.
struct UnsafeOps<'a, 'tcx> {
    tcx: TyCtxt<'tcx>,
    body: &'a Body<'tcx>,
    ops: Vec<(String, rustc_span::Span)>,
}
impl<'a, 'tcx> Visitor<'tcx> for UnsafeOps<'a, 'tcx> {
    fn visit_place(&mut self, p: &Place<'tcx>, cx: PlaceContext, loc: Location) {
        for (base, el) in p.iter_projections() {
            let t = base.ty(&self.body.local_decls, self.tcx).ty;
            let what = match el {
                ProjectionElem::Deref if t.is_raw_ptr() => "raw pointer access",
                ProjectionElem::Field(..) if t.is_union() => "union field access",
                _ => continue,
            };
            let sp = self.body.source_info(loc).span;
            self.ops.push((what.into(), sp));
        }
        self.super_place(p, cx, loc);
    }
    fn visit_rvalue(&mut self, r: &Rvalue<'tcx>, loc: Location) {
        let what = match r {
            Rvalue::Cast(CastKind::Transmute, ..) => Some("transmute"),
            Rvalue::BinaryOp(BinOp::AddUnchecked | BinOp::SubUnchecked | BinOp::MulUnchecked | BinOp::ShlUnchecked | BinOp::ShrUnchecked, _) => Some("unchecked arithmetic"),
            _ => None,
        };
        if let Some(w) = what {
            let sp = self.body.source_info(loc).span;
            self.ops.push((w.into(), sp));
        }
        self.super_rvalue(r, loc);
    }
    fn visit_statement(&mut self, s: &Statement<'tcx>, loc: Location) {
        if let StatementKind::Intrinsic(..) = &s.kind {
            self.ops.push(("unsafe intrinsic".into(), s.source_info.span));
        }
        self.super_statement(s, loc);
    }
}

/// What unsafe code relies on between calls: the types with an unsafe
/// constructor, and the types their private references point to.
struct Guards {
    types: Vec<DefId>,
    hidden: Vec<DefId>,
}
fn mentions<'tcx>(t: impl rustc_middle::ty::TypeVisitable<TyCtxt<'tcx>>, f: &mut dyn FnMut(ty::Ty<'tcx>) -> bool) -> bool {
    struct V<'a, 'tcx>(&'a mut dyn FnMut(ty::Ty<'tcx>) -> bool);
    impl<'a, 'tcx> ty::TypeVisitor<TyCtxt<'tcx>> for V<'a, 'tcx> {
        type Result = std::ops::ControlFlow<()>;
        fn visit_ty(&mut self, t: ty::Ty<'tcx>) -> Self::Result {
            use rustc_middle::ty::TypeSuperVisitable;
            if (self.0)(t) {
                return std::ops::ControlFlow::Break(());
            }
            t.super_visit_with(self)
        }
    }
    t.visit_with(&mut V(f)).is_break()
}
fn guards<'tcx>(tcx: TyCtxt<'tcx>, defs: &[DefId]) -> Guards {
    let mut g = Guards { types: vec![], hidden: vec![] };
    for &d in defs {
        if !matches!(tcx.def_kind(d), DefKind::Fn | DefKind::AssocFn) {
            continue;
        }
        let sig = tcx.fn_sig(d).instantiate_identity().skip_norm_wip().skip_binder();
        if !sig.safety().is_unsafe() {
            continue;
        }
        mentions(sig.output(), &mut |t| {
            if let ty::Adt(a, _) = t.kind() {
                if tcx.crate_name(a.did().krate).as_str() == "fixed_map" && !g.types.contains(&a.did()) {
                    g.types.push(a.did());
                }
            }
            false
        });
    }
    for &d in &g.types {
        for f in tcx.adt_def(d).all_fields() {
            let t = tcx.type_of(f.did).instantiate_identity().skip_norm_wip();
            if let ty::Ref(_, t, m) = t.kind() {
                if let (ty::Adt(a, _), true) = (t.kind(), m.is_mut()) {
                    g.hidden.push(a.did());
                }
            }
        }
    }
    g
}
/// A safe public function through which such a type's private reference gets
/// out; else, one which takes or makes such a type, with its signature.
fn guard_use<'tcx>(tcx: TyCtxt<'tcx>, d: DefId, g: &Guards) -> String {
    let sig = tcx.fn_sig(d).instantiate_identity().skip_norm_wip().skip_binder();
    if sig.safety().is_unsafe() {
        return String::new();
    }
    let env = ty::TypingEnv::post_analysis(tcx, d);
    let norm = |t: ty::Ty<'tcx>| tcx.try_normalize_erasing_regions(env, ty::Unnormalized::new_wip(t)).unwrap_or(t);
    let is = |t: ty::Ty<'tcx>, l: &[DefId]| matches!(t.kind(), ty::Adt(a, _) if l.contains(&a.did()));
    let takes = sig.inputs().iter().any(|t| mentions(norm(*t), &mut |t| is(t, &g.types)));
    let makes = mentions(norm(sig.output()), &mut |t| is(t, &g.types));
    if !takes && !makes {
        return String::new();
    }
    let mut open = |t: ty::Ty<'tcx>| mentions(norm(t), &mut |t| matches!(t.kind(), ty::Ref(_, t, m) if m.is_mut() && is(*t, &g.hidden)));
    let mut escapes = takes && open(sig.output());
    for p in tcx.param_env(d).caller_bounds() {
        if let ty::ClauseKind::Trait(t) = p.kind().skip_binder() {
            if tcx.fn_trait_kind_from_def_id(t.trait_ref.def_id).is_some() {
                escapes |= takes && t.trait_ref.args.types().skip(1).any(&mut open);
            }
        }
    }
    let s = |t: ty::Ty<'tcx>| jstr(&rustc_middle::ty::print::with_no_trimmed_paths!(norm(t).to_string()));
    format!(
        "{},{}{}",
        if escapes { "1" } else { "0" },
        s(sig.output()),
        sig.inputs().iter().map(|t| format!(",{}", s(*t))).collect::<String>()
    )
}
