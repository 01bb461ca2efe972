//! Rules decided by queries over HIR and MIR of the library itself.
//!
//! P19: unsafe constructs (HIR visitor) and the lint level that forbids them
//! P20: ambient effects (call graph, statics, pointer-to-integer casts) and a flow analysis of hash
//!      iteration order over the MIR of every function
use crate::Json;
use rustc_hir as hir;
use rustc_hir::def::DefKind;
use rustc_hir::intravisit::{self, Visitor};
use rustc_middle::mir::*;
use rustc_middle::ty::{self, Ty, TyCtxt};
use rustc_span::def_id::{DefId, LocalDefId};
use rustc_span::Span;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};

pub struct Finding {
    prop: &'static str,
    msg: String,
    func: String,
    loc: String,
}

struct R<'t> {
    tcx: TyCtxt<'t>,
    findings: Vec<Finding>,
    stats: BTreeMap<String, BTreeSet<String>>,
}

impl<'t> R<'t> {
    fn loc(&self, sp: Span) -> String {
        let sp = sp.source_callsite();
        let l = self.tcx.sess.source_map().lookup_char_pos(sp.lo());
        format!("{}:{}:{}", l.file.name.prefer_local_unconditionally(), l.line, l.col.0 + 1)
    }
    fn path(&self, d: DefId) -> String {
        rustc_middle::ty::print::with_no_trimmed_paths!(self.tcx.def_path_str(d))
    }
    fn find(&mut self, prop: &'static str, msg: String, owner: DefId, sp: Span) {
        let f = Finding { prop, msg, func: self.path(owner), loc: self.loc(sp) };
        if !self.findings.iter().any(|x| x.prop == f.prop && x.msg == f.msg && x.loc == f.loc) {
            self.findings.push(f);
        }
    }
    fn stat(&mut self, k: &str, v: String) {
        self.stats.entry(k.into()).or_default().insert(v);
    }
}

// ---------------------------------------------------------------- P19

struct Unsafety<'a, 't> {
    r: &'a mut R<'t>,
    owner: DefId,
    bodies: usize,
    items: usize,
    blocks: usize,
}

impl<'a, 't> Unsafety<'a, 't> {
    fn hit(&mut self, what: &str, sp: Span) {
        if sp.allows_unsafe() || sp.in_derive_expansion() {
            return;
        }
        let o = self.owner;
        self.r.find("P19", what.to_string(), o, sp);
    }
    fn attrs(&mut self, d: LocalDefId, sp: Span) {
        let f = self.r.tcx.def_kind(d);
        if matches!(f, DefKind::Fn | DefKind::AssocFn | DefKind::Static { .. }) {
            let a = self.r.tcx.codegen_fn_attrs(d);
            use rustc_middle::middle::codegen_fn_attrs::CodegenFnAttrFlags as F;
            if a.flags.contains(F::NO_MANGLE) || a.symbol_name.is_some() || a.link_section.is_some() {
                self.hit("unsafe attribute that controls linking", sp);
            }
        }
    }
}

impl<'a, 't> Visitor<'t> for Unsafety<'a, 't> {
    type NestedFilter = rustc_middle::hir::nested_filter::All;
    fn maybe_tcx(&mut self) -> TyCtxt<'t> {
        self.r.tcx
    }
    fn visit_item(&mut self, it: &'t hir::Item<'t>) {
        let old = self.owner;
        self.owner = it.owner_id.to_def_id();
        self.items += 1;
        match it.kind {
            hir::ItemKind::Trait { .. } if self.r.tcx.trait_def(it.owner_id).safety.is_unsafe() => self.hit("unsafe trait", it.span),
            hir::ItemKind::Impl(i) => {
                if let Some(t) = i.of_trait {
                    if t.safety.is_unsafe() {
                        self.hit("unsafe impl", it.span);
                    }
                }
            }
            hir::ItemKind::ForeignMod { items, .. } => {
                for x in items {
                    let sp = self.r.tcx.def_span(x.owner_id.def_id);
                    self.hit("foreign item", sp);
                }
            }
            hir::ItemKind::Static(hir::Mutability::Mut, ..) => self.hit("mutable static", it.span),
            hir::ItemKind::GlobalAsm { .. } => self.hit("global assembly", it.span),
            _ => {}
        }
        self.attrs(it.owner_id.def_id, it.span);
        intravisit::walk_item(self, it);
        self.owner = old;
    }
    fn visit_impl_item(&mut self, it: &'t hir::ImplItem<'t>) {
        let old = self.owner;
        self.owner = it.owner_id.to_def_id();
        self.attrs(it.owner_id.def_id, it.span);
        intravisit::walk_impl_item(self, it);
        self.owner = old;
    }
    fn visit_fn(&mut self, k: intravisit::FnKind<'t>, d: &'t hir::FnDecl<'t>, b: hir::BodyId, sp: Span, id: LocalDefId) {
        if let Some(h) = k.header() {
            if h.is_unsafe() {
                self.hit("unsafe function", sp);
            }
        }
        self.bodies += 1;
        intravisit::walk_fn(self, k, d, b, id);
    }
    fn visit_block(&mut self, b: &'t hir::Block<'t>) {
        self.blocks += 1;
        if let hir::BlockCheckMode::UnsafeBlock(hir::UnsafeSource::UserProvided) = b.rules {
            self.hit("unsafe block", b.span);
        }
        intravisit::walk_block(self, b);
    }
    fn visit_expr(&mut self, e: &'t hir::Expr<'t>) {
        if let hir::ExprKind::InlineAsm(_) = e.kind {
            self.hit("inline assembly", e.span);
        }
        intravisit::walk_expr(self, e);
    }
}

fn p19<'t>(r: &mut R<'t>) {
    let tcx = r.tcx;
    let root = rustc_span::def_id::CRATE_DEF_ID.to_def_id();
    let mut v = Unsafety { r, owner: root, bodies: 0, items: 0, blocks: 0 };
    tcx.hir_walk_toplevel_module(&mut v);
    let (b, i, k) = (v.bodies, v.items, v.blocks);
    r.stat("P19.bodies", b.to_string());
    r.stat("P19.items", i.to_string());
    r.stat("P19.blocks", k.to_string());
    let lint = rustc_lint_defs::builtin_unsafe();
    let l = tcx.lint_level_spec_at_node(lint, hir::CRATE_HIR_ID).level();
    r.stat("P19.lint_level", format!("{l:?}"));
    if !matches!(l, rustc_lint_defs::Level::Deny | rustc_lint_defs::Level::Forbid) {
        r.find("P19", format!("the lint unsafe_code is at level {l:?} for the crate, so unsafe code would be accepted"), root, tcx.def_span(root));
    }
}

mod rustc_lint_defs {
    extern crate rustc_lint;
    extern crate rustc_lint_defs as d;
    pub use d::Level;
    pub fn builtin_unsafe() -> &'static d::Lint {
        d::builtin::UNSAFE_CODE
    }
}

// ---------------------------------------------------------------- P20

/// Paths of functions whose results or effects are not determined by their arguments
const AMBIENT: &[&str] = &[
    "std::time::", "std::env::", "std::fs::", "std::net::", "std::process::", "std::thread::", "std::os::", "std::sys::", "std::backtrace::",
    "std::io::stdin", "std::io::stdout", "std::io::stderr", "std::io::_print", "std::io::_eprint", "std::io::stdio::", "std::io::Stdin", "std::io::Stdout", "std::io::Stderr",
    "std::alloc::", "alloc::alloc::alloc", "std::panic::", "core::panic::Location::", "std::random::", "core::arch::",
    "std::hash::random::", "std::hash::RandomState", "std::collections::hash_map::RandomState", "std::collections::hash_map::DefaultHasher",
    "core::sync::atomic::", "std::sync::Mutex", "std::sync::RwLock", "std::sync::Once", "std::sync::LazyLock", "std::sync::mpsc", "std::sync::Condvar", "std::sync::Barrier", "std::sync::poison::",
    "std::any::type_name", "core::any::type_name", "core::any::TypeId",
];
/// Exceptions: deterministic although the prefix matches
const AMBIENT_OK: &[&str] = &["core::panic::Location::caller", "std::panic::Location::caller"];

fn std_path(p: &str) -> String {
    p.to_string()
}

fn ambient(p: &str) -> bool {
    if AMBIENT_OK.iter().any(|x| p.starts_with(x)) {
        return false;
    }
    let alt = p.replacen("std::", "core::", 1);
    let alt2 = p.replacen("core::", "std::", 1);
    AMBIENT.iter().any(|a| p.starts_with(a) || alt.starts_with(a) || alt2.starts_with(a))
}

#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash, Debug)]
enum T {
    /// independent of iteration order
    Clean,
    /// elements of a hash container in its iteration order: sorting or collecting into a set removes the dependence
    Order,
    /// a value computed from positions in that order
    Value,
}

type St = HashMap<Local, T>;

struct Flow<'a, 't> {
    r: &'a mut R<'t>,
    memo: HashMap<(DefId, Vec<T>), (T, Vec<T>)>,
    active: HashSet<(DefId, Vec<T>)>,
    sources: BTreeSet<String>,
    cleaned: BTreeSet<String>,
    /// where the order was first observed, for reports
    first: HashMap<DefId, (String, Span)>,
}

fn get(s: &St, l: Local) -> T {
    s.get(&l).copied().unwrap_or(T::Clean)
}

impl<'a, 't> Flow<'a, 't> {
    fn hash_ty(&self, t: Ty<'t>) -> bool {
        let t = t.peel_refs();
        match t.kind() {
            ty::Adt(d, _) => {
                let p = self.r.path(d.did());
                p.contains("HashMap") || p.contains("HashSet") || p.contains("hash_map::") || p.contains("hash_set::")
            }
            _ => false,
        }
    }
    fn set_ty(&self, t: Ty<'t>) -> bool {
        match t.peel_refs().kind() {
            ty::Adt(d, _) => {
                let p = self.r.path(d.did());
                ["HashSet", "BTreeSet", "BinaryHeap"].iter().any(|x| p.ends_with(x))
            }
            _ => false,
        }
    }
    fn map_ty(&self, t: Ty<'t>) -> bool {
        match t.peel_refs().kind() {
            ty::Adt(d, _) => {
                let p = self.r.path(d.did());
                ["HashMap", "BTreeMap"].iter().any(|x| p.ends_with(x))
            }
            _ => false,
        }
    }
    /// locals that a reference local may point to (flow insensitive)
    fn bases(&self, body: &Body<'t>) -> HashMap<Local, HashSet<Local>> {
        let mut m: HashMap<Local, HashSet<Local>> = HashMap::new();
        loop {
            let mut ch = false;
            let mut add = |m: &mut HashMap<Local, HashSet<Local>>, d: Local, s: HashSet<Local>| {
                let e = m.entry(d).or_default();
                for x in s {
                    if x != d {
                        ch |= e.insert(x);
                    }
                }
            };
            for bb in body.basic_blocks.iter() {
                for st in &bb.statements {
                    if let StatementKind::Assign(b) = &st.kind {
                        let (d, rv) = &**b;
                        match rv {
                            Rvalue::Ref(_, _, p) | Rvalue::RawPtr(_, p) => {
                                let mut s = HashSet::new();
                                if p.is_indirect() {
                                    s.extend(m.get(&p.local).cloned().unwrap_or_default());
                                }
                                s.insert(p.local);
                                add(&mut m, d.local, s);
                            }
                            Rvalue::Use(op, ..) | Rvalue::Cast(_, op, _) => {
                                if let Some(p) = op.place() {
                                    let s = m.get(&p.local).cloned().unwrap_or_default();
                                    add(&mut m, d.local, s);
                                }
                            }
                            Rvalue::Aggregate(_, ops) => {
                                for o in ops.iter() {
                                    if let Some(p) = o.place() {
                                        let s = m.get(&p.local).cloned().unwrap_or_default();
                                        add(&mut m, d.local, s);
                                    }
                                }
                            }
                            _ => {}
                        }
                    }
                }
                if let TerminatorKind::Call { args, destination, .. } = &bb.terminator().kind {
                    // results that may borrow from arguments
                    let t = destination.ty(body, self.r.tcx).ty;
                    if has_ref(t) {
                        for a in args.iter() {
                            if let Some(p) = a.node.place() {
                                let s = m.get(&p.local).cloned().unwrap_or_default();
                                add(&mut m, destination.local, s);
                            }
                        }
                    }
                }
            }
            if !ch {
                return m;
            }
        }
    }

    fn op(&self, s: &St, o: &Operand<'t>) -> T {
        o.place().map_or(T::Clean, |p| get(s, p.local))
    }

    fn taint_through(&self, s: &mut St, b: &HashMap<Local, HashSet<Local>>, l: Local, t: T) {
        if t == T::Clean {
            return;
        }
        let e = s.entry(l).or_insert(T::Clean);
        *e = (*e).max(t);
        if let Some(x) = b.get(&l) {
            for y in x {
                let e = s.entry(*y).or_insert(T::Clean);
                *e = (*e).max(t);
            }
        }
    }

    /// Result taint and taint of what the reference parameters point to
    fn func(&mut self, did: DefId, params: Vec<T>) -> (T, Vec<T>) {
        let key = (did, params.clone());
        if let Some(x) = self.memo.get(&key) {
            return x.clone();
        }
        if !self.active.insert(key.clone()) {
            let m = params.iter().copied().max().unwrap_or(T::Clean);
            return (m, params);
        }
        let tcx = self.r.tcx;
        let body: &'t Body<'t> = tcx.optimized_mir(did);
        let bases = self.bases(body);
        let n = body.basic_blocks.len();
        let mut ins: Vec<Option<St>> = vec![None; n];
        let mut s0 = St::new();
        for (i, t) in params.iter().enumerate() {
            if *t != T::Clean {
                s0.insert(Local::from_usize(i + 1), *t);
            }
        }
        ins[0] = Some(s0);
        let mut work = vec![START_BLOCK];
        let mut ret = T::Clean;
        let mut outp: Vec<T> = vec![T::Clean; body.arg_count];
        let pdom = control_regions(body);
        while let Some(bb) = work.pop() {
            let mut s = ins[bb.as_usize()].clone().unwrap();
            let data = &body.basic_blocks[bb];
            for st in &data.statements {
                if let StatementKind::Assign(b) = &st.kind {
                    let (d, rv) = &**b;
                    let mut t = T::Clean;
                    let mut see = |x: T| t = t.max(x);
                    match rv {
                        Rvalue::Discriminant(p) => see(get(&s, p.local)),
                        Rvalue::Ref(_, _, p) | Rvalue::RawPtr(_, p) | Rvalue::CopyForDeref(p) => see(get(&s, p.local)),
                        Rvalue::Use(o, ..) | Rvalue::Repeat(o, _) | Rvalue::Cast(_, o, _) | Rvalue::UnaryOp(_, o) | Rvalue::WrapUnsafeBinder(o, _) => see(self.op(&s, o)),
                        Rvalue::BinaryOp(_, x) => {
                            see(self.op(&s, &x.0));
                            see(self.op(&s, &x.1));
                        }
                        Rvalue::Aggregate(_, os) => {
                            for o in os.iter() {
                                see(self.op(&s, o));
                            }
                        }
                        _ => {}
                    }
                    // values chosen under a condition that depends on the order
                    if let Some(c) = pdom.get(&bb) {
                        for l in c {
                            if get(&s, *l) != T::Clean {
                                t = t.max(T::Value);
                            }
                        }
                    }
                    if d.projection.is_empty() {
                        s.insert(d.local, t);
                    } else {
                        self.taint_through(&mut s, &bases, d.local, t);
                    }
                }
            }
            let term = data.terminator();
            match &term.kind {
                TerminatorKind::Call { func, args, destination, target, fn_span, .. } => {
                    let ts: Vec<T> = args.iter().map(|a| self.op(&s, &a.node)).collect();
                    let (t, outs) = self.call(body, did, func, args.iter().map(|a| &a.node).collect(), &ts, destination.ty(body, tcx).ty, *fn_span);
                    for (a, o) in args.iter().zip(&outs) {
                        if let Some(p) = a.node.place() {
                            match o {
                                None => {
                                    // the order is removed
                                    let mut ls: Vec<Local> = vec![p.local];
                                    ls.extend(bases.get(&p.local).cloned().unwrap_or_default());
                                    for l in ls {
                                        s.insert(l, T::Clean);
                                    }
                                }
                                Some(o) => self.taint_through(&mut s, &bases, p.local, *o),
                            }
                        }
                    }
                    if destination.projection.is_empty() {
                        s.insert(destination.local, t);
                    } else {
                        self.taint_through(&mut s, &bases, destination.local, t);
                    }
                    let _ = target;
                }
                TerminatorKind::Return => {
                    ret = ret.max(get(&s, RETURN_PLACE));
                    for i in 0..body.arg_count {
                        let l = Local::from_usize(i + 1);
                        if has_mut_ref(body.local_decls[l].ty) {
                            outp[i] = outp[i].max(get(&s, l));
                        }
                    }
                }
                _ => {}
            }
            for nx in term.successors() {
                let e = &mut ins[nx.as_usize()];
                match e {
                    None => {
                        *e = Some(s.clone());
                        work.push(nx);
                    }
                    Some(o) => {
                        let mut ch = false;
                        for (l, t) in &s {
                            let x = o.entry(*l).or_insert(T::Clean);
                            if *t > *x {
                                *x = *t;
                                ch = true;
                            }
                        }
                        if ch {
                            work.push(nx);
                        }
                    }
                }
            }
        }
        self.active.remove(&key);
        self.memo.insert(key, (ret, outp.clone()));
        (ret, outp)
    }

    fn call(&mut self, body: &Body<'t>, owner: DefId, f: &Operand<'t>, args: Vec<&Operand<'t>>, ts: &[T], dest: Ty<'t>, sp: Span) -> (T, Vec<Option<T>>) {
        let tcx = self.r.tcx;
        let mx = ts.iter().copied().max().unwrap_or(T::Clean);
        // by default: the result and everything reachable through mutable references depends on all arguments
        let dflt = |body: &Body<'t>| -> Vec<Option<T>> {
            args.iter().map(|a| if has_mut_ref(a.ty(body, tcx)) { Some(mx) } else { Some(T::Clean) }).collect()
        };
        let Some((did, ga)) = f.const_fn_def() else {
            return (mx, dflt(body));
        };
        let path = self.r.path(did);
        let name = tcx.opt_item_name(did).map(|s| s.to_string()).unwrap_or_default();
        let arg_ty = |i: usize| args.get(i).map(|a| a.ty(body, tcx));
        // local functions and closures
        let env = ty::TypingEnv::post_analysis(tcx, owner);
        let resolved = ty::Instance::try_resolve(tcx, env, did, ga).ok().flatten().map(|i| i.def_id()).unwrap_or(did);
        if let Some(l) = resolved.as_local() {
            if tcx.is_mir_available(resolved) && !tcx.is_constructor(l.to_def_id()) {
                let mut p: Vec<T> = ts.to_vec();
                let b2 = tcx.optimized_mir(resolved);
                if tcx.is_closure_like(resolved) {
                    // (env, tuple) -> env, a, b, ...
                    let t = p.get(1).copied().unwrap_or(T::Clean);
                    p.truncate(1);
                    while p.len() < b2.arg_count {
                        p.push(t);
                    }
                }
                p.resize(b2.arg_count, T::Clean);
                let (r, o) = self.func(resolved, p);
                let mut o: Vec<Option<T>> = o.into_iter().map(Some).collect();
                o.resize(args.len(), Some(T::Clean));
                return (r, o);
            }
        }
        // sources: iteration over a hash container
        const ITER: &[&str] = &["iter", "iter_mut", "keys", "values", "values_mut", "into_iter", "into_keys", "into_values", "drain", "retain", "extract_if", "difference", "intersection", "union", "symmetric_difference"];
        if ITER.contains(&name.as_str()) && arg_ty(0).is_some_and(|t| self.hash_ty(t)) {
            let at = format!("{} in {} at {}", path, self.r.path(owner), self.r.loc(sp));
            self.sources.insert(at.clone());
            self.first.entry(owner).or_insert((at, sp));
            let t = mx.max(T::Order);
            return (t, args.iter().map(|_| Some(T::Clean)).collect());
        }
        if name == "fmt" && arg_ty(0).is_some_and(|t| self.hash_ty(t)) {
            return (T::Value, dflt(body));
        }
        if mx == T::Clean {
            return (T::Clean, dflt(body));
        }
        let clean_outs = |_: ()| -> Vec<Option<T>> { args.iter().map(|_| Some(T::Clean)).collect() };
        match name.as_str() {
            // not affected by the order
            "len" | "is_empty" | "contains" | "contains_key" | "count" | "any" | "all" | "min" | "max" | "sum" | "capacity" | "is_disjoint" | "is_subset" | "is_superset"
                if mx == T::Order =>
            {
                return (T::Clean, clean_outs(()));
            }
            "sort" | "sort_unstable" if mx == T::Order => {
                self.cleaned.insert(format!("{} at {}", path, self.r.loc(sp)));
                return (T::Clean, vec![None]);
            }
            "sort_by" | "sort_unstable_by" | "sort_by_key" | "sort_unstable_by_key" | "sort_by_cached_key" if mx == T::Order && self.total_key(ga, &name) => {
                self.cleaned.insert(format!("{} at {}", path, self.r.loc(sp)));
                return (T::Clean, args.iter().enumerate().map(|(i, _)| if i == 0 { None } else { Some(T::Clean) }).collect());
            }
            // positions in the order become values
            "enumerate" | "zip" | "scan" | "take" | "skip" | "step_by" | "take_while" | "skip_while" | "nth" | "last" | "find" | "position" | "find_map" | "fold" | "reduce" | "chunks"
            | "windows" | "map_while" | "min_by_key" | "max_by_key" | "min_by" | "max_by" => return (T::Value, dflt(body)),
            "collect" | "from_iter" if mx == T::Order && self.set_ty(dest) => {
                self.cleaned.insert(format!("{} at {}", path, self.r.loc(sp)));
                return (T::Clean, clean_outs(()));
            }
            "collect" | "from_iter" if self.map_ty(dest) => return (T::Value, dflt(body)),
            "insert" | "extend" | "replace" if ts[0] == T::Clean && mx == T::Order && arg_ty(0).is_some_and(|t| self.set_ty(t)) => {
                self.cleaned.insert(format!("{} at {}", path, self.r.loc(sp)));
                return (T::Clean, clean_outs(()));
            }
            "insert" | "extend" | "entry" if arg_ty(0).is_some_and(|t| self.map_ty(t)) => return (T::Value, args.iter().map(|a| if has_mut_ref(a.ty(body, tcx)) { Some(T::Value) } else { Some(T::Clean) }).collect()),
            "next" | "next_back" => {
                // the iterator keeps its taint
                return (mx, args.iter().map(|_| Some(T::Clean)).collect());
            }
            _ => {}
        }
        (mx, dflt(body))
    }

    /// Does the comparison or key of a sort determine the order completely?
    fn total_key(&mut self, ga: ty::GenericArgsRef<'t>, name: &str) -> bool {
        let tcx = self.r.tcx;
        let mut elem = None;
        let mut ok = false;
        for a in ga.types() {
            if elem.is_none() {
                elem = Some(a);
            }
            if let ty::Closure(d, ca) = a.kind() {
                let body = tcx.optimized_mir(*d);
                if name.contains("key") {
                    let r = ca.as_closure().sig().skip_binder().output();
                    ok = Some(r.peel_refs()) == elem;
                } else {
                    for bb in body.basic_blocks.iter() {
                        if let TerminatorKind::Call { func, .. } = &bb.terminator().kind {
                            if let Some((cd, cga)) = func.const_fn_def() {
                                let n = tcx.item_name(cd);
                                if (n.as_str() == "cmp" || n.as_str() == "partial_cmp") && cga.types().next().map(|t| t.peel_refs()) == elem {
                                    ok = true;
                                }
                            }
                        }
                    }
                }
            }
            if let ty::FnDef(d, _) = a.kind() {
                let n = tcx.item_name(*d);
                ok |= n.as_str() == "cmp" && !name.contains("key");
            }
        }
        ok
    }
}

fn has_ref(t: Ty<'_>) -> bool {
    t.walk().any(|a| a.as_type().is_some_and(|t| t.is_ref() || t.is_raw_ptr()) || a.as_region().is_some())
}
fn has_mut_ref(t: Ty<'_>) -> bool {
    match t.kind() {
        ty::Ref(_, t2, m) => m.is_mut() || has_mut_ref(*t2),
        ty::Closure(_, a) => a.as_closure().upvar_tys().iter().any(has_mut_ref),
        ty::Adt(_, a) => a.types().any(has_mut_ref) || a.regions().next().is_some(),
        ty::Tuple(ts) => ts.iter().any(has_mut_ref),
        _ => false,
    }
}

/// For every block, the locals switched on that it is control dependent on, except discriminants of
/// `Option` (the end of an iteration does not depend on the order)
fn control_regions<'t>(body: &Body<'t>) -> HashMap<BasicBlock, Vec<Local>> {
    let n = body.basic_blocks.len();
    // post-dominators over non-unwinding edges
    let succ: Vec<Vec<usize>> = body
        .basic_blocks
        .iter()
        .map(|b| {
            let t = b.terminator();
            match &t.kind {
                TerminatorKind::Call { target, .. } => target.iter().map(|x| x.as_usize()).collect(),
                TerminatorKind::Drop { target, .. } | TerminatorKind::Assert { target, .. } => vec![target.as_usize()],
                _ => t.successors().map(|x| x.as_usize()).collect(),
            }
        })
        .collect();
    let full: HashSet<usize> = (0..n).collect();
    let mut pd: Vec<HashSet<usize>> = (0..n).map(|i| if succ[i].is_empty() { [i].into() } else { full.clone() }).collect();
    loop {
        let mut ch = false;
        for i in (0..n).rev() {
            if succ[i].is_empty() {
                continue;
            }
            // paths that end in a panic are ignored
            let ss: Vec<&HashSet<usize>> = succ[i]
                .iter()
                .filter(|s| !(succ[**s].is_empty() && !matches!(body.basic_blocks[BasicBlock::from_usize(**s)].terminator().kind, TerminatorKind::Return)))
                .map(|s| &pd[*s])
                .collect();
            let mut x: HashSet<usize> = match ss.first() {
                None => HashSet::new(),
                Some(f) => ss.iter().skip(1).fold((*f).clone(), |a, b| a.intersection(b).copied().collect()),
            };
            x.insert(i);
            if x != pd[i] {
                pd[i] = x;
                ch = true;
            }
        }
        if !ch {
            break;
        }
    }
    let mut res: HashMap<BasicBlock, Vec<Local>> = HashMap::new();
    for (i, b) in body.basic_blocks.iter_enumerated() {
        if let TerminatorKind::SwitchInt { discr, .. } = &b.terminator().kind {
            let Some(p) = discr.place() else { continue };
            // discriminant of an Option?
            let mut opt = false;
            for st in &b.statements {
                if let StatementKind::Assign(x) = &st.kind {
                    if x.0.local == p.local {
                        if let Rvalue::Discriminant(q) = &x.1 {
                            opt = matches!(body.local_decls[q.local].ty.peel_refs().kind(), ty::Adt(d, _) if d.is_enum() && d.variants().len() == 2);
                        }
                    }
                }
            }
            if opt {
                continue;
            }
            let i = i.as_usize();
            // blocks reachable from the switch before its post-dominators
            let mut seen = HashSet::new();
            let mut w: Vec<usize> = succ[i].clone();
            while let Some(x) = w.pop() {
                if pd[i].contains(&x) || !seen.insert(x) {
                    continue;
                }
                res.entry(BasicBlock::from_usize(x)).or_default().push(p.local);
                w.extend(&succ[x]);
            }
        }
    }
    res
}

fn p20<'t>(r: &mut R<'t>) {
    let tcx = r.tcx;
    let mut bodies: Vec<DefId> = vec![];
    for &d in tcx.mir_keys(()).iter() {
        let did = d.to_def_id();
        match tcx.def_kind(did) {
            DefKind::Static { mutability, .. } => {
                let t = tcx.type_of(did).instantiate_identity().skip_norm_wip();
                let env = ty::TypingEnv::post_analysis(tcx, did);
                r.stat("P20.statics", r.path(did));
                if mutability.is_mut() || !t.is_freeze(tcx, env) {
                    r.find("P20", format!("global mutable state: static {}", r.path(did)), did, tcx.def_span(did));
                }
            }
            DefKind::Fn | DefKind::AssocFn | DefKind::Closure => {
                if tcx.is_mir_available(did) {
                    bodies.push(did);
                }
            }
            _ => {}
        }
    }
    for &did in &bodies {
        let body = tcx.optimized_mir(did);
        r.stat("P20.functions", r.path(did));
        for bb in body.basic_blocks.iter() {
            for st in &bb.statements {
                if let StatementKind::Assign(b) = &st.kind {
                    if let Rvalue::Cast(k, _, _) = &b.1 {
                        if matches!(k, CastKind::PointerExposeProvenance) {
                            r.find("P20", "the address of a value is used as data".into(), did, st.source_info.span);
                        }
                    }
                    if let Rvalue::ThreadLocalRef(_) = &b.1 {
                        r.find("P20", "thread-local state".into(), did, st.source_info.span);
                    }
                }
            }
            // calls and function values
            let mut used: Vec<(DefId, ty::GenericArgsRef<'t>, Span)> = vec![];
            struct V<'b, 't>(&'b mut Vec<(DefId, ty::GenericArgsRef<'t>, Span)>);
            impl<'b, 't> visit::Visitor<'t> for V<'b, 't> {
                fn visit_const_operand(&mut self, c: &ConstOperand<'t>, _: Location) {
                    if let ty::FnDef(d, a) = c.const_.ty().kind() {
                        let a = a.no_bound_vars().unwrap_or_else(|| a.skip_binder());
                        self.0.push((*d, a, c.span));
                    }
                }
            }
            use rustc_middle::mir::visit::Visitor as _;
            for (i, st) in bb.statements.iter().enumerate() {
                V(&mut used).visit_statement(st, Location { block: START_BLOCK, statement_index: i });
            }
            V(&mut used).visit_terminator(bb.terminator(), Location { block: START_BLOCK, statement_index: 0 });
            for (d, a, sp) in used {
                let env = ty::TypingEnv::post_analysis(tcx, did);
                let mut names = vec![std_path(&r.path(d))];
                if let Ok(Some(i)) = ty::Instance::try_resolve(tcx, env, d, a) {
                    names.push(r.path(i.def_id()));
                    // methods of ambient types are named after the type
                    if let Some(im) = tcx.impl_of_assoc(i.def_id()) {
                        let t = tcx.type_of(im).instantiate_identity().skip_norm_wip();
                        if let Some(ad) = t.ty_adt_def() {
                            names.push(format!("{}::{}", r.path(ad.did()), tcx.item_name(i.def_id())));
                        }
                    }
                }
                if tcx.is_foreign_item(d) {
                    r.find("P20", format!("call of the foreign function {}", r.path(d)), did, sp);
                }
                if !d.is_local() {
                    r.stat("P20.external_callees", names[0].clone());
                }
                for n in &names {
                    if ambient(n) {
                        r.find("P20", format!("ambient effect or input: {n}"), did, sp);
                    }
                    if n.contains("Pointer") && n.contains("fmt") || (n.contains("::addr") && n.contains("ptr")) || n.ends_with("expose_provenance") {
                        r.find("P20", format!("the address of a value is used as data: {n}"), did, sp);
                    }
                }
            }
        }
    }
    // iteration order
    let ev = tcx.effective_visibilities(());
    let mut fl = Flow { r, memo: HashMap::new(), active: HashSet::new(), sources: BTreeSet::new(), cleaned: BTreeSet::new(), first: HashMap::new() };
    let mut bad = vec![];
    for &did in &bodies {
        if tcx.is_closure_like(did) {
            continue;
        }
        let body = tcx.optimized_mir(did);
        let (ret, outs) = fl.func(did, vec![T::Clean; body.arg_count]);
        let l = did.expect_local();
        let public = ev.is_reachable(l) || tcx.impl_of_assoc(did).is_some_and(|i| tcx.impl_opt_trait_ref(i).is_some());
        if public && (ret != T::Clean || outs.iter().any(|t| *t != T::Clean)) {
            bad.push((did, ret));
        }
    }
    let firsts = std::mem::take(&mut fl.first);
    let (src, cl) = (std::mem::take(&mut fl.sources), std::mem::take(&mut fl.cleaned));
    for (did, _) in bad {
        let via = firsts.get(&did).map(|x| x.0.clone()).or_else(|| src.iter().next().cloned()).unwrap_or_default();
        let sp = firsts.get(&did).map(|x| x.1).unwrap_or(tcx.def_span(did));
        r.find("P20", format!("a result of {} depends on the iteration order of a hash container: {via}", r.path(did)), did, sp);
    }
    r.stats.insert("P20.hash_iterations".into(), src);
    r.stats.insert("P20.order_removed".into(), cl);
}

pub fn run<'t>(tcx: TyCtxt<'t>) -> Json {
    let mut r = R { tcx, findings: vec![], stats: BTreeMap::new() };
    p19(&mut r);
    p20(&mut r);
    Json::O(vec![
        (
            "findings".into(),
            Json::A(
                r.findings
                    .iter()
                    .map(|f| {
                        Json::O(vec![
                            ("prop".into(), Json::s(f.prop)),
                            ("msg".into(), Json::s(&*f.msg)),
                            ("func".into(), Json::s(&*f.func)),
                            ("loc".into(), Json::s(&*f.loc)),
                        ])
                    })
                    .collect(),
            ),
        ),
        ("stats".into(), Json::O(r.stats.iter().map(|(k, v)| (k.clone(), Json::strs(v.iter()))).collect())),
    ])
}
