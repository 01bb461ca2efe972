//! Abstract interpreter for MIR: forward analysis with inlining, partitioned states and fixpoints
//! at loop heads.
use crate::join::*;
use crate::lin::*;
use crate::ops::*;
use crate::val::{Seg, ObjId, Pr, Rope, SeqV, Src, State, Val};
use rustc_middle::mir::*;
use rustc_middle::ty::{self, Instance, Ty, TyCtxt, TypeVisitableExt};
use rustc_span::def_id::DefId;
use rustc_span::Span;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use std::rc::Rc;

pub enum Stop {
    /// The step needs one of these conditions to be decided; it is repeated under each
    Split(Vec<Cond>),
    /// The state is infeasible or the step does not return
    Dead,
    /// The analysis cannot interpret this
    Unsup(String),
}
pub type R<T> = Result<T, Stop>;
pub type Outs<'t> = Vec<(State<'t>, Val<'t>)>;

pub fn unsup<T>(s: impl Into<String>) -> R<T> {
    Err(Stop::Unsup(s.into()))
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Krate {
    Gif,
    Harness,
    Other,
}

pub struct FnInfo<'t> {
    pub inst: Instance<'t>,
    pub body: &'t Body<'t>,
    pub tys: Vec<Ty<'t>>,
    pub order: Vec<u32>,
    pub head: Vec<bool>,
    pub live: Vec<Vec<bool>>,
    pub path: String,
    pub krate: Krate,
    pub unroll: bool,
}

pub struct Frame<'t> {
    pub path: String,
    pub krate: Krate,
    pub span: Span,
    pub inst: Instance<'t>,
    pub track_caller: bool,
}

#[derive(Clone, Debug)]
pub struct Finding {
    pub prop: String,
    pub kind: String,
    pub msg: String,
    pub func: String,
    pub loc: String,
    pub stack: Vec<String>,
    pub trace: Vec<String>,
    pub facts: String,
}

#[derive(Default, Debug)]
pub struct Stats {
    pub steps: u64,
    pub joins: u64,
    pub fns: BTreeSet<String>,
    pub gif_fns: BTreeSet<String>,
    pub panic_sites: BTreeSet<String>,
    pub obligations: BTreeMap<String, BTreeSet<String>>,
    pub proved: BTreeMap<String, u64>,
    pub opaque: BTreeMap<String, u64>,
    pub loops: BTreeSet<String>,
    pub models: BTreeSet<String>,
    pub alloc_sites: BTreeSet<String>,
    pub maxstates: usize,
    pub reached: BTreeSet<String>,
    pub steps_hooked: u64,
}

pub struct HeadInfo<'t> {
    pub st: State<'t>,
    pub gen: BTreeSet<Sym>,
    pub gen_bases: BTreeSet<u32>,
    pub round: usize,
    pub version: usize,
}

pub struct Item<'t> {
    bb: usize,
    stmt: usize,
    st: State<'t>,
    lin: Option<(usize, usize)>,
    seq: u64,
}

pub struct I<'t> {
    pub tcx: TyCtxt<'t>,
    pub env: ty::TypingEnv<'t>,
    pub next_obj: ObjId,
    pub obj_ty: HashMap<ObjId, Ty<'t>>,
    pub cache: HashMap<Instance<'t>, Option<Rc<FnInfo<'t>>>>,
    pub stack: Vec<Frame<'t>>,
    pub findings: BTreeMap<String, Finding>,
    pub panic_prop: String,
    pub stats: Stats,
    pub models: HashMap<String, DefId>,
    pub debug: u32,
    pub globals: HashMap<String, ObjId>,
    /// globals that never change
    pub const_objs: HashSet<ObjId>,
    pub base_state: State<'t>,
    pub names: HashMap<DefId, Rc<str>>,
    pub step_hook: Option<DefId>,
    pub hook_busy: bool,
    pub mon: Option<(Val<'t>, Ty<'t>)>,
    pub deadline: std::time::Instant,
    pub entry: String,
    pub drop_cache: HashMap<Ty<'t>, bool>,
    pub unroll_all: u32,
    /// forget the composition of byte sequences at loop heads
    pub coarse: bool,
    pub memo: crate::memo::Memo<'t>,
    pub merge_limit: usize,
    pub loop_report: BTreeMap<String, String>,
    pub alloc_limit: Option<Lin>,
    /// the element of a sequence that is followed through loops
    pub wit: Option<(u32, Lin)>,
    pub alloc_exempt: Vec<Lin>,
    pub no_oom: bool,
    /// Objects that no local refers to but that must survive
    pub hold: Vec<ObjId>,
}

pub fn usize_max() -> i128 {
    u64::MAX as i128
}
pub const MAX_LEN: i128 = i64::MAX as i128;

impl<'t> I<'t> {
    pub fn new(tcx: TyCtxt<'t>) -> Self {
        I {
            tcx,
            env: ty::TypingEnv::fully_monomorphized(),
            next_obj: 1000,
            obj_ty: HashMap::new(),
            cache: HashMap::new(),
            stack: vec![],
            findings: BTreeMap::new(),
            panic_prop: "P01".into(),
            stats: Stats::default(),
            models: HashMap::new(),
            debug: std::env::var("GIFSA_DEBUG").ok().and_then(|x| x.parse().ok()).unwrap_or(0),
            globals: HashMap::new(),
            const_objs: HashSet::new(),
            base_state: State::new(),
            names: HashMap::new(),
            step_hook: None,
            hook_busy: false,
            mon: None,
            deadline: std::time::Instant::now() + std::time::Duration::from_secs(600),
            entry: String::new(),
            drop_cache: HashMap::new(),
            unroll_all: 0,
            coarse: false,
            memo: Default::default(),
            merge_limit: 200,
            loop_report: BTreeMap::new(),
            alloc_limit: None,
            wit: None,
            alloc_exempt: vec![],
            no_oom: false,
            hold: vec![],
        }
    }
    pub fn name(&mut self, d: DefId) -> Rc<str> {
        if let Some(n) = self.names.get(&d) {
            return n.clone();
        }
        let mut n: String = rustc_middle::ty::print::with_no_trimmed_paths!(self.tcx.def_path_str(d));
        if d.is_local() && !n.starts_with('<') {
            n = format!("{}::{n}", self.tcx.crate_name(d.krate));
        }
        let n: Rc<str> = n.into();
        self.names.insert(d, n.clone());
        n
    }
    pub fn krate(&self, d: DefId) -> Krate {
        let n = self.tcx.crate_name(d.krate);
        match n.as_str() {
            "gif" => Krate::Gif,
            "gifsa_harness" => Krate::Harness,
            _ => Krate::Other,
        }
    }
    // ------------------------------------------------------------------------------ functions
    pub fn info(&mut self, inst: Instance<'t>) -> Option<Rc<FnInfo<'t>>> {
        if let Some(i) = self.cache.get(&inst) {
            return i.clone();
        }
        let r = self.make_info(inst);
        self.cache.insert(inst, r.clone());
        r
    }
    fn make_info(&mut self, inst: Instance<'t>) -> Option<Rc<FnInfo<'t>>> {
        let did = inst.def_id();
        match inst.def {
            ty::InstanceKind::Item(d) => {
                if !self.tcx.is_mir_available(d) {
                    return None;
                }
            }
            ty::InstanceKind::Intrinsic(_) | ty::InstanceKind::LlvmIntrinsic(_) | ty::InstanceKind::Virtual(..) => return None,
            ty::InstanceKind::Shim(_) => {}
        }
        let body = self.tcx.instance_mir(inst.def);
        let mut tys = vec![];
        for l in body.local_decls.iter() {
            let t = inst.instantiate_mir_and_normalize_erasing_regions(self.tcx, self.env, ty::EarlyBinder::bind(self.tcx, l.ty));
            tys.push(t);
        }
        let n = body.basic_blocks.len();
        let succ: Vec<Vec<usize>> = body.basic_blocks.iter().map(|b| succs(b.terminator())).collect();
        let (order, head) = wto(n, &succ);
        let live = liveness(body, &succ);
        let path = self.name(did).to_string();
        let krate = self.krate(did);
        let unroll = path.contains("unroll");
        Some(Rc::new(FnInfo { inst, body, tys, order, head, live, path, krate, unroll }))
    }
    pub fn mono<T: ty::TypeFoldable<TyCtxt<'t>>>(&self, inst: Instance<'t>, t: T) -> T {
        inst.instantiate_mir_and_normalize_erasing_regions(self.tcx, self.env, ty::EarlyBinder::bind(self.tcx, t))
    }
    pub fn alloc(&mut self, st: &mut State<'t>, v: Val<'t>, ty: Ty<'t>) -> ObjId {
        let o = self.next_obj;
        self.next_obj += 1;
        self.obj_ty.insert(o, ty);
        st.objs.insert(o, v);
        o
    }

    pub fn exec_fn(&mut self, st: State<'t>, info: Rc<FnInfo<'t>>, args: Vec<Val<'t>>, span: Span) -> R<Outs<'t>> {
        if self.coarse && info.krate == Krate::Gif && self.mon.is_none() && self.step_hook.is_none() && self.unroll_all == 0 && info.head.iter().any(|h| *h) && !self.stack.iter().any(|f| f.inst == info.inst) {
            if let Some(o) = self.summarized(&st, &info, &args, span)? {
                return Ok(o);
            }
        }
        self.exec_plain(st, info, args, span)
    }
    pub fn exec_plain(&mut self, st: State<'t>, info: Rc<FnInfo<'t>>, args: Vec<Val<'t>>, span: Span) -> R<Outs<'t>> {
        if self.stack.len() > 70 {
            return unsup(format!("call depth at {}", info.path));
        }
        self.stats.fns.insert(info.path.clone());
        if info.krate == Krate::Gif {
            self.stats.gif_fns.insert(info.path.clone());
        }
        let base = self.next_obj;
        self.next_obj += info.body.local_decls.len() as u32;
        for (i, t) in info.tys.iter().enumerate() {
            self.obj_ty.insert(base + i as u32, *t);
        }
        let mut st = st;
        for (i, a) in args.into_iter().enumerate() {
            st.objs.insert(base + 1 + i as u32, a);
        }
        let tc = matches!(info.inst.def, ty::InstanceKind::Item(d) if self.tcx.codegen_fn_attrs(d).flags.contains(rustc_middle::middle::codegen_fn_attrs::CodegenFnAttrFlags::TRACK_CALLER));
        self.stack.push(Frame { path: info.path.clone(), krate: info.krate, span, inst: info.inst, track_caller: tc });
        let r = self.run_body(st, &info, base);
        self.stack.pop();
        r
    }

    fn run_body(&mut self, st: State<'t>, info: &Rc<FnInfo<'t>>, base: ObjId) -> R<Outs<'t>> {
        let mut work: Vec<Item<'t>> = vec![Item { bb: 0, stmt: 0, st, lin: None, seq: 0 }];
        let mut heads: Vec<HeadInfo<'t>> = vec![];
        let mut table: HashMap<(usize, u64), usize> = HashMap::new();
        let mut done: Vec<(State<'t>, Val<'t>, Option<(usize, usize)>)> = vec![];
        let mut seq = 0u64;
        let mut counts: HashMap<usize, usize> = HashMap::new();
        let nl = info.body.local_decls.len() as u32;
        while !work.is_empty() {
            // lowest block in weak topological order first
            let mut bi = 0;
            for (i, w) in work.iter().enumerate() {
                let k = (info.order[w.bb], w.seq);
                let b = (info.order[work[bi].bb], work[bi].seq);
                if k < b {
                    bi = i;
                }
            }
            let mut it = work.swap_remove(bi);
            self.stats.maxstates = self.stats.maxstates.max(work.len());
            if let Some((e, v)) = it.lin {
                if heads[e].version != v {
                    continue;
                }
            }
            if std::time::Instant::now() > self.deadline {
                return unsup(format!("time limit in {}", info.path));
            }
            if it.stmt == 0 && info.head[it.bb] {
                // liveness pruning
                self.prune(&mut it.st, info, base, nl, it.bb);
                if info.unroll || self.unroll_all > 0 && info.krate != Krate::Harness {
                    let c = counts.entry(it.bb).or_insert(0);
                    *c += 1;
                    if *c > 4000 {
                        return unsup(format!("unrolling limit in {}", info.path));
                    }
                } else {
                    if self.coarse {
                        coarsen(&mut it.st);
                    }
                    self.assume_state(&mut it.st);
                    if it.st.facts.bottom {
                        continue;
                    }
                    let mut key = self.part_key(&it.st);
                    // what the references of this frame point to outside of it
                    {
                        use std::hash::{Hash, Hasher};
                        let mut h = std::collections::hash_map::DefaultHasher::new();
                        fn places<'a, 't>(v: &'a Val<'t>, depth: u32, out: &mut Vec<&'a crate::val::Place>) {
                            match v {
                                Val::Ref(p) | Val::Slice(p, _, _) => out.push(p),
                                Val::Agg(f) if depth < 4 => f.iter().for_each(|x| places(x, depth + 1, out)),
                                _ => {}
                            }
                        }
                        for o in base..base + nl {
                            let mut ps = vec![];
                            if let Some(v) = it.st.objs.get(&o) {
                                places(v, 0, &mut ps);
                            }
                            for p in ps {
                                if p.obj < base {
                                    (o, p.obj).hash(&mut h);
                                    for x in p.pr.iter() {
                                        match x {
                                            crate::val::Pr::I(_) => 0u32.hash(&mut h),
                                            crate::val::Pr::F(i) => i.hash(&mut h),
                                            crate::val::Pr::V(k, i) => (k, i).hash(&mut h),
                                        }
                                    }
                                }
                            }
                        }
                        key = key.rotate_left(7) ^ h.finish();
                    }
                    self.stats.loops.insert(format!("{}:bb{}", info.path, it.bb));
                    match table.get(&(it.bb, key)) {
                        None => {
                            let e = heads.len();
                            heads.push(HeadInfo { st: it.st.clone(), gen: BTreeSet::new(), gen_bases: BTreeSet::new(), round: 0, version: 0 });
                            table.insert((it.bb, key), e);
                            if heads.len() > 3000 {
                                return unsup(format!("too many loop partitions in {}", info.path));
                            }
                            it.lin = Some((e, 0));
                        }
                        Some(&e) => {
                            let h = &mut heads[e];
                            match subsumes(&h.st, &h.gen, &h.gen_bases, &it.st) {
                                Ok(()) => continue,
                                Err(why) => {
                                    if self.debug >= 2 {
                                        eprintln!("join {} bb{} round {} key {:x}: {}", info.path, it.bb, h.round, key, why);
                                    }
                                }
                            }
                            self.stats.joins += 1;
                            let j = self.join_states(&h.st, &it.st, h.round);
                            h.round += 1;
                            h.version += 1;
                            if h.round > 40 {
                                if self.debug >= 1 {
                                    eprintln!("no convergence {} bb{}\n{:?}", info.path, it.bb, h.st.facts);
                                    for (o, v) in &h.st.objs {
                                        eprintln!("  obj{o}: {v:?}");
                                    }
                                }
                                return unsup(format!("no fixpoint in {}", info.path));
                            }
                            let mut gen: BTreeSet<Sym> = h.gen.iter().copied().collect();
                            gen.extend(j.gen);
                            let mut gb: BTreeSet<u32> = h.gen_bases.clone();
                            gb.extend(j.gen_bases);
                            let mut s = j.st;
                            rebind(&mut s, &mut gen, &mut gb);
                            self.prune_syms(&mut s);
                            h.st = s.clone();
                            h.gen = gen;
                            h.gen_bases = gb;
                            if self.debug >= 3 {
                                eprintln!("HEAD {} bb{} round {} key {key:x}\n in: {:?}\n   facts {:?}\n out {:?}\n    facts {:?}", info.path, it.bb, h.round, it.st.objs, it.st.facts, h.st.objs, h.st.facts);
                            }
                            it.st = s;
                            it.lin = Some((e, h.version));
                        }
                    }
                }
            }
            self.run_block(it, info, base, &mut work, &mut done, &mut seq)?;
        }
        if self.debug >= 2 && !heads.is_empty() {
            let mut m: BTreeMap<usize, usize> = BTreeMap::new();
            table.keys().for_each(|k| *m.entry(k.0).or_default() += 1);
            eprintln!("heads {}: {:?} joins {} depth {}", info.path, m, self.stats.joins, self.stack.len());
        }
        let mut outs: Outs<'t> = vec![];
        for (mut s, v, lin) in done {
            if let Some((e, ver)) = lin {
                if heads[e].version != ver {
                    continue;
                }
            }
            for i in 0..nl {
                s.objs.remove(&(base + i));
            }
            outs.push((s, v));
        }
        if outs.len() > self.merge_limit {
            outs = self.merge(outs, info);
        }
        Ok(outs)
    }

    /// Join results that agree on the partition key
    pub fn merge(&mut self, outs: Outs<'t>, info: &Rc<FnInfo<'t>>) -> Outs<'t> {
        let n0 = outs.len();
        let mut groups: BTreeMap<u64, Vec<State<'t>>> = BTreeMap::new();
        let slot = self.next_obj;
        self.next_obj += 1;
        self.obj_ty.insert(slot, info.tys[0]);
        for (mut s, v) in outs {
            s.objs.insert(slot, v);
            let k = self.part_key(&s);
            groups.entry(k).or_default().push(s);
        }
        let mut r = vec![];
        for (_, g) in groups {
            let mut acc: Option<State<'t>> = None;
            for s in g {
                acc = Some(match acc {
                    None => s,
                    Some(a) => {
                        let mut j = self.join_states(&a, &s, 0).st;
                        self.prune_syms(&mut j);
                        j
                    }
                });
            }
            let mut s = acc.unwrap();
            let v = s.objs.remove(&slot).unwrap();
            r.push((s, v));
        }
        if self.debug >= 2 {
            eprintln!("merge {}: {} -> {}", info.path, n0, r.len());
        }
        r
    }

    fn prune(&mut self, st: &mut State<'t>, info: &FnInfo<'t>, base: ObjId, nl: u32, bb: usize) {
        let live = &info.live[bb];
        // objects reachable from anything but dead locals
        let is_dead = |o: ObjId| o >= base && o < base + nl && !live[(o - base) as usize];
        let mut keep: HashSet<ObjId> = HashSet::new();
        let mut work: Vec<ObjId> = st.objs.keys().copied().filter(|o| !is_dead(*o) && (*o < base + nl) && !self.const_objs.contains(o)).collect();
        if let Some((m, _)) = &self.mon {
            m.objs(&mut work);
        }
        for (v, _) in self.ghost_roots() {
            if !self.const_objs.contains(&v) {
                work.push(v);
            }
        }
        while let Some(o) = work.pop() {
            if !keep.insert(o) {
                continue;
            }
            if let Some(v) = st.objs.get(&o) {
                v.objs(&mut work);
            }
        }
        st.objs.retain(|o, _| keep.contains(o));
        self.prune_syms(st);
    }
    pub fn ghost_roots(&self) -> Vec<(ObjId, ())> {
        self.globals.values().chain(self.hold.iter()).map(|o| (*o, ())).collect()
    }
    pub fn prune_syms(&self, st: &mut State<'t>) {
        let mut live = val_syms_closure(&st.objs);
        let mut extra: BTreeSet<Sym> = BTreeSet::new();
        if let Some((b, k)) = &self.wit {
            extra.extend(k.t.iter().map(|x| x.0));
            extra.extend(elem(*b, k).t.iter().map(|x| x.0));
        }
        for l in self.alloc_limit.iter().chain(self.alloc_exempt.iter()) {
            extra.extend(l.t.iter().map(|x| x.0));
        }
        if let Some((m, _)) = &self.mon {
            m.syms(&mut extra);
        }
        live.extend(extra);
        elem_syms(&st.objs, &st.facts, &mut live);
        st.facts.project(&|s| live.contains(&s));
    }

    // ------------------------------------------------------------------------------ partitions
    pub fn part_key(&mut self, st: &State<'t>) -> u64 {
        use std::hash::{Hash, Hasher};
        let mut h = std::collections::hash_map::DefaultHasher::new();
        for (o, v) in &st.objs {
            if self.const_objs.contains(o) {
                continue;
            }
            let Some(t) = self.obj_ty.get(o).copied() else { continue };
            let mut k = vec![];
            self.key_val(&st.facts, v, t, 0, false, &mut k);
            if let (Val::Agg(fs), ty::Adt(d, _)) = (v, t.kind()) {
                // short explicit lists are walked through element by element
                if let (Some(Val::Slice(p, off, _)), true) = (fs.first(), d.is_struct() && self.name(d.did()).ends_with("slice::Iter")) {
                    if let (Some(c), Some(Val::Seq(q))) = (st.facts.norm(off).as_const(), place_in(st, p)) {
                        if q.elems.as_ref().map_or(false, |e| e.len() <= 4) {
                            k.push(c as i64 - 40);
                        }
                    }
                }
            }
            if self.wit.is_some() {
                self.wit_key(st, v, t, 0, &mut k);
            }
            if !k.is_empty() {
                o.hash(&mut h);
                k.hash(&mut h);
            }
        }
        if let Some(Val::Agg(f)) = self.globals.get("lzw").and_then(|o| st.objs.get(o)) {
            // the code size in use
            if let Val::Int(l) = &f[0] {
                st.facts.norm(l).as_const().hash(&mut h);
            }
        }
        h.finish()
    }
    /// Have positions in the sequence of the witness passed it?
    fn wit_key(&self, st: &State<'t>, v: &Val<'t>, t: Ty<'t>, depth: u32, out: &mut Vec<i64>) {
        let Some((wb, k)) = &self.wit else { return };
        let side = |p: &Lin| {
            let d = st.facts.norm(&p.sub(k));
            if st.facts.entails(&Cond::Le(d.clone()).simp()) {
                -20
            } else if st.facts.entails(&Cond::Le(d.neg().addk(1)).simp()) {
                -21
            } else {
                -22
            }
        };
        match v {
            Val::Slice(p, off, _) => {
                let c = place_in(st, p);
                if let Some(Val::Rope(r)) = c {
                    if let [Seg { src: Src::Base(b, s), .. }] = &r.0[..] {
                        if b == wb {
                            out.push(side(&s.add(off)));
                        }
                    }
                }
            }
            Val::Int(l) if depth == 0 && t.is_usize() => out.push(side(l)),
            Val::Agg(fs) if depth < 4 => {
                if let ty::Adt(d, g) = t.kind() {
                    if d.is_struct() && self.tcx.def_path_str(d.did()).ends_with("ops::Range") && g.type_at(0).is_usize() {
                        if let Val::Int(l) = &fs[0] {
                            out.push(side(l));
                        }
                        return;
                    }
                }
                for f in fs.iter() {
                    self.wit_key(st, f, self.tcx.types.unit, depth + 1, out);
                }
            }
            Val::Enum(_, m) if depth < 4 => {
                for f in m.values().flat_map(|f| f.iter()) {
                    self.wit_key(st, f, self.tcx.types.unit, depth + 1, out);
                }
            }
            _ => {}
        }
    }
    fn key_val(&mut self, f: &Facts, v: &Val<'t>, t: Ty<'t>, depth: u32, ghost: bool, out: &mut Vec<i64>) {
        match (v, t.kind()) {
            (Val::Bool(_), _) if self.coarse && !ghost => {}
            (Val::Bool(c), _) => {
                let r = match c {
                    Cond::True => Some(1),
                    Cond::False => Some(0),
                    c if ghost => {
                        if f.entails(c) {
                            Some(1)
                        } else if f.refutes(c) {
                            Some(0)
                        } else {
                            None
                        }
                    }
                    _ => None,
                };
                if let Some(r) = r {
                    out.push(r);
                } else {
                    out.push(-7);
                }
            }
            (Val::Agg(fs), ty::Adt(def, args)) if def.is_struct() => {
                let n = self.name(def.did());
                if &*n == "gif::Frame" || n.ends_with("::common::Frame") {
                    return;
                }
                let ghost = self.krate(def.did()) == Krate::Harness && !n.contains("Top");
                let kr = self.krate(def.did());
                if kr == Krate::Other && depth > 0 {
                    return;
                }
                for (i, fd) in def.non_enum_variant().fields.iter().enumerate() {
                    if let Some(fv) = fs.get(i) {
                        let ft = self.field_ty(fd, args);
                        if self.coarse && kr == Krate::Gif && matches!(ft.kind(), ty::Adt(d, _) if d.is_enum() && d.variants().len() < 3) {
                            continue;
                        }
                        self.key_val(f, fv, ft, depth, ghost, out);
                    }
                }
            }
            (Val::Agg(fs), ty::Tuple(ts)) => {
                for (fv, ft) in fs.iter().zip(ts.iter()) {
                    self.key_val(f, fv, ft, depth, ghost, out);
                }
            }
            (Val::Enum(d, m), ty::Adt(def, args)) => {
                let c = match d.as_const() {
                    Some(c) => Some(c),
                    None => f.norm(d).as_const(),
                };
                match c {
                    Some(c) => {
                        out.push(c as i64 + 2);
                        if depth < 2 {
                            if let Some(fs) = m.get(&(c as u32)) {
                                let var = def.variant((c as u32).into());
                                for (i, fd) in var.fields.iter().enumerate() {
                                    if let Some(fv) = fs.get(i) {
                                        let ft = self.field_ty(fd, args);
                                        self.key_val(f, fv, ft, depth + 1, ghost, out);
                                    }
                                }
                            }
                        }
                    }
                    None => out.push(-9),
                }
            }
            (Val::Int(l), _) if ghost => {
                // small constants of ghost state
                if let Some(c) = f.norm(l).as_const() {
                    if (-1..=4).contains(&c) {
                        out.push(c as i64 + 100);
                    }
                }
            }
            _ => {}
        }
    }
    /// Values of machine types are in range, slices within their sequences: true whatever the
    /// program does, but joins may have lost it.
    pub fn assume_state(&self, st: &mut State<'t>) {
        let mut out: Vec<(Lin, i128, i128)> = vec![];
        for (o, v) in &st.objs {
            if let Some(t) = self.obj_ty.get(o) {
                self.typed_ints(v, *t, &mut out);
            }
        }
        for (l, lo, hi) in out {
            let a = Lin::k(lo).sub(&l);
            if !st.facts.entails_le(&a) {
                st.facts.assume_le(&a);
            }
            let b = l.addk(-hi);
            if !st.facts.entails_le(&b) {
                st.facts.assume_le(&b);
            }
        }
        assume_invariants(&st.objs, &mut st.facts);
    }
    fn typed_ints(&self, v: &Val<'t>, t: Ty<'t>, out: &mut Vec<(Lin, i128, i128)>) {
        match (v, t.kind()) {
            (Val::Int(l), _) => {
                if let (false, Some((lo, hi))) = (l.t.is_empty() || l.t.len() > 4, int_range(t)) {
                    if !matches!(t.kind(), ty::Bool) && !out.iter().any(|x| x.0 == *l && x.1 >= lo && x.2 <= hi) {
                        out.push((l.clone(), lo, hi));
                    }
                }
            }
            (Val::Agg(fs), ty::Adt(def, args)) if def.is_struct() => {
                for (fv, fd) in fs.iter().zip(def.non_enum_variant().fields.iter()) {
                    if matches!(fv, Val::Int(_) | Val::Agg(_) | Val::Enum(..)) {
                        self.typed_ints(fv, self.field_ty(fd, args), out);
                    }
                }
            }
            (Val::Agg(fs), ty::Tuple(ts)) => {
                for (fv, ft) in fs.iter().zip(ts.iter()) {
                    self.typed_ints(fv, ft, out);
                }
            }
            (Val::Enum(d, m), ty::Adt(def, args)) if def.is_enum() => {
                if let Some(c) = d.as_const() {
                    if let Some(fs) = m.get(&(c as u32)) {
                        for (fv, fd) in fs.iter().zip(def.variant((c as u32).into()).fields.iter()) {
                            if matches!(fv, Val::Int(_) | Val::Agg(_) | Val::Enum(..)) {
                                self.typed_ints(fv, self.field_ty(fd, args), out);
                            }
                        }
                    }
                }
            }
            _ => {}
        }
    }
    pub fn join_states(&self, a: &State<'t>, b: &State<'t>, round: usize) -> Joined<'t> {
        let (mut a, mut b) = (a.clone(), b.clone());
        self.assume_state(&mut a);
        self.assume_state(&mut b);
        let mut j = join(&a, &b, round);
        self.assume_state(&mut j.st);
        j
    }
    pub fn field_ty(&self, fd: &ty::FieldDef, args: ty::GenericArgsRef<'t>) -> Ty<'t> {
        let t = fd.ty(self.tcx, args);
        self.tcx.normalize_erasing_regions(self.env, t)
    }

    // ------------------------------------------------------------------------------ blocks
    fn run_block(&mut self, it: Item<'t>, info: &Rc<FnInfo<'t>>, base: ObjId, work: &mut Vec<Item<'t>>, done: &mut Vec<(State<'t>, Val<'t>, Option<(usize, usize)>)>, seq: &mut u64) -> R<()> {
        let mut todo = vec![(it.stmt, it.st, 0u32)];
        let lin = it.lin;
        let bb = it.bb;
        let data = &info.body.basic_blocks[BasicBlock::from_usize(bb)];
        'outer: while let Some((mut stmt, mut st, splits)) = todo.pop() {
            while stmt < data.statements.len() {
                self.stats.steps += 1;
                let s = &data.statements[stmt];
                match self.statement(&mut st, info, base, s) {
                    Ok(()) => stmt += 1,
                    Err(Stop::Split(cs)) => {
                        if st.facts.is_infeasible() {
                            continue 'outer;
                        }
                        if splits > 40 {
                            return unsup(format!("splitting does not help in {} bb{} {:?}", info.path, bb, s));
                        }
                        for c in cs {
                            let mut s2 = st.clone();
                            s2.facts.assume(&c);
                            if !s2.facts.bottom {
                                todo.push((stmt, s2, splits + 1));
                            }
                        }
                        continue 'outer;
                    }
                    Err(Stop::Dead) => continue 'outer,
                    Err(Stop::Unsup(m)) => return unsup(format!("{m} [{} {:?}]", info.path, s.kind)),
                }
            }
            self.stats.steps += 1;
            let term = data.terminator();
            let mut succ: Vec<(usize, State<'t>)> = vec![];
            match self.terminator(st.clone(), info, base, term, &mut succ) {
                Ok(Some(v)) => {
                    for (s, v) in v {
                        done.push((s, v, lin));
                    }
                }
                Ok(None) => {
                    for (t, s) in succ {
                        *seq += 1;
                        if s.facts.bottom {
                            continue;
                        }
                        work.push(Item { bb: t, stmt: 0, st: s, lin, seq: *seq });
                    }
                }
                Err(Stop::Split(cs)) => {
                    if st.facts.is_infeasible() {
                        continue 'outer;
                    }
                    if splits > 40 {
                        if self.debug >= 1 {
                            eprintln!("split {:?} {:?}\n {:?}\n {:?}", cs, term.kind, st.objs, st.facts);
                        }
                        return unsup(format!("splitting does not help in {} bb{}", info.path, bb));
                    }
                    for c in cs {
                        let mut s2 = st.clone();
                        s2.facts.assume(&c);
                        if !s2.facts.bottom {
                            todo.push((stmt, s2, splits + 1));
                        }
                    }
                }
                Err(Stop::Dead) => {}
                Err(Stop::Unsup(m)) => {
                    if m.contains("[") {
                        return unsup(m);
                    }
                    return unsup(format!("{m} [{} {:?}]", info.path, term.kind));
                }
            }
        }
        Ok(())
    }

    fn statement(&mut self, st: &mut State<'t>, info: &Rc<FnInfo<'t>>, base: ObjId, s: &Statement<'t>) -> R<()> {
        match &s.kind {
            StatementKind::Assign(b) => {
                let (pl, rv) = &**b;
                let pty = self.place_ty(info, pl);
                let v = self.rvalue(st, info, base, rv, pty)?;
                self.assign(st, info, base, pl, v)
            }
            StatementKind::SetDiscriminant { place, variant_index } => {
                let p = self.place(st, info, base, place)?;
                let PlaceV::Loc(p) = p else { return unsup("SetDiscriminant") };
                let v = self.read(st, &p)?;
                let m = match v {
                    Val::Enum(_, m) => m,
                    _ => Rc::new(BTreeMap::new()),
                };
                self.write(st, &p, Val::Enum(Lin::k(variant_index.as_u32() as i128), m))
            }
            StatementKind::StorageLive(l) => {
                st.objs.insert(base + l.as_u32(), Val::Uninit);
                Ok(())
            }
            StatementKind::StorageDead(l) => {
                st.objs.remove(&(base + l.as_u32()));
                Ok(())
            }
            StatementKind::Intrinsic(i) => match &**i {
                NonDivergingIntrinsic::Assume(op) => {
                    let v = self.operand(st, info, base, op)?;
                    if let Val::Bool(c) = v {
                        st.facts.assume(&c);
                        if st.facts.bottom {
                            return Err(Stop::Dead);
                        }
                    }
                    Ok(())
                }
                _ => unsup("copy_nonoverlapping"),
            },
            _ => Ok(()),
        }
    }

    fn assign(&mut self, st: &mut State<'t>, info: &Rc<FnInfo<'t>>, base: ObjId, pl: &Place<'t>, v: Val<'t>) -> R<()> {
        if pl.projection.is_empty() {
            st.objs.insert(base + pl.local.as_u32(), v);
            return Ok(());
        }
        match self.place(st, info, base, pl)? {
            PlaceV::Loc(p) => self.write(st, &p, v),
            _ => unsup("assignment to unsized place"),
        }
    }

    pub fn place_ty(&self, info: &FnInfo<'t>, pl: &Place<'t>) -> Ty<'t> {
        let t = pl.ty(&info.body.local_decls, self.tcx).ty;
        self.mono(info.inst, t)
    }

    /// Transparent pointer-like wrappers are represented by their content
    fn is_passthrough(&mut self, t: Ty<'t>) -> bool {
        match t.kind() {
            ty::Adt(d, _) => {
                if d.is_box() || d.is_union() {
                    return true;
                }
                let n = self.name(d.did());
                matches!(&*n, "core::ptr::Unique" | "core::ptr::NonNull" | "std::ptr::Unique" | "std::ptr::NonNull" | "core::mem::ManuallyDrop" | "std::mem::ManuallyDrop" | "core::mem::MaybeUninit" | "std::mem::MaybeUninit" | "core::pin::Pin" | "core::mem::maybe_dangling::MaybeDangling" | "core::ptr::unique::Unique" | "core::ptr::non_null::NonNull" | "core::mem::MaybeDangling" | "std::mem::MaybeDangling" | "core::ptr::Alignment")
            }
            _ => false,
        }
    }

    pub fn place(&mut self, st: &mut State<'t>, info: &Rc<FnInfo<'t>>, base: ObjId, pl: &Place<'t>) -> R<PlaceV<'t>> {
        let mut cur = PlaceV::Loc(crate::val::Place::obj(base + pl.local.as_u32()));
        let mut variant: Option<u32> = None;
        for (i, e) in pl.projection.iter().enumerate() {
            let bt = {
                let t = PlaceRef { local: pl.local, projection: &pl.projection[..i] }.ty(&info.body.local_decls, self.tcx);
                t
            };
            match e {
                ProjectionElem::Deref => {
                    let PlaceV::Loc(p) = &cur else { return unsup("deref of unsized") };
                    let p = p.clone();
                    let v = self.read(st, &p)?;
                    cur = self.deref(st, v, &p)?;
                }
                ProjectionElem::Field(f, _) => {
                    let t = self.mono(info.inst, bt.ty);
                    if variant.is_none() && self.is_passthrough(t) {
                        continue;
                    }
                    let p = match &cur {
                        PlaceV::Loc(p) => p.clone(),
                        _ => return unsup("field of unsized"),
                    };
                    cur = PlaceV::Loc(match variant.take() {
                        Some(v) => p.push(Pr::V(v, f.as_u32())),
                        None => p.push(Pr::F(f.as_u32())),
                    });
                }
                ProjectionElem::Downcast(_, v) => variant = Some(v.as_u32()),
                ProjectionElem::Index(l) => {
                    let v = st.objs.get(&(base + l.as_u32())).cloned();
                    let Some(Val::Int(ix)) = v else { return unsup("index value") };
                    cur = self.index_place(cur, &ix)?;
                }
                ProjectionElem::ConstantIndex { offset, from_end, .. } => {
                    let ix = if from_end {
                        let len = self.place_len(st, &cur)?;
                        len.addk(-(offset as i128))
                    } else {
                        Lin::k(offset as i128)
                    };
                    cur = self.index_place(cur, &ix)?;
                }
                ProjectionElem::Subslice { from, to, from_end } => {
                    let len = self.place_len(st, &cur)?;
                    let end = if from_end { len.addk(-(to as i128)) } else { Lin::k(to as i128) };
                    cur = match cur {
                        PlaceV::Slice(p, o, _) => PlaceV::Slice(p, o.addk(from as i128), end.addk(-(from as i128))),
                        PlaceV::Loc(p) => PlaceV::Slice(p, Lin::k(from as i128), end.addk(-(from as i128))),
                        _ => return unsup("subslice"),
                    };
                }
                ProjectionElem::OpaqueCast(_) | ProjectionElem::UnwrapUnsafeBinder(_) => {}
                _ => return unsup(format!("projection {:?}", e)),
            }
        }
        Ok(cur)
    }
    fn index_place(&mut self, cur: PlaceV<'t>, ix: &Lin) -> R<PlaceV<'t>> {
        Ok(match cur {
            PlaceV::Slice(p, o, _) => PlaceV::Loc(p.push(Pr::I(o.add(ix)))),
            PlaceV::Loc(p) => PlaceV::Loc(p.push(Pr::I(ix.clone()))),
            _ => return unsup("index"),
        })
    }
    fn place_len(&mut self, st: &mut State<'t>, p: &PlaceV<'t>) -> R<Lin> {
        match p {
            PlaceV::Slice(_, _, l) => Ok(l.clone()),
            PlaceV::Loc(p) => match self.read(st, p)?.seq_len() {
                Some(l) => Ok(l),
                None => unsup("length"),
            },
            _ => unsup("length"),
        }
    }
    /// `*v`, where `v` is stored at `at`
    pub fn deref(&mut self, st: &mut State<'t>, v: Val<'t>, at: &crate::val::Place) -> R<PlaceV<'t>> {
        Ok(match v {
            Val::Ref(p) => PlaceV::Loc(p),
            Val::Slice(p, o, l) => PlaceV::Slice(p, o, l),
            Val::Dyn(inner, t) => match &*inner {
                Val::Ref(p) => PlaceV::Dyn(p.clone(), t),
                _ => return unsup("deref dyn"),
            },
            Val::Vecv(_, c) => PlaceV::Slice(at.clone(), Lin::k(0), c.seq_len().unwrap_or_default()),
            Val::Top(t) => {
                let v = self.expand(st, t)?;
                self.write(st, at, v.clone())?;
                if matches!(v, Val::Top(_)) {
                    return unsup(format!("deref of unknown {:?}", t));
                }
                return self.deref(st, v, at);
            }
            v => return unsup(format!("deref of {:?}", v)),
        })
    }

    // ------------------------------------------------------------------------------ memory
    pub fn read(&mut self, st: &mut State<'t>, p: &crate::val::Place) -> R<Val<'t>> {
        self.expand_along(st, p, true)?;
        let Some(v) = st.objs.get(&p.obj) else { return unsup(format!("read of missing object {:?}", p)) };
        let v = v.clone();
        self.walk(st, &v, &p.pr)
    }
    fn walk(&mut self, st: &mut State<'t>, v: &Val<'t>, pr: &[Pr]) -> R<Val<'t>> {
        if pr.is_empty() {
            return Ok(v.clone());
        }
        match (&pr[0], v) {
            (Pr::F(i), Val::Agg(fs)) => match fs.get(*i as usize) {
                Some(v) => {
                    let v = v.clone();
                    self.walk(st, &v, &pr[1..])
                }
                None => unsup("field"),
            },
            (Pr::V(k, i), Val::Enum(d, m)) => match m.get(k).and_then(|f| f.get(*i as usize)) {
                Some(v) => {
                    let v = v.clone();
                    self.walk(st, &v, &pr[1..])
                }
                None => {
                    if st.facts.refutes(&Cond::Eq(d.addk(-(*k as i128)))) {
                        return Err(Stop::Dead);
                    }
                    unsup(format!("variant {k} of {:?}", v))
                }
            },
            (Pr::I(ix), Val::Vecv(_, c)) => {
                let c = c.clone();
                let _ = ix;
                self.walk(st, &c, pr)
            }
            (Pr::I(ix), Val::Rope(r)) => {
                if let Some((wb, k)) = &self.wit {
                    if let Some(Src::Base(b, l)) = r.slice(&st.facts, ix, &Lin::k(1)).and_then(|r| r.0.first().map(|s| s.src.clone())) {
                        if b == *wb {
                            let d = st.facts.norm(&l.sub(k));
                            let cs = vec![Cond::Le(d.addk(1)), Cond::Eq(d.clone()), Cond::Le(d.neg().addk(1))];
                            if st.facts.entails(&cs[1]) {
                                return Ok(Val::Int(elem(b, k)));
                            }
                            if !cs.iter().any(|c| st.facts.entails(&c.clone().simp())) {
                                return Err(Stop::Split(cs.into_iter().map(|c| c.simp()).collect()));
                            }
                        }
                    }
                }
                if let Some(b) = r.read(&st.facts, ix) {
                    return Ok(Val::Int(b));
                }
                // which segment?
                if let Some(c) = self.rope_split(st, r, ix) {
                    return Err(Stop::Split(c));
                }
                Ok(Val::Int(Lin::s(fresh(0, 255, "byte?"))))
            }
            (Pr::I(ix), Val::Seq(s)) => match &s.elems {
                Some(e) => {
                    let ix = st.facts.norm(ix);
                    match ix.as_const() {
                        Some(c) if c >= 0 && (c as usize) < e.len() => {
                            let v = e[c as usize].clone();
                            self.walk(st, &v, &pr[1..])
                        }
                        None if e.len() <= 16 => Err(Stop::Split((0..e.len()).map(|k| Cond::Eq(ix.addk(-(k as i128)))).collect())),
                        Some(_) => Err(Stop::Dead),
                        None => {
                            let t = self.expand(st, s.ety)?;
                            self.walk(st, &t, &pr[1..])
                        }
                    }
                }
                None => {
                    let t = self.expand(st, s.ety)?;
                    let t = self.deepen(st, t, 3)?;
                    self.walk(st, &t, &pr[1..])
                }
            },
            (_, Val::Top(t)) => {
                let v = self.expand(st, *t)?;
                if matches!(v, Val::Top(_)) {
                    return unsup(format!("projection of unknown {:?}", t));
                }
                self.walk(st, &v, pr)
            }
            (p, v) => unsup(format!("projection {:?} of {:?}", p, v)),
        }
    }
    pub fn rope_split(&mut self, st: &State<'t>, r: &Rope, ix: &Lin) -> Option<Vec<Cond>> {
        // small explicit tables: one case per index
        let ix = st.facts.norm(ix);
        if r.0.len() == 1 {
            if let Src::Bytes(v) = &r.0[0].src {
                if v.len() <= 16 {
                    return Some((0..v.len()).map(|k| Cond::Eq(ix.addk(-(k as i128)))).collect());
                }
                return None;
            }
        }
        let mut at = Lin::k(0);
        for s in &r.0 {
            at = at.add(&s.len);
            let c = Cond::Le(ix.sub(&at).addk(1)).simp();
            if !st.facts.entails(&c) && !st.facts.refutes(&c) {
                return Some(vec![c.clone(), c.not()]);
            }
        }
        None
    }
    /// Replace lazily unknown values on the way to (and at) a place by their expansion
    fn expand_along(&mut self, st: &mut State<'t>, p: &crate::val::Place, last: bool) -> R<()> {
        for _ in 0..12 {
            let Some(v) = st.objs.get(&p.obj) else { return Ok(()) };
            // find a Top along the path
            let mut cur = v;
            let mut found: Option<(usize, Ty<'t>)> = None;
            for i in 0..=p.pr.len() {
                if let Val::Top(t) = cur {
                    if i < p.pr.len() || last {
                        found = Some((i, *t));
                    }
                    break;
                }
                if i == p.pr.len() {
                    break;
                }
                match (&p.pr[i], cur) {
                    (Pr::F(k), Val::Agg(fs)) => match fs.get(*k as usize) {
                        Some(x) => cur = x,
                        None => break,
                    },
                    (Pr::V(k, f), Val::Enum(_, m)) => match m.get(k).and_then(|x| x.get(*f as usize)) {
                        Some(x) => cur = x,
                        None => break,
                    },
                    _ => break,
                }
            }
            let Some((i, t)) = found else { return Ok(()) };
            let v = self.expand(st, t)?;
            if matches!(v, Val::Top(_)) {
                return Ok(());
            }
            let pre = crate::val::Place { obj: p.obj, pr: Rc::new(p.pr[..i].to_vec()) };
            let root = st.objs.get_mut(&pre.obj).unwrap();
            set_simple(root, &pre.pr, v);
        }
        Ok(())
    }
    pub fn write(&mut self, st: &mut State<'t>, p: &crate::val::Place, v: Val<'t>) -> R<()> {
        if p.pr.is_empty() {
            st.objs.insert(p.obj, v);
            return Ok(());
        }
        self.expand_along(st, p, false)?;
        let Some(mut root) = st.objs.remove(&p.obj) else { return unsup(format!("write to missing object {:?}", p)) };
        let r = self.set(st, &mut root, &p.pr, v);
        st.objs.insert(p.obj, root);
        r
    }
    fn set(&mut self, st: &mut State<'t>, cur: &mut Val<'t>, pr: &[Pr], v: Val<'t>) -> R<()> {
        if pr.is_empty() {
            *cur = v;
            return Ok(());
        }
        match (&pr[0], &mut *cur) {
            (Pr::F(i), Val::Agg(fs)) => {
                let fs = Rc::make_mut(fs);
                while fs.len() <= *i as usize {
                    fs.push(Val::Uninit);
                }
                self.set(st, &mut fs[*i as usize], &pr[1..], v)
            }
            (Pr::F(i), Val::Uninit) => {
                let mut fs = vec![Val::Uninit; *i as usize + 1];
                self.set(st, &mut fs[*i as usize], &pr[1..], v)?;
                *cur = Val::agg(fs);
                Ok(())
            }
            (Pr::V(k, i), Val::Enum(_, m)) => {
                let fs = Rc::make_mut(Rc::make_mut(m).entry(*k).or_default());
                while fs.len() <= *i as usize {
                    fs.push(Val::Uninit);
                }
                self.set(st, &mut fs[*i as usize], &pr[1..], v)
            }
            (Pr::V(k, i), Val::Uninit) => {
                let mut fs = vec![Val::Uninit; *i as usize + 1];
                self.set(st, &mut fs[*i as usize], &pr[1..], v)?;
                *cur = Val::en(*k, fs);
                Ok(())
            }
            (Pr::I(_), Val::Vecv(_, c)) => self.set(st, Rc::make_mut(c), pr, v),
            (Pr::I(ix), Val::Rope(r)) => {
                let b = match &v {
                    Val::Int(l) => l.clone(),
                    _ => Lin::s(fresh(0, 255, "byte?")),
                };
                let new = match r.write(&st.facts, ix, &Rope::bytes(vec![b])) {
                    Some(n) => n,
                    None => Rope::base(new_base("havoc"), r.len()),
                };
                *cur = Val::Rope(Rc::new(new));
                Ok(())
            }
            (Pr::I(ix), Val::Seq(s)) => {
                let s = Rc::make_mut(s);
                let ix = st.facts.norm(ix);
                match (&mut s.elems, ix.as_const()) {
                    (Some(e), Some(c)) if c >= 0 && (c as usize) < e.len() => {
                        let mut x = e[c as usize].clone();
                        self.set(st, &mut x, &pr[1..], v)?;
                        if let Val::Top(_) = x {
                            return Ok(());
                        }
                        if let Some(e) = &mut s.elems {
                            e[c as usize] = x;
                        }
                        Ok(())
                    }
                    _ => {
                        s.elems = None;
                        Ok(())
                    }
                }
            }
            (Pr::F(_), Val::Top(t)) | (Pr::V(..), Val::Top(t)) => {
                let t = *t;
                let x = self.expand(st, t)?;
                if matches!(x, Val::Top(_)) {
                    return unsup(format!("write into unknown {:?}", t));
                }
                *cur = x;
                self.set(st, cur, pr, v)
            }
            (p, c) => unsup(format!("write {:?} of {:?}", p, c)),
        }
    }

    /// One level of an unknown value of type `t`
    pub fn expand(&mut self, st: &mut State<'t>, t: Ty<'t>) -> R<Val<'t>> {
        Ok(match t.kind() {
            ty::Bool => Val::Bool(Cond::Ne(Lin::s(fresh(0, 1, "bool")))),
            ty::Int(_) | ty::Uint(_) | ty::Char => {
                let (lo, hi) = int_range(t).unwrap();
                Val::Int(Lin::s(fresh(lo, hi, "int")))
            }
            ty::Tuple(ts) => Val::agg(ts.iter().map(Val::Top).collect()),
            ty::FnDef(..) => Val::unit(),
            ty::Closure(_, a) => Val::agg(a.as_closure().upvar_tys().iter().map(Val::Top).collect()),
            ty::Ref(_, inner, _) | ty::RawPtr(inner, _) => return self.expand_ptr(st, *inner),
            ty::Array(e, n) => {
                let n = n.try_to_target_usize(self.tcx).unwrap_or(0) as i128;
                if is_u8(*e) {
                    Val::Rope(Rc::new(Rope::base(new_base("array"), Lin::k(n))))
                } else if n <= 64 {
                    Val::Seq(Rc::new(SeqV { len: Lin::k(n), elems: Some(vec![Val::Top(*e); n as usize]), ety: *e }))
                } else {
                    Val::Seq(Rc::new(SeqV { len: Lin::k(n), elems: None, ety: *e }))
                }
            }
            ty::Adt(d, args) => {
                if d.is_box() {
                    let inner = args.type_at(0);
                    if let ty::Slice(e) = inner.kind() {
                        return Ok(self.top_vec(st, *e));
                    }
                    return self.expand_ptr(st, inner);
                }
                let n = self.name(d.did());
                match &*n {
                    "std::vec::Vec" | "alloc::vec::Vec" => return Ok(self.top_vec(st, args.type_at(0))),
                    "std::string::String" | "alloc::string::String" => return Ok(self.top_vec(st, self.tcx.types.u8)),
                    "std::num::NonZero" | "core::num::NonZero" => {
                        let (_, hi) = int_range(args.type_at(0)).unwrap_or((1, usize_max()));
                        return Ok(Val::Int(Lin::s(fresh(1, hi, "nonzero"))));
                    }
                    "std::io::Error" | "alloc::io::Error" | "core::io::Error" | "alloc::io::error::Error" | "core::io::error::Error" => return Ok(Val::Int(Lin::s(fresh(1000, 1 << 40, "ioerr")))),
                    "std::collections::HashMap" | "std::collections::HashSet" | "std::collections::hash_map::HashMap" | "std::collections::hash_set::HashSet" => {
                        return Ok(Val::Int(Lin::s(fresh(0, MAX_LEN, "hashlen"))));
                    }
                    _ => {}
                }
                if d.is_enum() {
                    let mut m = BTreeMap::new();
                    let mut ks = vec![];
                    for (vi, v) in d.variants().iter_enumerated() {
                        let tys: Vec<Ty<'t>> = v.fields.iter().map(|f| self.field_ty(f, args)).collect();
                        if tys.iter().any(|t| t.is_never() || self.is_uninhabited(*t)) {
                            continue;
                        }
                        ks.push(vi.as_u32() as i128);
                        m.insert(vi.as_u32(), Rc::new(tys.into_iter().map(Val::Top).collect()));
                    }
                    if ks.is_empty() {
                        return Err(Stop::Dead);
                    }
                    let d = if ks.len() == 1 {
                        Lin::k(ks[0])
                    } else {
                        let s = fresh(ks[0], *ks.last().unwrap(), "variant");
                        for k in ks[0]..=*ks.last().unwrap() {
                            if !ks.contains(&k) {
                                st.facts.assume(&Cond::Ne(Lin::s(s).addk(-k)));
                            }
                        }
                        Lin::s(s)
                    };
                    Val::Enum(d, Rc::new(m))
                } else if d.is_struct() {
                    if self.is_passthrough(t) {
                        let f = &d.non_enum_variant().fields.iter().next().unwrap();
                        let ft = self.field_ty(f, args);
                        return self.expand(st, ft);
                    }
                    Val::agg(d.non_enum_variant().fields.iter().map(|f| Val::Top(self.field_ty(f, args))).collect())
                } else {
                    Val::Top(t)
                }
            }
            ty::Never => return Err(Stop::Dead),
            _ => Val::Top(t),
        })
    }
    fn is_uninhabited(&self, t: Ty<'t>) -> bool {
        !t.is_inhabited_from(self.tcx, self.tcx.parent_module_from_def_id(rustc_span::def_id::CRATE_DEF_ID), self.env)
    }
    pub fn top_vec(&mut self, st: &mut State<'t>, e: Ty<'t>) -> Val<'t> {
        let len = fresh(0, MAX_LEN, "len");
        let cap = fresh(0, MAX_LEN, "cap");
        st.facts.assume(&Cond::Le(Lin::s(len).sub(&Lin::s(cap))));
        Val::Vecv(Lin::s(cap), Rc::new(self.top_content(e, Lin::s(len))))
    }
    pub fn top_content(&mut self, e: Ty<'t>, len: Lin) -> Val<'t> {
        if is_u8(e) {
            Val::Rope(Rc::new(Rope::base(new_base("bytes"), len)))
        } else {
            Val::Seq(Rc::new(SeqV { len, elems: None, ety: e }))
        }
    }
    fn expand_ptr(&mut self, st: &mut State<'t>, inner: Ty<'t>) -> R<Val<'t>> {
        Ok(match inner.kind() {
            ty::Slice(e) => {
                let len = Lin::s(fresh(0, MAX_LEN, "slicelen"));
                let c = self.top_content(*e, len.clone());
                let o = self.alloc(st, c, inner);
                Val::Slice(crate::val::Place::obj(o), Lin::k(0), len)
            }
            ty::Str => {
                let len = Lin::s(fresh(0, MAX_LEN, "strlen"));
                let c = self.top_content(self.tcx.types.u8, len.clone());
                let o = self.alloc(st, c, inner);
                Val::Slice(crate::val::Place::obj(o), Lin::k(0), len)
            }
            ty::Dynamic(..) => Val::Top(Ty::new_imm_ptr(self.tcx, inner)),
            _ => {
                let o = self.alloc(st, Val::Top(inner), inner);
                Val::Ref(crate::val::Place::obj(o))
            }
        })
    }
    /// Expand nested unknown scalars and structures (not through pointers)
    pub fn deepen(&mut self, st: &mut State<'t>, v: Val<'t>, depth: u32) -> R<Val<'t>> {
        if depth == 0 {
            return Ok(v);
        }
        Ok(match v {
            Val::Top(t) => {
                let x = self.expand(st, t)?;
                if matches!(x, Val::Top(_)) {
                    x
                } else {
                    self.deepen(st, x, depth)?
                }
            }
            Val::Agg(fs) => {
                if !fs.iter().any(has_top) {
                    return Ok(Val::Agg(fs));
                }
                let mut n = vec![];
                for f in fs.iter() {
                    n.push(self.deepen(st, f.clone(), depth - 1)?);
                }
                Val::agg(n)
            }
            Val::Enum(d, m) => {
                if !m.values().any(|f| f.iter().any(has_top)) {
                    return Ok(Val::Enum(d, m));
                }
                let mut n = BTreeMap::new();
                for (k, fs) in m.iter() {
                    let mut w = vec![];
                    let mut dead = false;
                    for f in fs.iter() {
                        match self.deepen(st, f.clone(), depth - 1) {
                            Ok(x) => w.push(x),
                            Err(Stop::Dead) => {
                                dead = true;
                                break;
                            }
                            Err(e) => return Err(e),
                        }
                    }
                    if !dead {
                        n.insert(*k, Rc::new(w));
                    }
                }
                Val::Enum(d, Rc::new(n))
            }
            v => v,
        })
    }

    // ------------------------------------------------------------------------------ operands
    pub fn operand(&mut self, st: &mut State<'t>, info: &Rc<FnInfo<'t>>, base: ObjId, op: &Operand<'t>) -> R<Val<'t>> {
        match op {
            Operand::Copy(p) | Operand::Move(p) => {
                let pv = self.place(st, info, base, p)?;
                let PlaceV::Loc(l) = pv else { return unsup("operand of unsized place") };
                let v = self.read(st, &l)?;
                if matches!(v, Val::Uninit) {
                    let t = self.place_ty(info, p);
                    if self.is_zst(t) {
                        return self.expand(st, t);
                    }
                    return unsup(format!("read of uninitialised {:?}", p));
                }
                if has_top_deep(&v) {
                    let w = self.deepen(st, v, 6)?;
                    if !l.pr.iter().any(|p| matches!(p, Pr::I(_))) {
                        self.write(st, &l, w.clone())?;
                    }
                    self.moved(st, info, op, p, &l)?;
                    return Ok(w);
                }
                self.moved(st, info, op, p, &l)?;
                Ok(v)
            }
            Operand::Constant(c) => {
                let k = self.mono(info.inst, c.const_);
                self.constant(st, k, c.span)
            }
            Operand::RuntimeChecks(_) => Ok(Val::Bool(Cond::False)),
        }
    }
    /// The content of a place that was moved out of is not kept (unless dropping it has effects)
    fn moved(&mut self, st: &mut State<'t>, info: &Rc<FnInfo<'t>>, op: &Operand<'t>, p: &Place<'t>, l: &crate::val::Place) -> R<()> {
        if matches!(op, Operand::Move(_)) && !l.pr.iter().any(|p| matches!(p, Pr::I(_))) {
            let t = self.place_ty(info, p);
            if matches!(t.kind(), ty::Adt(..) | ty::Tuple(_) | ty::Closure(..)) && !self.tcx.type_is_copy_modulo_regions(self.env, t) && !self.needs_drop(t) {
                self.write(st, l, Val::Uninit)?;
            }
        }
        Ok(())
    }
    fn is_zst(&self, t: Ty<'t>) -> bool {
        self.tcx.layout_of(self.env.as_query_input(t)).map_or(false, |l| l.is_zst())
    }
    fn constant(&mut self, st: &mut State<'t>, k: Const<'t>, span: Span) -> R<Val<'t>> {
        let t = k.ty();
        if let ty::FnDef(..) = t.kind() {
            return Ok(Val::unit());
        }
        match k.eval(self.tcx, self.env, span) {
            Ok(v) => self.const_val(st, v, t),
            Err(_) => unsup("constant"),
        }
    }
    fn global_obj(&mut self, st: &mut State<'t>, key: String, t: Ty<'t>, f: impl FnOnce(&mut Self, &mut State<'t>) -> R<Val<'t>>) -> R<ObjId> {
        if let Some(o) = self.globals.get(&key) {
            let o = *o;
            if !st.objs.contains_key(&o) {
                let v = f(self, st)?;
                st.objs.insert(o, v);
            }
            return Ok(o);
        }
        let v = f(self, st)?;
        let o = self.alloc(st, v, t);
        self.globals.insert(key, o);
        self.const_objs.insert(o);
        Ok(o)
    }
    fn const_val(&mut self, st: &mut State<'t>, v: ConstValue, t: Ty<'t>) -> R<Val<'t>> {
        use rustc_middle::mir::interpret::{GlobalAlloc, Scalar};
        match (v, t.kind()) {
            (ConstValue::ZeroSized, ty::Adt(d, _)) if d.is_struct() || d.is_enum() => {}
            (ConstValue::ZeroSized, ty::Array(e, _)) if !is_u8(*e) => {
                return Ok(Val::Seq(Rc::new(SeqV { len: Lin::k(0), elems: Some(vec![]), ety: *e })));
            }
            (ConstValue::ZeroSized, _) => return self.expand(st, t),
            (ConstValue::Scalar(Scalar::Int(i)), ty::Bool) => return Ok(Val::Bool(b(i.try_to_bool().unwrap_or(false)))),
            (ConstValue::Scalar(Scalar::Int(i)), ty::Int(_)) => {
                let s = i.size();
                return Ok(Val::Int(Lin::k(i.to_int(s))));
            }
            (ConstValue::Scalar(Scalar::Int(i)), ty::Uint(_) | ty::Char) => {
                let s = i.size();
                let u = i.to_uint(s);
                return Ok(Val::Int(Lin::k(if u > (1u128 << 120) { 1i128 << 120 } else { u as i128 })));
            }
            (ConstValue::Scalar(Scalar::Ptr(p, _)), ty::Ref(_, inner, _) | ty::RawPtr(inner, _)) => {
                let (prov, off) = p.prov_and_relative_offset();
                let id = prov.alloc_id();
                match self.tcx.global_alloc(id) {
                    GlobalAlloc::Memory(_) => {
                        let inner = *inner;
                        let key = format!("{:?}+{:?}:{:?}", id, off, inner);
                        let o = self.global_obj(st, key, inner, |s, st| s.const_val(st, ConstValue::Indirect { alloc_id: id, offset: off }, inner))?;
                        return Ok(Val::Ref(crate::val::Place::obj(o)));
                    }
                    GlobalAlloc::Static(d) => {
                        let inner = *inner;
                        let key = format!("static {:?}", d);
                        let o = self.global_obj(st, key, inner, |_, _| Ok(Val::Top(inner)))?;
                        return Ok(Val::Ref(crate::val::Place::obj(o)));
                    }
                    _ => return Ok(Val::Top(t)),
                }
            }
            (ConstValue::Scalar(Scalar::Int(_)), ty::Ref(_, inner, _) | ty::RawPtr(inner, _)) => {
                // reference to a zero-sized value
                let inner = *inner;
                if let ty::Array(e, _) = inner.kind() {
                    let c = if is_u8(*e) { Val::Rope(Rc::new(Rope::empty())) } else { Val::Seq(Rc::new(SeqV { len: Lin::k(0), elems: Some(vec![]), ety: *e })) };
                    let o = self.global_obj(st, format!("zst {:?}", inner), inner, |_, _| Ok(c))?;
                    return Ok(Val::Ref(crate::val::Place::obj(o)));
                }
                let o = self.global_obj(st, format!("zst {:?}", inner), inner, |s, st| s.expand(st, inner))?;
                return Ok(Val::Ref(crate::val::Place::obj(o)));
            }
            (ConstValue::Slice { alloc_id, meta }, ty::Ref(_, inner, _)) => {
                let inner = *inner;
                let e = match inner.kind() {
                    ty::Slice(e) => *e,
                    _ => self.tcx.types.u8,
                };
                if is_u8(e) {
                    let bytes: Vec<u8> = v.try_get_slice_bytes_for_diagnostics(self.tcx).map(|b| b.to_vec()).unwrap_or_default();
                    let o = self.global_obj(st, format!("lit {:?}", bytes), inner, |_, _| Ok(Val::Rope(Rc::new(Rope::lit(&bytes)))))?;
                    return Ok(Val::Slice(crate::val::Place::obj(o), Lin::k(0), Lin::k(bytes.len() as i128)));
                }
                let at = Ty::new_array(self.tcx, e, meta);
                let key = format!("{:?}:{:?}", alloc_id, at);
                let o = self.global_obj(st, key, at, |s, st| s.const_val(st, ConstValue::Indirect { alloc_id, offset: rustc_abi::Size::ZERO }, at))?;
                return Ok(Val::Slice(crate::val::Place::obj(o), Lin::k(0), Lin::k(meta as i128)));
            }
            (ConstValue::Indirect { alloc_id, offset }, ty::Ref(_, inner, _)) => {
                // a reference stored in memory
                if let Some(bytes) = matches!(inner.kind(), ty::Str).then(|| v.try_get_slice_bytes_for_diagnostics(self.tcx)).flatten() {
                    let bytes = bytes.to_vec();
                    let inner = *inner;
                    let o = self.global_obj(st, format!("lit {:?}", bytes), inner, |_, _| Ok(Val::Rope(Rc::new(Rope::lit(&bytes)))))?;
                    return Ok(Val::Slice(crate::val::Place::obj(o), Lin::k(0), Lin::k(bytes.len() as i128)));
                }
                let a = self.tcx.global_alloc(alloc_id).unwrap_memory().inner();
                let ps = self.tcx.data_layout.pointer_size();
                if let Ok(s) = a.read_scalar(&self.tcx, rustc_middle::mir::interpret::alloc_range(offset, ps), true) {
                    if let ty::Slice(e) = inner.kind() {
                        if let Ok(m) = a.read_scalar(&self.tcx, rustc_middle::mir::interpret::alloc_range(offset + ps, ps), false) {
                            if let Some(n) = m.to_target_usize(&self.tcx).discard_err() {
                                let at = Ty::new_array(self.tcx, *e, n);
                                let r = self.const_val(st, ConstValue::Scalar(s), Ty::new_imm_ref(self.tcx, self.tcx.lifetimes.re_erased, at))?;
                                if let Val::Ref(p) = r {
                                    return Ok(Val::Slice(p, Lin::k(0), Lin::k(n as i128)));
                                }
                            }
                        }
                        return Ok(Val::Top(t));
                    }
                    return self.const_val(st, ConstValue::Scalar(s), t);
                }
                return Ok(Val::Top(t));
            }
            (ConstValue::Indirect { alloc_id, offset }, ty::Bool | ty::Int(_) | ty::Uint(_) | ty::Char) => {
                let a = self.tcx.global_alloc(alloc_id).unwrap_memory().inner();
                let sz = self.tcx.layout_of(self.env.as_query_input(t)).unwrap().size;
                if let Ok(s) = a.read_scalar(&self.tcx, rustc_middle::mir::interpret::alloc_range(offset, sz), false) {
                    return self.const_val(st, ConstValue::Scalar(s), t);
                }
                return Ok(Val::Top(t));
            }
            (ConstValue::Indirect { alloc_id, offset }, ty::Array(e, n)) if is_u8(*e) => {
                let n = n.try_to_target_usize(self.tcx).unwrap_or(0);
                let a = self.tcx.global_alloc(alloc_id).unwrap_memory().inner();
                let o = offset.bytes() as usize;
                let bytes = a.inspect_with_uninit_and_ptr_outside_interpreter(o..o + n as usize);
                return Ok(Val::Rope(Rc::new(Rope::lit(bytes))));
            }
            _ => {}
        }
        // structured constants
        if let ty::Adt(d, args) = t.kind() {
            let n = self.name(d.did());
            match &*n {
                "std::vec::Vec" | "alloc::vec::Vec" => return Ok(Val::Vecv(Lin::k(0), Rc::new(self.empty_content(args.type_at(0))))),
                "std::num::NonZero" | "core::num::NonZero" => {
                    if let ConstValue::Scalar(_) | ConstValue::Indirect { .. } = v {
                        return self.const_val(st, v, args.type_at(0));
                    }
                }
                "std::io::Error" | "core::io::Error" | "alloc::io::Error" => return self.expand(st, t),
                _ => {}
            }
        }
        if let Some(d) = self.tcx.try_destructure_mir_constant_for_user_output((v, t).0, t) {
            let fields: Vec<(ConstValue, Ty<'t>)> = d.fields.to_vec();
            let mut vs = vec![];
            for (fv, ft) in fields {
                vs.push(self.const_val(st, fv, ft)?);
            }
            return Ok(match t.kind() {
                ty::Adt(a, _) if a.is_enum() => Val::en(d.variant.map_or(0, |v| v.as_u32()), vs),
                ty::Adt(..) if self.is_passthrough(t) && vs.len() >= 1 => vs.swap_remove(0),
                ty::Array(e, _) if is_u8(*e) => Val::Rope(Rc::new(Rope::bytes(vs.iter().filter_map(|v| if let Val::Int(l) = v { Some(l.clone()) } else { None }).collect()))),
                ty::Array(e, _) => Val::Seq(Rc::new(SeqV { len: Lin::k(vs.len() as i128), elems: Some(vs), ety: *e })),
                _ => Val::agg(vs),
            });
        }
        Ok(Val::Top(t))
    }
    pub fn empty_content(&mut self, e: Ty<'t>) -> Val<'t> {
        if is_u8(e) {
            Val::Rope(Rc::new(Rope::empty()))
        } else {
            Val::Seq(Rc::new(SeqV { len: Lin::k(0), elems: Some(vec![]), ety: e }))
        }
    }

    // ------------------------------------------------------------------------------ rvalues
    fn rvalue(&mut self, st: &mut State<'t>, info: &Rc<FnInfo<'t>>, base: ObjId, rv: &Rvalue<'t>, dty: Ty<'t>) -> R<Val<'t>> {
        match rv {
            Rvalue::Use(op, ..) => self.operand(st, info, base, op),
            Rvalue::CopyForDeref(p) => self.operand(st, info, base, &Operand::Copy(*p)),
            Rvalue::Repeat(op, n) => {
                let v = self.operand(st, info, base, op)?;
                let n = self.mono(info.inst, *n).try_to_target_usize(self.tcx).unwrap_or(0) as i128;
                let ty::Array(e, _) = dty.kind() else { return unsup("repeat") };
                Ok(match v {
                    Val::Int(l) if is_u8(*e) => {
                        if n <= 16 {
                            Val::Rope(Rc::new(Rope::bytes(vec![l; n as usize])))
                        } else {
                            Val::Rope(Rc::new(Rope::fill(l, Lin::k(n))))
                        }
                    }
                    v => Val::Seq(Rc::new(SeqV { len: Lin::k(n), elems: if n <= 64 { Some(vec![v; n as usize]) } else { None }, ety: *e })),
                })
            }
            Rvalue::Ref(_, _, p) | Rvalue::RawPtr(_, p) | Rvalue::Reborrow(_, _, p) => {
                Ok(match self.place(st, info, base, p)? {
                    PlaceV::Loc(p) => Val::Ref(p),
                    PlaceV::Slice(p, o, l) => Val::Slice(p, o, l),
                    PlaceV::Dyn(p, t) => Val::Dyn(Rc::new(Val::Ref(p)), t),
                })
            }
            Rvalue::ThreadLocalRef(_) => Ok(Val::Top(dty)),
            Rvalue::Cast(kind, op, t) => {
                let t = self.mono(info.inst, *t);
                let v = self.operand(st, info, base, op)?;
                let from = self.mono(info.inst, op.ty(&info.body.local_decls, self.tcx));
                self.cast(st, *kind, v, from, t)
            }
            Rvalue::BinaryOp(op, b) => {
                let x = self.operand(st, info, base, &b.0)?;
                let y = self.operand(st, info, base, &b.1)?;
                let t = self.mono(info.inst, b.0.ty(&info.body.local_decls, self.tcx));
                self.binop(st, *op, x, y, t)
            }
            Rvalue::UnaryOp(op, o) => {
                let v = self.operand(st, info, base, o)?;
                let t = self.mono(info.inst, o.ty(&info.body.local_decls, self.tcx));
                match (op, v) {
                    (UnOp::Not, Val::Bool(c)) => Ok(Val::Bool(c.not())),
                    (UnOp::Not, Val::Int(l)) => {
                        let (bits, signed) = int_bits(t).unwrap();
                        if signed {
                            Ok(Val::Int(l.neg().addk(-1)))
                        } else {
                            Ok(Val::Int(l.neg().addk(maskb(bits))))
                        }
                    }
                    (UnOp::Neg, Val::Int(l)) => Ok(Val::Int(l.neg())),
                    (UnOp::PtrMetadata, Val::Slice(_, _, l)) => Ok(Val::Int(l)),
                    (UnOp::PtrMetadata, Val::Vecv(_, c)) => Ok(Val::Int(c.seq_len().unwrap_or_default())),
                    (UnOp::PtrMetadata, _) => Ok(Val::unit()),
                    (op, v) => unsup(format!("{:?} of {:?}", op, v)),
                }
            }
            Rvalue::Discriminant(p) => {
                let PlaceV::Loc(l) = self.place(st, info, base, p)? else { return unsup("discriminant") };
                let v = self.read(st, &l)?;
                let t = self.place_ty(info, p);
                self.discriminant(st, v, t)
            }
            Rvalue::Aggregate(k, ops) => {
                let mut vs = vec![];
                for o in ops.iter() {
                    vs.push(self.operand(st, info, base, o)?);
                }
                Ok(match &**k {
                    AggregateKind::Array(e) => {
                        let e = self.mono(info.inst, *e);
                        if is_u8(e) {
                            let mut w = vec![];
                            for v in vs {
                                match v {
                                    Val::Int(l) => w.push(st.facts.norm(&l)),
                                    _ => return unsup("array element"),
                                }
                            }
                            Val::Rope(Rc::new(Rope::bytes(w)))
                        } else {
                            Val::Seq(Rc::new(SeqV { len: Lin::k(vs.len() as i128), elems: Some(vs), ety: e }))
                        }
                    }
                    AggregateKind::Tuple | AggregateKind::Closure(..) => Val::agg(vs),
                    AggregateKind::Adt(d, vi, _, _, active) => {
                        let def = self.tcx.adt_def(*d);
                        if def.is_enum() {
                            Val::en(vi.as_u32(), vs)
                        } else if active.is_some() {
                            vs.pop().unwrap_or(Val::Uninit)
                        } else if self.is_passthrough(dty) && !vs.is_empty() {
                            vs.swap_remove(0)
                        } else {
                            Val::agg(vs)
                        }
                    }
                    AggregateKind::RawPtr(..) => match (&vs[0], &vs[1]) {
                        (Val::Slice(p, o, _), Val::Int(l)) => Val::Slice(p.clone(), o.clone(), l.clone()),
                        (Val::Ref(p), Val::Int(l)) => match p.pr.last() {
                            Some(Pr::I(o)) => {
                                let pp = crate::val::Place { obj: p.obj, pr: Rc::new(p.pr[..p.pr.len() - 1].to_vec()) };
                                Val::Slice(pp, o.clone(), l.clone())
                            }
                            _ => Val::Slice(p.clone(), Lin::k(0), l.clone()),
                        },
                        (v, _) => v.clone(),
                    },
                    k => return unsup(format!("aggregate {:?}", k)),
                })
            }
            rv => unsup(format!("rvalue {:?}", rv)),
        }
    }

    pub fn discriminant(&mut self, st: &mut State<'t>, v: Val<'t>, t: Ty<'t>) -> R<Val<'t>> {
        let v = if let Val::Top(_) = v { self.expand(st, t)? } else { v };
        match v {
            Val::Enum(d, m) => {
                let ty::Adt(def, _) = t.kind() else { return unsup("discriminant type") };
                let identity = def.variants().iter_enumerated().all(|(i, _)| def.discriminant_for_variant(self.tcx, i).val == i.as_u32() as u128);
                if identity {
                    return Ok(Val::Int(d));
                }
                let d = st.facts.norm(&d);
                if let Some(c) = d.as_const() {
                    return Ok(Val::Int(Lin::k(def.discriminant_for_variant(self.tcx, (c as u32).into()).val as i128)));
                }
                Err(Stop::Split(m.keys().map(|k| Cond::Eq(d.addk(-(*k as i128)))).collect()))
            }
            Val::Agg(_) | Val::Int(_) => Ok(Val::Int(Lin::k(0))),
            v => unsup(format!("discriminant of {:?}", v)),
        }
    }

    pub fn to_lin(&self, f: &Facts, v: &Val<'t>) -> R<Lin> {
        match v {
            Val::Int(l) => Ok(l.clone()),
            Val::Bool(Cond::True) => Ok(Lin::k(1)),
            Val::Bool(Cond::False) => Ok(Lin::k(0)),
            Val::Bool(c) => {
                if f.entails(c) {
                    Ok(Lin::k(1))
                } else if f.refutes(c) {
                    Ok(Lin::k(0))
                } else {
                    Ok(Lin::s(cond_sym(c)))
                }
            }
            v => unsup(format!("not a number: {:?}", v)),
        }
    }

    pub fn wrap(&self, f: &Facts, l: Lin, t: Ty<'t>) -> Lin {
        let Some((bits, signed)) = int_bits(t) else { return l };
        let (lo, hi) = int_range(t).unwrap();
        let n = f.norm(&l);
        let (a, b) = f.bounds(&n);
        if a >= lo && b <= hi {
            return l;
        }
        if f.entails_le(&n.addk(-hi)) && f.entails_le(&n.neg().addk(lo)) {
            return l;
        }
        if signed {
            return Lin::s(fresh(lo, hi, "wrapped"));
        }
        if a < 0 {
            // no linear facts about a wrapped-around value
            return Lin::s(fresh(lo, hi, "wrapped"));
        }
        mk_op_f(Some(f), Op::Trunc, bits, &[n])
    }
    pub fn overflow_cond(l: &Lin, t: Ty<'t>) -> Cond {
        let (lo, hi) = int_range(t).unwrap();
        Cond::Or(vec![Cond::Le(l.neg().addk(hi + 1)).simp(), Cond::Le(l.addk(1 - lo)).simp()]).simp()
    }

    pub fn binop(&mut self, st: &mut State<'t>, op: BinOp, x: Val<'t>, y: Val<'t>, t: Ty<'t>) -> R<Val<'t>> {
        use BinOp::*;
        // booleans
        if let (Val::Bool(a), Val::Bool(c)) = (&x, &y) {
            match op {
                BitAnd => return Ok(Val::Bool(Cond::And(vec![a.clone(), c.clone()]).simp())),
                BitOr => return Ok(Val::Bool(Cond::Or(vec![a.clone(), c.clone()]).simp())),
                Eq | Ne | BitXor => {
                    let eq = match (a, c) {
                        (Cond::True, c) | (c, Cond::True) => c.clone(),
                        (Cond::False, c) | (c, Cond::False) => c.not(),
                        _ => {
                            let (l, r) = (self.to_lin(&st.facts, &x)?, self.to_lin(&st.facts, &y)?);
                            Cond::Eq(l.sub(&r)).simp()
                        }
                    };
                    return Ok(Val::Bool(if op == Eq { eq } else { eq.not() }));
                }
                _ => {}
            }
        }
        match (&x, &y) {
            (Val::Ref(p), Val::Ref(q)) => {
                let c = if p == q { Some(true) } else if p.obj != q.obj { Some(false) } else { None };
                if let Some(c) = c {
                    match op {
                        Eq => return Ok(Val::Bool(self::b2(c))),
                        Ne => return Ok(Val::Bool(self::b2(!c))),
                        _ => {}
                    }
                }
                return unsup("pointer comparison");
            }
            _ => {}
        }
        let a = self.to_lin(&st.facts, &x)?;
        let c = self.to_lin(&st.facts, &y)?;
        let cmp = |c: Cond| Ok(Val::Bool(c.simp()));
        match op {
            Eq => return cmp(Cond::Eq(a.sub(&c))),
            Ne => return cmp(Cond::Ne(a.sub(&c))),
            Lt => return cmp(Cond::Le(a.sub(&c).addk(1))),
            Le => return cmp(Cond::Le(a.sub(&c))),
            Gt => return cmp(Cond::Le(c.sub(&a).addk(1))),
            Ge => return cmp(Cond::Le(c.sub(&a))),
            Cmp => {
                // Ordering: variants Less=0, Equal=1, Greater=2 (discriminants -1, 0, 1)
                let d = a.sub(&c);
                let lt = Cond::Le(d.addk(1)).simp();
                let eq = Cond::Eq(d.clone()).simp();
                if st.facts.entails(&lt) {
                    return Ok(Val::en(0, vec![]));
                }
                if st.facts.entails(&eq) {
                    return Ok(Val::en(1, vec![]));
                }
                if st.facts.entails(&Cond::Le(d.neg().addk(1))) {
                    return Ok(Val::en(2, vec![]));
                }
                return Err(Stop::Split(vec![lt, eq, Cond::Le(d.neg().addk(1))]));
            }
            _ => {}
        }
        let Some((bits, signed)) = int_bits(t) else { return unsup(format!("{:?} on {:?}", op, t)) };
        if !signed {
            // operands have values of their type
            for x in [&a, &c] {
                if !x.t.is_empty() && st.facts.bounds(x).0 < 0 && !st.facts.entails_le(&x.neg()) {
                    st.facts.assume_le(&x.neg());
                }
            }
        }
        let exact = |me: &Self, l: Lin, f: &Facts| -> R<Val<'t>> { Ok(Val::Int(me.wrap(f, l, t))) };
        let mulv = if matches!(op, Mul | MulUnchecked | MulWithOverflow) { mul_lin(&mut st.facts, &a, &c) } else { Lin::k(0) };
        let f = &st.facts;
        match op {
            Add | AddUnchecked => exact(self, a.add(&c), f),
            Sub | SubUnchecked => exact(self, a.sub(&c), f),
            Mul | MulUnchecked => exact(self, mulv, f),
            AddWithOverflow | SubWithOverflow | MulWithOverflow => {
                let l = match op {
                    AddWithOverflow => a.add(&c),
                    SubWithOverflow => a.sub(&c),
                    _ => mulv,
                };
                let o = Self::overflow_cond(&l, t);
                let o = if holds(f, &o.not()) { Cond::False } else { o };
                Ok(Val::agg(vec![Val::Int(l), Val::Bool(o)]))
            }
            Div | Rem => {
                if signed && f.bounds_n(&a).0 < 0 {
                    let (lo, hi) = int_range(t).unwrap();
                    return Ok(Val::Int(Lin::s(fresh(lo, hi, "sdiv"))));
                }
                Ok(Val::Int(mk_op_f(Some(f), if op == Div { Op::Div } else { Op::Rem }, bits, &[a, c])))
            }
            BitXor | BitAnd | BitOr => {
                let o = match op {
                    BitXor => Op::Xor,
                    BitAnd => Op::And,
                    _ => Op::Or,
                };
                if signed && (f.bounds_n(&a).0 < 0 || f.bounds_n(&c).0 < 0) {
                    let (lo, hi) = int_range(t).unwrap();
                    return Ok(Val::Int(Lin::s(fresh(lo, hi, "sbit"))));
                }
                Ok(Val::Int(mk_op_f(Some(f), o, bits, &[a, c])))
            }
            Shl | ShlUnchecked | Shr | ShrUnchecked => {
                // the shift amount is taken modulo the width
                let c = if f.entails_le(&c.addk(1 - bits as i128)) && f.entails_le(&c.neg()) { c } else { mk_op_f(Some(f), Op::And, bits, &[c, Lin::k(bits as i128 - 1)]) };
                let o = if matches!(op, Shl | ShlUnchecked) { Op::Shl } else { Op::Shr };
                if signed {
                    let ok = o == Op::Shl && f.bounds_n(&a).0 >= 0;
                    let ok2 = o == Op::Shr && f.bounds_n(&a).0 >= 0;
                    if !(ok || ok2) {
                        let (lo, hi) = int_range(t).unwrap();
                        return Ok(Val::Int(Lin::s(fresh(lo, hi, "sshift"))));
                    }
                    let r = mk_op_f(Some(f), o, bits, &[a, c]);
                    return Ok(Val::Int(if o == Op::Shl { mk_op_f(Some(f), Op::Sext, bits, &[r]) } else { r }));
                }
                Ok(Val::Int(mk_op_f(Some(f), o, bits, &[a, c])))
            }
            op => unsup(format!("operator {:?}", op)),
        }
    }

    fn cast(&mut self, st: &mut State<'t>, kind: CastKind, v: Val<'t>, from: Ty<'t>, to: Ty<'t>) -> R<Val<'t>> {
        use ty::adjustment::PointerCoercion as PC;
        match kind {
            CastKind::IntToInt => {
                let l = self.to_lin(&st.facts, &v)?;
                let Some((bits, signed)) = int_bits(to) else { return unsup(format!("cast to {:?}", to)) };
                let (lo, hi) = int_range(to).unwrap();
                let n = st.facts.norm(&l);
                if st.facts.entails_le(&n.addk(-hi)) && st.facts.entails_le(&n.neg().addk(lo)) {
                    return Ok(Val::Int(l));
                }
                let u = if st.facts.bounds(&n).0 < 0 {
                    if st.facts.bounds(&n).1 < 0 && !signed {
                        n.addk(1i128 << bits)
                    } else {
                        return Ok(Val::Int(Lin::s(fresh(lo, hi, "castneg"))));
                    }
                } else {
                    mk_op_f(Some(&st.facts), Op::Trunc, bits, &[n])
                };
                Ok(Val::Int(if signed { mk_op_f(Some(&st.facts), Op::Sext, bits, &[u]) } else { u }))
            }
            CastKind::PointerCoercion(PC::Unsize, _) => {
                let (fi, ti) = match (pointee(from), pointee(to)) {
                    (Some(a), Some(b)) => (a, b),
                    _ => {
                        return Ok(v);
                    }
                };
                match (fi.kind(), ti.kind()) {
                    (ty::Array(_, n), ty::Slice(_)) => {
                        let n = n.try_to_target_usize(self.tcx).unwrap_or(0) as i128;
                        match v {
                            Val::Ref(p) => Ok(if from.is_box() {
                                let c = self.read(st, &p)?;
                                Val::Vecv(Lin::k(n), Rc::new(c))
                            } else {
                                Val::Slice(p, Lin::k(0), Lin::k(n))
                            }),
                            v => Ok(v),
                        }
                    }
                    (_, ty::Dynamic(..)) => match v {
                        Val::Dyn(..) => Ok(v),
                        v if matches!(fi.kind(), ty::Dynamic(..)) => Ok(v),
                        v => Ok(Val::Dyn(Rc::new(v), fi)),
                    },
                    _ => Ok(v),
                }
            }
            CastKind::PointerCoercion(PC::ReifyFnPointer(_), _) | CastKind::PointerCoercion(PC::ClosureFnPointer(_), _) => Ok(Val::FnPtr(from)),
            CastKind::PointerCoercion(_, _) | CastKind::PtrToPtr | CastKind::Subtype | CastKind::FnPtrToPtr | CastKind::BoxDerefTransmute => {
                // *const [T] as *const T and the like
                match (&v, pointee(to)) {
                    (Val::Slice(p, o, _), Some(t)) if !matches!(t.kind(), ty::Slice(_) | ty::Str) => match t.kind() {
                        ty::Array(..) => Ok(v),
                        _ => Ok(Val::Ref(p.push(Pr::I(o.clone())))),
                    },
                    _ => Ok(v),
                }
            }
            CastKind::Transmute => {
                match (&v, int_bits(to)) {
                    (Val::Int(_), Some(_)) => return Ok(v),
                    (Val::Bool(_), Some(_)) => return Ok(Val::Int(self.to_lin(&st.facts, &v)?)),
                    (Val::Rope(r), Some((bits, _))) => {
                        let mut l = Lin::k(0);
                        for i in 0..bits / 8 {
                            match r.read(&st.facts, &Lin::k(i as i128)) {
                                Some(x) => l = l.add(&x.scale(1i128 << (8 * i))),
                                None => return unsup("transmute"),
                            }
                        }
                        return Ok(Val::Int(l));
                    }
                    (Val::Int(l), None) => {
                        if let ty::Adt(d, a) = to.kind() {
                            if d.is_enum() && self.name(d.did()).ends_with("option::Option") && matches!(a.type_at(0).kind(), ty::Adt(..)) {
                                // Option<NonZero<_>>
                                if holds(&st.facts, &Cond::Eq(l.clone()).simp()) {
                                    return Ok(Val::none());
                                }
                                if holds(&st.facts, &Cond::Ne(l.clone()).simp()) {
                                    return Ok(Val::some(v));
                                }
                                return Err(Stop::Split(vec![Cond::Eq(l.clone()), Cond::Ne(l.clone())]));
                            }
                            if d.is_enum() {
                                return unsup("transmute to enum");
                            }
                        }
                        if let ty::Array(e, n) = to.kind() {
                            if is_u8(*e) {
                                let n = n.try_to_target_usize(self.tcx).unwrap_or(0);
                                return Ok(Val::Rope(Rc::new(Rope::bytes(self.le_bytes(&st.facts, l, n as u32)))));
                            }
                        }
                    }
                    _ => {}
                }
                match v {
                    Val::Ref(_) | Val::Slice(..) | Val::Int(_) | Val::Rope(_) | Val::Vecv(..) => Ok(v),
                    Val::Agg(ref f) if f.len() == 1 => Ok(f[0].clone()),
                    Val::Enum(d, m) if int_bits(to).is_some() && from != to => {
                        let isopt = matches!(from.kind(), ty::Adt(d, _) if self.name(d.did()).ends_with("option::Option"));
                        match (isopt, st.facts.norm(&d).as_const(), m.get(&1)) {
                            (true, Some(0), _) => Ok(Val::k(0)),
                            (true, Some(1), Some(f)) => Ok(f[0].clone()),
                            (true, None, _) => Err(Stop::Split(vec![Cond::Eq(d.clone()), Cond::Eq(d.addk(-1))])),
                            _ => unsup("transmute of enum"),
                        }
                    }
                    v => {
                        if from == to {
                            Ok(v)
                        } else {
                            self.expand(st, to)
                        }
                    }
                }
            }
            k => unsup(format!("cast {:?}", k)),
        }
    }
    pub fn le_bytes(&self, f: &Facts, l: &Lin, n: u32) -> Vec<Lin> {
        let mut v = vec![];
        for i in 0..n {
            let sh = mk_op_f(Some(f), Op::Shr, n * 8, &[l.clone(), Lin::k(8 * i as i128)]);
            v.push(mk_op_f(Some(f), Op::Trunc, 8, &[sh]));
        }
        v
    }

    // ------------------------------------------------------------------------------ terminators
    fn terminator(&mut self, mut st: State<'t>, info: &Rc<FnInfo<'t>>, base: ObjId, term: &Terminator<'t>, succ: &mut Vec<(usize, State<'t>)>) -> R<Option<Outs<'t>>> {
        if let Some(f) = self.stack.last_mut() {
            f.span = term.source_info.span;
        }
        match &term.kind {
            TerminatorKind::Goto { target, .. } => {
                succ.push((target.as_usize(), st));
                Ok(None)
            }
            TerminatorKind::FalseEdge { real_target, .. } | TerminatorKind::FalseUnwind { real_target, .. } => {
                succ.push((real_target.as_usize(), st));
                Ok(None)
            }
            TerminatorKind::SwitchInt { discr, targets } => {
                let v = self.operand(&mut st, info, base, discr)?;
                let interesting = info.krate == Krate::Gif;
                match v {
                    Val::Bool(c) => {
                        for (val, t) in targets.iter() {
                            let cc = if val == 0 { c.not() } else { c.clone() };
                            for s in assume_all(&st, &cc) {
                                succ.push((t.as_usize(), s));
                            }
                        }
                        // the otherwise edge
                        let mut rest = vec![];
                        for (val, _) in targets.iter() {
                            rest.push(if val == 0 { c.clone() } else { c.not() });
                        }
                        for s in assume_all(&st, &Cond::And(rest).simp()) {
                            succ.push((targets.otherwise().as_usize(), s));
                        }
                    }
                    Val::Int(l) => {
                        let l = st.facts.norm(&l);
                        let mut other = st.clone();
                        for (val, t) in targets.iter() {
                            let k = val as i128;
                            let c = Cond::Eq(l.addk(-k)).simp();
                            let mut s = st.clone();
                            s.facts.assume(&c);
                            if !s.facts.bottom {
                                succ.push((t.as_usize(), s));
                            }
                            other.facts.assume(&c.not());
                        }
                        if !other.facts.bottom {
                            succ.push((targets.otherwise().as_usize(), other));
                        }
                    }
                    Val::Enum(..) => return unsup("switch on enum"),
                    v => return unsup(format!("switch on {:?}", v)),
                }
                if interesting && succ.len() > 1 {
                    let loc = self.loc(term.source_info.span);
                    for (i, (t, s)) in succ.iter_mut().enumerate() {
                        s.note(format!("{}: branch {} -> bb{}", loc, i, t));
                    }
                }
                Ok(None)
            }
            TerminatorKind::Return => {
                let v = match st.objs.get(&base) {
                    Some(Val::Uninit) | None => {
                        let t = info.tys[0];
                        if self.is_zst(t) {
                            self.expand(&mut st, t)?
                        } else {
                            return unsup("return of uninitialised value");
                        }
                    }
                    Some(v) => v.clone(),
                };
                Ok(Some(vec![(st, v)]))
            }
            TerminatorKind::Unreachable => Err(Stop::Dead),
            TerminatorKind::UnwindResume | TerminatorKind::UnwindTerminate(_) => Err(Stop::Dead),
            TerminatorKind::Drop { place, target, .. } => {
                let t = self.place_ty(info, place);
                if self.needs_drop(t) {
                    let pv = self.place(&mut st, info, base, place)?;
                    if let PlaceV::Loc(p) = pv {
                        for s in self.drop_at(st, &p, t, term.source_info.span)? {
                            succ.push((target.as_usize(), s));
                        }
                        return Ok(None);
                    }
                }
                succ.push((target.as_usize(), st));
                Ok(None)
            }
            TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                let v = self.operand(&mut st, info, base, cond)?;
                let Val::Bool(c) = v else { return unsup("assert") };
                let c = if *expected { c } else { c.not() };
                let site = self.loc(term.source_info.span);
                let m = assert_kind(msg);
                if self.panic_frame().is_some() {
                    self.stats.panic_sites.insert(format!("{site} {m}"));
                }
                if !holds(&st.facts, &c) {
                    let mut bad = st.clone();
                    bad.facts.assume(&c.not());
                    if !bad.facts.bottom {
                        self.panic_finding(&bad, &m);
                    }
                } else if self.panic_frame().is_some() {
                    *self.stats.proved.entry(self.panic_prop.clone()).or_insert(0) += 1;
                }
                st.facts.assume(&c);
                if !st.facts.bottom {
                    succ.push((target.as_usize(), st));
                }
                Ok(None)
            }
            TerminatorKind::Call { func, args, destination, target, .. } => {
                let ft = self.mono(info.inst, func.ty(&info.body.local_decls, self.tcx));
                let mut vs = vec![];
                let mut tys = vec![];
                for a in args.iter() {
                    vs.push(self.operand(&mut st, info, base, &a.node)?);
                    tys.push(self.mono(info.inst, a.node.ty(&info.body.local_decls, self.tcx)));
                }
                let dty = self.place_ty(info, destination);
                let fval = match ft.kind() {
                    ty::FnDef(..) => None,
                    _ => Some(self.operand(&mut st, info, base, func)?),
                };
                // drop what the rest of this function cannot see
                if let Some(t) = target {
                    if !matches!(ft.kind(), ty::FnDef(d, _) if self.krate(*d) == Krate::Other) {
                        let live = info.live[t.as_usize()].clone();
                        let nl = info.body.local_decls.len() as u32;
                        let mut vals: Vec<ObjId> = vec![];
                        vs.iter().for_each(|v| v.objs(&mut vals));
                        self.prune_call(&mut st, base, nl, &live, vals, destination.local);
                    }
                }
                let outs = self.call(st, ft, fval, vs, tys, dty, term.source_info.span)?;
                if let Some(t) = target {
                    for (mut s, v) in outs {
                        if s.facts.bottom {
                            continue;
                        }
                        match self.assign(&mut s, info, base, destination, v) {
                            Ok(()) => succ.push((t.as_usize(), s)),
                            Err(Stop::Dead) => {}
                            Err(Stop::Split(_)) => return unsup("split in call destination"),
                            Err(e) => return Err(e),
                        }
                    }
                }
                Ok(None)
            }
            k => unsup(format!("terminator {:?}", k)),
        }
    }
    fn prune_call(&mut self, st: &mut State<'t>, base: ObjId, nl: u32, live: &[bool], extra: Vec<ObjId>, dest: Local) {
        let is_dead = |o: ObjId| o >= base && o < base + nl && !live[(o - base) as usize] && o != base + dest.as_u32();
        let mut keep: HashSet<ObjId> = HashSet::new();
        let mut work: Vec<ObjId> = st.objs.keys().copied().filter(|o| !is_dead(*o) && (*o < base + nl) && !self.const_objs.contains(o)).collect();
        work.extend(extra);
        if let Some((m, _)) = &self.mon {
            m.objs(&mut work);
        }
        for (v, _) in self.ghost_roots() {
            if !self.const_objs.contains(&v) {
                work.push(v);
            }
        }
        while let Some(o) = work.pop() {
            if !keep.insert(o) {
                continue;
            }
            if let Some(v) = st.objs.get(&o) {
                v.objs(&mut work);
            }
        }
        st.objs.retain(|o, _| keep.contains(o));
    }

    // ------------------------------------------------------------------------------ drops
    pub fn needs_drop(&mut self, t: Ty<'t>) -> bool {
        if let Some(b) = self.drop_cache.get(&t) {
            return *b;
        }
        self.drop_cache.insert(t, false);
        let r = match t.kind() {
            ty::Adt(d, args) => {
                if d.is_box() {
                    matches!(args.type_at(0).kind(), ty::Adt(..)) && self.needs_drop(args.type_at(0))
                } else {
                    let own = self.tcx.adt_destructor(d.did()).is_some() && self.krate(d.did()) != Krate::Other;
                    own || {
                        let ts: Vec<Ty<'t>> = d.all_fields().map(|f| self.field_ty(f, args)).collect();
                        let skip = self.krate(d.did()) == Krate::Other && !self.simple_std(d.did());
                        !skip && ts.into_iter().any(|t| self.needs_drop(t))
                    }
                }
            }
            ty::Tuple(ts) => ts.iter().any(|t| self.needs_drop(t)),
            ty::Closure(_, a) => a.as_closure().upvar_tys().iter().any(|t| self.needs_drop(t)),
            _ => false,
        };
        self.drop_cache.insert(t, r);
        r
    }
    fn simple_std(&mut self, d: DefId) -> bool {
        let n = self.name(d);
        n.starts_with("core::") || matches!(&*n, "std::option::Option" | "std::result::Result" | "std::ops::ControlFlow")
    }
    pub fn drop_at(&mut self, st: State<'t>, p: &crate::val::Place, t: Ty<'t>, span: Span) -> R<Vec<State<'t>>> {
        if !self.needs_drop(t) {
            return Ok(vec![st]);
        }
        let mut states = vec![st];
        match t.kind() {
            ty::Adt(d, args) => {
                if d.is_box() {
                    return Ok(states);
                }
                if let (Some(des), true) = (self.tcx.adt_destructor(d.did()), self.krate(d.did()) != Krate::Other) {
                    let inst = Instance::try_resolve(self.tcx, self.env, des.did, args).ok().flatten();
                    let Some(inst) = inst else { return unsup("destructor") };
                    let Some(info) = self.info(inst) else { return unsup("destructor body") };
                    let mut n = vec![];
                    for s in states {
                        for (s, _) in self.exec_fn(s, info.clone(), vec![Val::Ref(p.clone())], span)? {
                            n.push(s);
                        }
                    }
                    states = n;
                }
                if d.is_enum() {
                    let mut n = vec![];
                    for mut s in states {
                        let v = self.read(&mut s, p)?;
                        let Val::Enum(dl, m) = v else { return unsup(format!("drop of {:?}", v)) };
                        for (k, _) in m.iter() {
                            let mut s2 = s.clone();
                            s2.facts.assume(&Cond::Eq(dl.addk(-(*k as i128))).simp());
                            if s2.facts.bottom {
                                continue;
                            }
                            let fts: Vec<Ty<'t>> = d.variant((*k).into()).fields.iter().map(|f| self.field_ty(f, args)).collect();
                            let mut cur = vec![s2];
                            for (i, ft) in fts.into_iter().enumerate() {
                                let mut nn = vec![];
                                for s in cur {
                                    nn.extend(self.drop_at(s, &p.push(Pr::V(*k, i as u32)), ft, span)?);
                                }
                                cur = nn;
                            }
                            n.extend(cur);
                        }
                    }
                    return Ok(n);
                }
                let fts: Vec<Ty<'t>> = d.non_enum_variant().fields.iter().map(|f| self.field_ty(f, args)).collect();
                for (i, ft) in fts.into_iter().enumerate() {
                    let mut n = vec![];
                    for s in states {
                        n.extend(self.drop_at(s, &p.push(Pr::F(i as u32)), ft, span)?);
                    }
                    states = n;
                }
            }
            ty::Tuple(ts) => {
                for (i, ft) in ts.iter().enumerate() {
                    let mut n = vec![];
                    for s in states {
                        n.extend(self.drop_at(s, &p.push(Pr::F(i as u32)), ft, span)?);
                    }
                    states = n;
                }
            }
            _ => {}
        }
        Ok(states)
    }

    // ------------------------------------------------------------------------------ findings
    pub fn loc(&self, span: Span) -> String {
        let sm = self.tcx.sess.source_map();
        let span = span.source_callsite();
        let l = sm.lookup_char_pos(span.lo());
        let f = l.file.name.prefer_local_unconditionally().to_string();
        let f = f.rsplit("/repo/").next().unwrap_or(&f).to_string();
        let f = if f.len() > 60 { f.rsplit('/').next().unwrap().to_string() } else { f };
        format!("{}:{}", f, l.line)
    }
    /// Innermost frame of the library under analysis, if the code between it and the panic is library code
    pub fn panic_frame(&self) -> Option<usize> {
        for (i, f) in self.stack.iter().enumerate().rev() {
            match f.krate {
                Krate::Gif => return Some(i),
                Krate::Harness => {
                    if !f.path.contains("::models::") {
                        return None;
                    }
                }
                Krate::Other => {}
            }
        }
        None
    }
    pub fn gif_site(&self) -> (String, String) {
        for f in self.stack.iter().rev() {
            if f.krate == Krate::Gif {
                return (f.path.clone(), self.loc(f.span));
            }
        }
        match self.stack.last() {
            Some(f) => (f.path.clone(), self.loc(f.span)),
            None => (String::new(), String::new()),
        }
    }
    pub fn stack_strs(&self) -> Vec<String> {
        self.stack.iter().map(|f| format!("{} at {}", f.path, self.loc(f.span))).collect()
    }
    pub fn panic_finding(&mut self, st: &State<'t>, what: &str) {
        if enum_entails(&st.facts, &Cond::False) {
            return;
        }
        match self.panic_frame() {
            Some(_) => {
                let p = self.panic_prop.clone();
                self.finding(st, &p, "panic", &format!("may panic: {what}"));
            }
            None => {
                let p = self.panic_prop.clone();
                self.finding(st, &p, "harness", &format!("the analysis harness itself may panic: {what}"));
            }
        }
    }
    pub fn finding(&mut self, st: &State<'t>, prop: &str, kind: &str, msg: &str) {
        let (func, loc) = self.gif_site();
        let key = format!("{prop}|{kind}|{func}|{msg}|{}", self.entry);
        if self.debug >= 1 && !self.findings.contains_key(&key) {
            eprintln!("FINDING {key} @ {loc}\n   {}\n   trace {}", self.stack_strs().join("\n   "), st.trace_str(12).join(" ; "));
            if self.debug >= 3 || std::env::var("GIFSA_STATE").is_ok() {
                let ss = val_syms_closure(&st.objs);
                eprintln!("   facts {:?}", st.facts);
                for (o, v) in &st.objs {
                    eprintln!("  obj{o}: {v:?}");
                }
                eprintln!("  syms {:?}", ss.iter().map(|s| (*s, range(*s), def(*s))).collect::<Vec<_>>());
            }
        }
        let stack = self.stack_strs();
        let trace = st.trace_str(40);
        let facts = if self.findings.len() < 20 { format!("{:?}", st.facts) } else { String::new() };
        self.findings.entry(key).or_insert(Finding { prop: prop.into(), kind: kind.into(), msg: msg.into(), func, loc, stack, trace, facts });
    }
}

#[derive(Clone, Debug)]
pub enum PlaceV<'t> {
    Loc(crate::val::Place),
    Slice(crate::val::Place, Lin, Lin),
    Dyn(crate::val::Place, Ty<'t>),
}

pub fn b2(x: bool) -> Cond {
    if x {
        Cond::True
    } else {
        Cond::False
    }
}

/// States in which the condition holds (several for a disjunction)
pub fn assume_all<'t>(st: &State<'t>, c: &Cond) -> Vec<State<'t>> {
    let c = c.clone().simp();
    match &c {
        Cond::Or(v) if v.len() <= 6 => {
            let mut r = vec![];
            for (i, x) in v.iter().enumerate() {
                let mut s = st.clone();
                for y in &v[..i] {
                    s.facts.assume(&y.not());
                }
                if s.facts.bottom {
                    continue;
                }
                r.extend(assume_all(&s, x));
            }
            r
        }
        Cond::And(v) => {
            let mut r = vec![st.clone()];
            for x in v {
                let mut n = vec![];
                for s in &r {
                    n.extend(assume_all(s, x));
                }
                r = n;
            }
            r
        }
        c => {
            let mut s = st.clone();
            s.facts.assume(c);
            if let Some(sub) = nested_cond(c) {
                s.facts.assume(&sub);
            }
            if s.facts.bottom {
                vec![]
            } else {
                vec![s]
            }
        }
    }
}
/// `s != 0` where s stands for a condition
fn nested_cond(c: &Cond) -> Option<Cond> {
    let (l, pos) = match c {
        Cond::Ne(l) => (l, true),
        Cond::Eq(l) => (l, false),
        _ => return None,
    };
    let s = l.as_sym()?;
    match def(s) {
        Def::Cond(c) => Some(if pos { *c } else { c.not() }),
        _ => None,
    }
}

fn has_top(v: &Val<'_>) -> bool {
    match v {
        Val::Top(_) => true,
        Val::Agg(f) => f.iter().any(has_top),
        Val::Enum(_, m) => m.values().any(|f| f.iter().any(has_top)),
        _ => false,
    }
}
fn has_top_deep(v: &Val<'_>) -> bool {
    has_top(v)
}
fn set_simple<'t>(cur: &mut Val<'t>, pr: &[Pr], v: Val<'t>) {
    if pr.is_empty() {
        *cur = v;
        return;
    }
    match (&pr[0], cur) {
        (Pr::F(i), Val::Agg(fs)) => set_simple(&mut Rc::make_mut(fs)[*i as usize], &pr[1..], v),
        (Pr::V(k, i), Val::Enum(_, m)) => set_simple(&mut Rc::make_mut(Rc::make_mut(m).get_mut(k).unwrap())[*i as usize], &pr[1..], v),
        _ => {}
    }
}

pub fn is_u8(t: Ty<'_>) -> bool {
    matches!(t.kind(), ty::Uint(ty::UintTy::U8))
}
pub fn int_bits(t: Ty<'_>) -> Option<(u32, bool)> {
    Some(match t.kind() {
        ty::Uint(u) => (
            match u {
                ty::UintTy::U8 => 8,
                ty::UintTy::U16 => 16,
                ty::UintTy::U32 => 32,
                ty::UintTy::U64 | ty::UintTy::Usize => 64,
                ty::UintTy::U128 => 120,
            },
            false,
        ),
        ty::Int(u) => (
            match u {
                ty::IntTy::I8 => 8,
                ty::IntTy::I16 => 16,
                ty::IntTy::I32 => 32,
                ty::IntTy::I64 | ty::IntTy::Isize => 64,
                ty::IntTy::I128 => 120,
            },
            true,
        ),
        ty::Bool => (1, false),
        ty::Char => (32, false),
        _ => return None,
    })
}
/// The exact product. It is bounded by the bounds that its factors have here.
pub fn mul_lin(f: &mut Facts, a: &Lin, c: &Lin) -> Lin {
    let (a, c) = (f.norm(a), f.norm(c));
    let l = if let Some(k) = c.as_const() {
        a.scale(k)
    } else if let Some(k) = a.as_const() {
        c.scale(k)
    } else {
        mk_op_f(Some(f), Op::Mul, 0, &[a.clone(), c.clone()])
    };
    let ((a0, a1), (c0, c1)) = (f.tight_bounds(&a), f.tight_bounds(&c));
    if l.t.len() == 1 && a0 >= 0 && c0 >= 0 && a1 < 1 << 62 && c1 < 1 << 62 {
        let (hi, lo) = (a1 * c1, a0 * c0);
        f.assume_le(&l.addk(-hi));
        f.assume_le(&l.neg().addk(lo));
    }
    l
}
pub fn int_range(t: Ty<'_>) -> Option<(i128, i128)> {
    if let ty::Char = t.kind() {
        return Some((0, 0x10FFFF));
    }
    let (bits, signed) = int_bits(t)?;
    Some(if signed { (-(1i128 << (bits - 1)), (1i128 << (bits - 1)) - 1) } else { (0, (1i128 << bits) - 1) })
}
pub fn pointee<'t>(t: Ty<'t>) -> Option<Ty<'t>> {
    match t.kind() {
        ty::Ref(_, i, _) | ty::RawPtr(i, _) => Some(*i),
        ty::Adt(d, a) if d.is_box() => Some(a.type_at(0)),
        ty::Adt(_, a) if a.len() >= 1 && a.types().count() >= 1 => None,
        _ => None,
    }
}

fn assert_kind(m: &AssertMessage<'_>) -> String {
    match m {
        AssertKind::BoundsCheck { .. } => "index out of bounds".into(),
        AssertKind::Overflow(op, ..) => format!("arithmetic overflow ({:?})", op),
        AssertKind::OverflowNeg(_) => "negation overflow".into(),
        AssertKind::DivisionByZero(_) => "division by zero".into(),
        AssertKind::RemainderByZero(_) => "remainder by zero".into(),
        _ => "assertion".into(),
    }
}

// ---------------------------------------------------------------------------------- CFG helpers
pub fn succs(t: &Terminator<'_>) -> Vec<usize> {
    match &t.kind {
        TerminatorKind::Goto { target, .. } | TerminatorKind::Drop { target, .. } | TerminatorKind::Assert { target, .. } => vec![target.as_usize()],
        TerminatorKind::FalseEdge { real_target, .. } | TerminatorKind::FalseUnwind { real_target, .. } => vec![real_target.as_usize()],
        TerminatorKind::SwitchInt { targets, .. } => targets.all_targets().iter().map(|b| b.as_usize()).collect(),
        TerminatorKind::Call { target, .. } => target.iter().map(|b| b.as_usize()).collect(),
        _ => vec![],
    }
}

/// Weak topological order: position per block and the set of loop heads.
pub fn wto(n: usize, succ: &[Vec<usize>]) -> (Vec<u32>, Vec<bool>) {
    let mut order = vec![u32::MAX; n];
    let mut head = vec![false; n];
    let mut next = 0u32;
    let all: BTreeSet<usize> = (0..n).collect();
    comp(&[0], &all, succ, &mut order, &mut head, &mut next);
    (order, head)
}
fn comp(roots: &[usize], set: &BTreeSet<usize>, succ: &[Vec<usize>], order: &mut [u32], head: &mut [bool], next: &mut u32) {
    let sccs = tarjan(roots, set, succ);
    // sccs come in reverse topological order
    for scc in sccs.into_iter().rev() {
        if scc.nodes.len() == 1 && !succ[scc.nodes[0]].contains(&scc.nodes[0]) {
            order[scc.nodes[0]] = *next;
            *next += 1;
            continue;
        }
        // entry: the first visited node of the component
        let h = scc.entry;
        head[h] = true;
        order[h] = *next;
        *next += 1;
        let mut rest: BTreeSet<usize> = scc.nodes.iter().copied().collect();
        rest.remove(&h);
        let roots: Vec<usize> = succ[h].iter().copied().filter(|s| rest.contains(s)).chain(rest.iter().copied()).collect();
        comp(&roots, &rest, succ, order, head, next);
    }
}
struct Scc {
    nodes: Vec<usize>,
    entry: usize,
}
fn tarjan(roots: &[usize], set: &BTreeSet<usize>, succ: &[Vec<usize>]) -> Vec<Scc> {
    struct S<'a> {
        set: &'a BTreeSet<usize>,
        succ: &'a [Vec<usize>],
        idx: HashMap<usize, usize>,
        low: HashMap<usize, usize>,
        on: HashSet<usize>,
        stack: Vec<usize>,
        out: Vec<Scc>,
        n: usize,
    }
    fn go(s: &mut S<'_>, v: usize) {
        s.idx.insert(v, s.n);
        s.low.insert(v, s.n);
        s.n += 1;
        s.stack.push(v);
        s.on.insert(v);
        for &w in &s.succ[v].to_vec() {
            if !s.set.contains(&w) {
                continue;
            }
            if !s.idx.contains_key(&w) {
                go(s, w);
                let l = s.low[&w].min(s.low[&v]);
                s.low.insert(v, l);
            } else if s.on.contains(&w) {
                let l = s.idx[&w].min(s.low[&v]);
                s.low.insert(v, l);
            }
        }
        if s.low[&v] == s.idx[&v] {
            let mut nodes = vec![];
            loop {
                let w = s.stack.pop().unwrap();
                s.on.remove(&w);
                nodes.push(w);
                if w == v {
                    break;
                }
            }
            s.out.push(Scc { nodes, entry: v });
        }
    }
    let mut s = S { set, succ, idx: HashMap::new(), low: HashMap::new(), on: HashSet::new(), stack: vec![], out: vec![], n: 0 };
    for &r in roots {
        if set.contains(&r) && !s.idx.contains_key(&r) {
            go(&mut s, r);
        }
    }
    s.out
}

/// Locals that may be read later, per block entry. Locals that are borrowed anywhere stay live
/// only through the references (the caller keeps what is reachable).
fn liveness(body: &Body<'_>, succ: &[Vec<usize>]) -> Vec<Vec<bool>> {
    use rustc_middle::mir::visit::{PlaceContext, Visitor};
    let n = body.basic_blocks.len();
    let nl = body.local_decls.len();
    struct V {
        ops: Vec<(Local, bool)>, // (local, is full definition)
    }
    impl<'t> Visitor<'t> for V {
        fn visit_place(&mut self, p: &rustc_middle::mir::Place<'t>, c: PlaceContext, _l: Location) {
            let def = c.is_place_assignment() && p.projection.is_empty();
            self.ops.push((p.local, def));
            for e in p.projection.iter() {
                if let ProjectionElem::Index(l) = e {
                    self.ops.push((l, false));
                }
            }
        }
    }
    // per block: list of (uses, defs) in order, collapsed to gen/kill
    let mut gen = vec![vec![false; nl]; n];
    let mut kill = vec![vec![false; nl]; n];
    for (bb, data) in body.basic_blocks.iter_enumerated() {
        let i = bb.as_usize();
        let mut step = |ops: Vec<(Local, bool)>| {
            // uses happen before the definition
            for (l, d) in &ops {
                if !d && !kill[i][l.as_usize()] {
                    gen[i][l.as_usize()] = true;
                }
            }
            for (l, d) in &ops {
                if *d {
                    kill[i][l.as_usize()] = true;
                }
            }
        };
        for (k, s) in data.statements.iter().enumerate() {
            match s.kind {
                StatementKind::StorageLive(l) | StatementKind::StorageDead(l) => {
                    step(vec![(l, true)]);
                    continue;
                }
                _ => {}
            }
            let mut v = V { ops: vec![] };
            v.visit_statement(s, Location { block: bb, statement_index: k });
            step(v.ops);
        }
        let mut v = V { ops: vec![] };
        v.visit_terminator(data.terminator(), Location { block: bb, statement_index: data.statements.len() });
        if matches!(data.terminator().kind, TerminatorKind::Return) {
            v.ops.push((RETURN_PLACE, false));
        }
        // the destination of a call is assigned after its operands are used
        step(v.ops);
    }
    let mut live = vec![vec![false; nl]; n];
    let mut ch = true;
    while ch {
        ch = false;
        for i in (0..n).rev() {
            let mut out = vec![false; nl];
            for &s in &succ[i] {
                for l in 0..nl {
                    out[l] |= live[s][l];
                }
            }
            for l in 0..nl {
                let x = gen[i][l] || (out[l] && !kill[i][l]);
                if x != live[i][l] {
                    live[i][l] = x;
                    ch = true;
                }
            }
        }
    }
    live
}

/// The sequence at a place
fn place_in<'a, 't>(st: &'a State<'t>, p: &crate::val::Place) -> Option<&'a Val<'t>> {
    let mut c = st.objs.get(&p.obj);
    for pr in p.pr.iter() {
        c = match (pr, c) {
            (Pr::F(i), Some(Val::Agg(f))) => f.get(*i as usize),
            (Pr::V(n, i), Some(Val::Enum(_, m))) => m.get(n).and_then(|f| f.get(*i as usize)),
            _ => None,
        };
    }
    match c {
        Some(Val::Vecv(_, x)) => Some(&**x),
        c => c,
    }
}

/// Byte sequences of several parts become unknown sequences of the same length
pub fn coarsen<'t>(st: &mut State<'t>) {
    let mut objs = BTreeMap::new();
    for (o, v) in &st.objs {
        let v = crate::join::map_val(v, &mut |l| l.clone(), &mut |c| c.clone(), &mut |r| {
            let n = r.norm(&st.facts);
            let lit = n.0.len() <= 1 && n.0.iter().all(|s| matches!(&s.src, Src::Bytes(_) | Src::Fill(_)));
            let plain = n.0.len() == 1 && matches!(&n.0[0].src, Src::Base(_, o) if o.as_const() == Some(0));
            if n.0.is_empty() || lit || plain {
                None
            } else {
                Some(Rope::base(new_base("coarse"), n.len()))
            }
        });
        objs.insert(*o, v);
    }
    st.objs = objs;
}
