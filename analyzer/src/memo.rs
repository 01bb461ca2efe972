//! Function summaries: a call is analysed for a general entry state and the result instantiated for
//! each caller that is an instance of it.
use crate::interp::*;
use crate::join::*;
use crate::lin::*;
use crate::val::*;
use rustc_middle::ty::{self, Instance, Ty};
use rustc_span::Span;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use std::rc::Rc;

pub struct Summary<'t> {
    p: State<'t>,
    gen: BTreeSet<Sym>,
    gb: BTreeSet<u32>,
    round: usize,
    /// result states; the result itself is in the object `ret`
    outs: Option<Rc<Vec<State<'t>>>>,
}

#[derive(Default)]
pub struct Memo<'t> {
    canon: HashMap<(Instance<'t>, String, Ty<'t>), ObjId>,
    table: HashMap<(Instance<'t>, u64), Vec<Summary<'t>>>,
    pub hits: u64,
    pub misses: u64,
    pub fallback: u64,
}

/// A location of the caller that the callee can see
struct Loc<'t> {
    obj: ObjId,
    pre: Vec<Pr>,
    canon: ObjId,
    ty: Ty<'t>,
}

fn refs<'t>(v: &Val<'t>, label: &str, out: &mut Vec<(Place, String)>) {
    match v {
        Val::Ref(p) | Val::Slice(p, _, _) => out.push((p.clone(), format!("{label}*"))),
        Val::Agg(f) => f.iter().enumerate().for_each(|(i, x)| refs(x, &format!("{label}.{i}"), out)),
        Val::Enum(_, m) => m.iter().for_each(|(k, f)| f.iter().enumerate().for_each(|(i, x)| refs(x, &format!("{label}.{k}.{i}"), out))),
        Val::Seq(s) => {
            if let Some(e) = &s.elems {
                e.iter().enumerate().for_each(|(i, x)| refs(x, &format!("{label}[{i}]"), out))
            }
        }
        Val::Vecv(_, x) | Val::Dyn(x, _) => refs(x, label, out),
        _ => {}
    }
}

fn map_refs<'t>(v: &Val<'t>, f: &mut dyn FnMut(&Place) -> Option<Place>) -> Option<Val<'t>> {
    Some(match v {
        Val::Ref(p) => Val::Ref(f(p)?),
        Val::Slice(p, o, l) => Val::Slice(f(p)?, o.clone(), l.clone()),
        Val::Agg(x) => Val::agg(x.iter().map(|x| map_refs(x, f)).collect::<Option<Vec<_>>>()?),
        Val::Enum(d, m) => {
            let mut n = BTreeMap::new();
            for (k, x) in m.iter() {
                n.insert(*k, Rc::new(x.iter().map(|x| map_refs(x, f)).collect::<Option<Vec<_>>>()?));
            }
            Val::Enum(d.clone(), Rc::new(n))
        }
        Val::Seq(s) => {
            let elems = match &s.elems {
                Some(e) => Some(e.iter().map(|x| map_refs(x, f)).collect::<Option<Vec<_>>>()?),
                None => None,
            };
            Val::Seq(Rc::new(SeqV { len: s.len.clone(), elems, ety: s.ety }))
        }
        Val::Vecv(c, x) => Val::Vecv(c.clone(), Rc::new(map_refs(x, f)?)),
        Val::Dyn(x, t) => Val::Dyn(Rc::new(map_refs(x, f)?), *t),
        v => v.clone(),
    })
}

pub fn bases<'t>(v: &Val<'t>, out: &mut BTreeSet<u32>) {
    match v {
        Val::Rope(r) => r.0.iter().for_each(|s| {
            if let Src::Base(b, _) = &s.src {
                out.insert(*b);
            }
        }),
        Val::Agg(f) => f.iter().for_each(|x| bases(x, out)),
        Val::Enum(_, m) => m.values().for_each(|f| f.iter().for_each(|x| bases(x, out))),
        Val::Seq(s) => {
            if let Some(e) = &s.elems {
                e.iter().for_each(|x| bases(x, out))
            }
        }
        Val::Vecv(_, x) | Val::Dyn(x, _) => bases(x, out),
        _ => {}
    }
}

/// Instantiation of symbols and bases of a summary
struct Subst<'a> {
    bind: HashMap<Sym, Lin>,
    bbind: HashMap<u32, Rope>,
    facts: &'a Facts,
    fixed: &'a BTreeSet<Sym>,
}
impl<'a> Subst<'a> {
    fn lin(&mut self, l: &Lin) -> Lin {
        let mut r = Lin::k(l.c);
        for &(s, k) in &l.t {
            let m = self.sym(s);
            r = r.add_scaled(&m, k);
        }
        r
    }
    fn sym(&mut self, s: Sym) -> Lin {
        if let Some(l) = self.bind.get(&s) {
            return l.clone();
        }
        if self.fixed.contains(&s) {
            return Lin::s(s);
        }
        let (lo, hi) = range(s);
        let l = match def(s) {
            Def::Free => Lin::s(fresh(lo, hi, "i")),
            Def::Elem(b, i) => {
                let i = self.lin(&i);
                match self.base(b).read(self.facts, &i) {
                    Some(l) => l,
                    None => Lin::s(fresh(lo, hi, "i")),
                }
            }
            Def::Op(op, bits, v) => {
                let w: Vec<Lin> = v.iter().map(|l| self.lin(l)).collect();
                crate::ops::mk_op(op, bits, &w)
            }
            Def::Cond(c) => match self.cond(&c) {
                Cond::True => Lin::k(1),
                Cond::False => Lin::k(0),
                c2 => Lin::s(cond_sym(&c2)),
            },
        };
        self.bind.insert(s, l.clone());
        l
    }
    fn cond(&mut self, c: &Cond) -> Cond {
        c.map(&mut |s| self.sym(s))
    }
    fn base(&mut self, b: u32) -> Rope {
        if let Some(r) = self.bbind.get(&b) {
            return r.clone();
        }
        let r = Rope::base(new_base("i"), Lin::k(1 << 62));
        self.bbind.insert(b, r.clone());
        r
    }
    fn rope(&mut self, r: &Rope) -> Rope {
        let mut out = Rope::empty();
        for s in &r.0 {
            let len = self.lin(&s.len);
            let piece = match &s.src {
                Src::Base(b, o) => {
                    let o = self.lin(o);
                    let bound = self.base(*b);
                    match &bound.0[..] {
                        [Seg { src: Src::Base(c, st), .. }] => Rope(vec![Seg { len, src: Src::Base(*c, st.add(&o)) }]),
                        _ => match bound.slice(self.facts, &o, &len) {
                            Some(r) => r,
                            None => Rope::base(new_base("lost"), len),
                        },
                    }
                }
                Src::Bytes(v) => Rope(vec![Seg { len, src: Src::Bytes(v.iter().map(|l| self.lin(l)).collect()) }]),
                Src::Fill(l) => Rope(vec![Seg { len, src: Src::Fill(self.lin(l)) }]),
            };
            out = out.concat(&piece, self.facts);
        }
        out
    }
    fn val<'t>(&mut self, v: &Val<'t>) -> Val<'t> {
        let me = std::cell::RefCell::new(self);
        map_val(v, &mut |l| me.borrow_mut().lin(l), &mut |c| me.borrow_mut().cond(c), &mut |r| Some(me.borrow_mut().rope(r)))
    }
}

impl<'t> I<'t> {
    fn ty_at(&self, mut t: Ty<'t>, pr: &[Pr]) -> Option<Ty<'t>> {
        for p in pr {
            t = match (p, t.kind()) {
                (Pr::F(i), ty::Adt(d, a)) if d.is_struct() => self.field_ty(d.non_enum_variant().fields.iter().nth(*i as usize)?, a),
                (Pr::V(k, i), ty::Adt(d, a)) if d.is_enum() => self.field_ty(d.variant((*k).into()).fields.iter().nth(*i as usize)?, a),
                (Pr::F(i), ty::Tuple(ts)) => *ts.get(*i as usize)?,
                (Pr::F(i), ty::Closure(_, a)) => *a.as_closure().upvar_tys().get(*i as usize)?,
                _ => return None,
            };
        }
        Some(t)
    }
    fn canon_id(&mut self, inst: Instance<'t>, label: String, t: Ty<'t>) -> ObjId {
        if let Some(o) = self.memo.canon.get(&(inst, label.clone(), t)) {
            return *o;
        }
        let o = self.next_obj;
        self.next_obj += 1;
        self.obj_ty.insert(o, t);
        self.memo.canon.insert((inst, label, t), o);
        o
    }
    fn fixed_syms(&self) -> BTreeSet<Sym> {
        let mut f = BTreeSet::new();
        for l in self.alloc_limit.iter().chain(self.alloc_exempt.iter()) {
            f.extend(l.t.iter().map(|x| x.0));
        }
        f
    }

    /// The call by way of a summary. None: not possible
    pub fn summarized(&mut self, st: &State<'t>, info: &Rc<FnInfo<'t>>, args: &[Val<'t>], span: Span) -> R<Option<Outs<'t>>> {
        let mut st = st.clone();
        // ---- what the callee can see
        let mut locs: Vec<Loc<'t>> = vec![];
        let mut work: Vec<(Place, String)> = vec![];
        for (i, a) in args.iter().enumerate() {
            refs(a, &format!("{i}"), &mut work);
        }
        let fixed_objs: HashSet<ObjId> = self.globals.values().chain(self.hold.iter()).copied().collect();
        work.reverse();
        let mut n = 0;
        while let Some((p, label)) = work.pop() {
            n += 1;
            if n > 500 {
                return Ok(None);
            }
            if fixed_objs.contains(&p.obj) {
                continue;
            }
            let Some(root) = self.obj_ty.get(&p.obj).copied() else { return Ok(None) };
            if !st.objs.contains_key(&p.obj) {
                return Ok(None);
            }
            let mut pre: Vec<Pr> = vec![];
            for x in p.pr.iter() {
                if matches!(x, Pr::I(_)) {
                    break;
                }
                pre.push(x.clone());
            }
            let mut t = self.ty_at(root, &pre);
            while t.is_none() && !pre.is_empty() {
                pre.pop();
                t = self.ty_at(root, &pre);
            }
            let Some(t) = t else { return Ok(None) };
            if locs.iter().any(|l| l.obj == p.obj && pre.starts_with(&l.pre)) {
                continue;
            }
            locs.retain(|l| !(l.obj == p.obj && l.pre.starts_with(&pre)));
            let v = match self.read(&mut st, &Place { obj: p.obj, pr: Rc::new(pre.clone()) }) {
                Ok(v) => v,
                Err(_) => return Ok(None),
            };
            refs(&v, &label, &mut work);
            let canon = self.canon_id(info.inst, label, t);
            if locs.iter().any(|l| l.canon == canon) {
                return Ok(None);
            }
            locs.push(Loc { obj: p.obj, pre, canon, ty: t });
        }
        let _ = locs.iter().map(|l| l.ty).count();
        let to_canon = |p: &Place| -> Option<Place> {
            if fixed_objs.contains(&p.obj) {
                return Some(p.clone());
            }
            let l = locs.iter().find(|l| l.obj == p.obj && p.pr.starts_with(&l.pre))?;
            Some(Place { obj: l.canon, pr: Rc::new(p.pr[l.pre.len()..].to_vec()) })
        };
        let mut p: State<'t> = State::new();
        p.facts = st.facts.clone();
        for o in &fixed_objs {
            if let Some(v) = st.objs.get(o) {
                p.objs.insert(*o, v.clone());
            }
        }
        for l in &locs {
            let v = self.read(&mut st, &Place { obj: l.obj, pr: Rc::new(l.pre.clone()) })?;
            let Some(v) = map_refs(&v, &mut |p| to_canon(p)) else { return Ok(None) };
            p.objs.insert(l.canon, v);
        }
        let mut arg_ids = vec![];
        for (i, a) in args.iter().enumerate() {
            let Some(v) = map_refs(a, &mut |p| to_canon(p)) else { return Ok(None) };
            let id = self.canon_id(info.inst, format!("arg{i}"), info.tys[i + 1]);
            p.objs.insert(id, v);
            arg_ids.push(id);
        }
        let ret = self.canon_id(info.inst, "ret".into(), info.tys[0]);
        coarsen(&mut p);
        self.prune_syms(&mut p);
        self.assume_state(&mut p);
        let fixed = self.fixed_syms();
        let key = self.part_key(&p);

        // ---- find or make a summary
        let tk = (info.inst, key);
        let mut found: Option<(usize, HashMap<Sym, Lin>, HashMap<u32, Rope>)> = None;
        let mut why = String::new();
        if let Some(v) = self.memo.table.get(&tk) {
            for (i, s) in v.iter().enumerate() {
                if s.outs.is_none() || s.p.objs.len() != p.objs.len() {
                    continue;
                }
                let mut m = Matcher::new(&s.p, &p, &s.gen, &s.gb);
                let ids: Vec<ObjId> = s.p.objs.keys().copied().collect();
                if m.run(&mut ids.into_iter().map(|i| (i, i))) && m.check_facts() {
                    found = Some((i, m.bind.clone(), m.bbind.clone()));
                    break;
                }
                why = m.why.clone();
            }
        }
        if found.is_none() {
            self.memo.misses += 1;
            let old = self.memo.table.get(&tk).and_then(|v| v.iter().position(|s| s.p.objs.keys().eq(p.objs.keys())));
            let (mut gp, mut gen, mut gb, round) = match old {
                None => {
                    let mut gb = BTreeSet::new();
                    p.objs.iter().filter(|(o, _)| !fixed_objs.contains(o)).for_each(|(_, v)| bases(v, &mut gb));
                    let mut gen = val_syms_closure(&p.objs);
                    p.facts.syms(&mut gen);
                    gen.retain(|s| matches!(def(*s), Def::Free) && !fixed.contains(s));
                    (p.clone(), gen, gb, 0)
                }
                Some(i) => {
                    let s = &self.memo.table[&tk][i];
                    let j = self.join_states(&s.p, &p, s.round);
                    let mut gen = val_syms_closure(&j.st.objs);
                    j.st.facts.syms(&mut gen);
                    gen.retain(|s| matches!(def(*s), Def::Free) && !fixed.contains(s));
                    let mut gb = BTreeSet::new();
                    j.st.objs.iter().filter(|(o, _)| !fixed_objs.contains(o)).for_each(|(_, v)| bases(v, &mut gb));
                    (j.st, gen, gb, s.round + 1)
                }
            };
            if round > 40 {
                return Ok(None);
            }
            if self.debug >= 2 {
                eprintln!("summary {} key {key:x} round {round}: {why}", info.path);
            }
            rebind(&mut gp, &mut gen, &mut gb);
            self.prune_syms(&mut gp);
            // analyse
            let mut st0 = gp.clone();
            let mut a = vec![];
            for id in &arg_ids {
                a.push(st0.objs.remove(id).unwrap());
            }
            st0.trace = None;
            let mut keep: Vec<ObjId> = locs.iter().map(|l| l.canon).collect();
            keep.push(ret);
            let r = self.exec_plain(st0, info.clone(), a, span);
            let mut outs = r?;
            if outs.len() > 12 {
                outs = self.merge(outs, info);
            }
            let mut v = vec![];
            for (mut s, x) in outs {
                s.objs.insert(ret, x);
                // reachable objects only
                let mut live: HashSet<ObjId> = HashSet::new();
                let mut w: Vec<ObjId> = keep.clone();
                w.extend(fixed_objs.iter().copied());
                w.extend(self.globals.values().copied());
                while let Some(o) = w.pop() {
                    if live.insert(o) {
                        if let Some(v) = s.objs.get(&o) {
                            v.objs(&mut w);
                        }
                    }
                }
                s.objs.retain(|o, _| live.contains(o));
                // keep the symbols of the entry state: they connect to the caller
                let mut ls = val_syms_closure(&s.objs);
                ls.extend(val_syms_closure(&gp.objs));
                ls.extend(fixed.iter());
                s.facts.project(&|x| ls.contains(&x));
                v.push(s);
            }
            let sum = Summary { p: gp, gen, gb, round, outs: Some(Rc::new(v)) };
            let list = self.memo.table.entry(tk).or_default();
            let i = match old {
                Some(i) => {
                    list[i] = sum;
                    i
                }
                None => {
                    list.push(sum);
                    list.len() - 1
                }
            };
            let s = &self.memo.table[&tk][i];
            let mut m = Matcher::new(&s.p, &p, &s.gen, &s.gb);
            let ids: Vec<ObjId> = s.p.objs.keys().copied().collect();
            if m.run(&mut ids.into_iter().map(|i| (i, i))) && m.check_facts() {
                found = Some((i, m.bind.clone(), m.bbind.clone()));
            } else {
                if self.debug >= 1 {
                    eprintln!("summary of {} does not fit: {}", info.path, m.why);
                    if self.debug >= 2 {
                        eprintln!("  PATTERN {:?}\n   {:?}\n  INSTANCE {:?}\n   {:?}", s.p.objs, s.p.facts, p.objs, p.facts);
                    }
                }
                self.memo.fallback += 1;
                return Ok(None);
            }
        } else {
            self.memo.hits += 1;
        }
        let (i, bind, bbind) = found.unwrap();
        let outs = self.memo.table[&tk][i].outs.clone().unwrap();

        // ---- instantiate
        let mut res: Outs<'t> = vec![];
        for o in outs.iter() {
            let base_facts = st.facts.clone();
            let mut sub = Subst { bind: bind.clone(), bbind: bbind.clone(), facts: &base_facts, fixed: &fixed };
            let mut s = st.clone();
            let mut newobj: HashMap<ObjId, ObjId> = HashMap::new();
            for id in o.objs.keys() {
                if !locs.iter().any(|l| l.canon == *id) && !self.globals.values().any(|g| g == id) && !self.hold.contains(id) && *id != ret {
                    let n = self.next_obj;
                    self.next_obj += 1;
                    let t = self.obj_ty.get(id).copied();
                    if let Some(t) = t {
                        self.obj_ty.insert(n, t);
                    }
                    newobj.insert(*id, n);
                }
            }
            let globals: HashSet<ObjId> = self.globals.values().chain(self.hold.iter()).copied().collect();
            let mut back = |p: &Place| -> Option<Place> {
                if let Some(l) = locs.iter().find(|l| l.canon == p.obj) {
                    let mut pr = l.pre.clone();
                    pr.extend(p.pr.iter().cloned());
                    return Some(Place { obj: l.obj, pr: Rc::new(pr) });
                }
                if let Some(n) = newobj.get(&p.obj) {
                    return Some(Place { obj: *n, pr: p.pr.clone() });
                }
                // anything else is dead, or a constant
                Some(p.clone())
            };
            for c in o.facts.all() {
                let c = sub.cond(&c);
                s.facts.assume(&c);
            }
            if s.facts.bottom {
                continue;
            }
            let mut writes: Vec<(Place, Val<'t>)> = vec![];
            let mut result = Val::Uninit;
            for (id, v) in &o.objs {
                if globals.contains(id) {
                    s.objs.entry(*id).or_insert_with(|| v.clone());
                    continue;
                }
                let v = sub.val(v);
                let v = map_refs(&v, &mut back).unwrap();
                if *id == ret {
                    result = v;
                } else if let Some(l) = locs.iter().find(|l| l.canon == *id) {
                    writes.push((Place { obj: l.obj, pr: Rc::new(l.pre.clone()) }, v));
                } else {
                    s.objs.insert(newobj[id], v);
                }
            }
            let mut dead = false;
            for (p, v) in writes {
                match self.write(&mut s, &p, v) {
                    Ok(()) => {}
                    Err(Stop::Dead) => dead = true,
                    Err(e) => return Err(e),
                }
            }
            if !dead && !s.facts.bottom {
                res.push((s, result));
            }
        }
        Ok(Some(res))
    }
}
