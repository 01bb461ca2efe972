//! Calls: harness intrinsics, models of std and of the codec dependencies, and inlining.
use crate::interp::*;
use crate::lin::*;
use crate::ops::*;
use crate::val::*;
use rustc_middle::ty::{self, Instance, Ty};
use rustc_span::Span;
use std::collections::BTreeSet;
use std::rc::Rc;

/// `Ok(value)`-only shorthand
fn one<'t>(st: State<'t>, v: Val<'t>) -> R<Option<Outs<'t>>> {
    Ok(Some(vec![(st, v)]))
}

pub enum Ix {
    One(Lin),
    /// start, length; valid if the condition holds
    Range(Lin, Lin, Cond),
}

fn le(a: &Lin, b: &Lin) -> Cond {
    Cond::Le(a.sub(b)).simp()
}
fn lt(a: &Lin, b: &Lin) -> Cond {
    Cond::Le(a.sub(b).addk(1)).simp()
}

impl<'t> I<'t> {
    pub fn call(&mut self, mut st: State<'t>, ft: Ty<'t>, fval: Option<Val<'t>>, mut args: Vec<Val<'t>>, mut atys: Vec<Ty<'t>>, dty: Ty<'t>, span: Span) -> R<Outs<'t>> {
        let (did, gargs) = match ft.kind() {
            ty::FnDef(d, a) => (*d, a.no_bound_vars().unwrap_or_else(|| a.skip_binder())),
            ty::FnPtr(..) => match fval {
                Some(Val::FnPtr(t)) => match t.kind() {
                    ty::FnDef(..) => return self.call(st, t, None, args, atys, dty, span),
                    ty::Closure(d, a) => {
                        let inst = Instance::resolve_closure(self.tcx, *d, a, ty::ClosureKind::Fn);
                        let o = self.alloc(&mut st, Val::unit(), t);
                        args.insert(0, Val::Ref(Place::obj(o)));
                        let Some(info) = self.info(inst) else { return unsup("closure body") };
                        return self.exec_fn(st, info, args, span);
                    }
                    _ => return unsup("function pointer"),
                },
                v => return unsup(format!("call of {:?}", v)),
            },
            _ => return unsup(format!("call of {:?}", ft)),
        };
        let name = self.name(did);
        if name.starts_with("gifsa_harness::rt::") && !name.starts_with("gifsa_harness::rt::models") {
            return self.intrinsic(st, &name["gifsa_harness::rt::".len()..], args, atys, gargs, dty, span);
        }
        // calls of functions through the Fn traits
        if matches!(&*name, "std::ops::FnOnce::call_once" | "std::ops::FnMut::call_mut" | "std::ops::Fn::call") {
            let selfty = gargs.type_at(0);
            match selfty.kind() {
                ty::FnDef(..) | ty::FnPtr(..) => {
                    let (vs, ts) = self.untuple(&mut st, &args[1], atys[1])?;
                    let fv = args[0].clone();
                    let fv = if &*name == "std::ops::FnOnce::call_once" {
                        fv
                    } else if let Val::Ref(p) = &fv {
                        self.read(&mut st, p)?
                    } else {
                        fv
                    };
                    return self.call(st, selfty, Some(fv), vs, ts, dty, span);
                }
                ty::Closure(cd, ca) => {
                    let kind = ca.as_closure().kind();
                    let (vs, _) = self.untuple(&mut st, &args[1], atys[1])?;
                    let me = if &*name == "std::ops::FnOnce::call_once" && kind != ty::ClosureKind::FnOnce {
                        let o = self.alloc(&mut st, args[0].clone(), selfty);
                        Val::Ref(Place::obj(o))
                    } else {
                        args[0].clone()
                    };
                    let inst = Instance::resolve_closure(self.tcx, *cd, ca, kind);
                    let Some(info) = self.info(inst) else { return unsup("closure body") };
                    let mut a = vec![me];
                    a.extend(vs);
                    return self.exec_fn(st, info, a, span);
                }
                ty::Dynamic(..) => {
                    if let Val::Dyn(inner, t) = args[0].clone() {
                        let selfargs: Vec<ty::GenericArg<'t>> = std::iter::once(t.into()).chain(gargs.iter().skip(1)).collect();
                        let ga = self.tcx.mk_args(&selfargs);
                        let nft = Ty::new_fn_def(self.tcx, did, ty::Binder::dummy(ga));
                        args[0] = (*inner).clone();
                        return self.call(st, nft, None, args, atys, dty, span);
                    }
                    return unsup(format!("call of unknown closure {:?}", args[0]));
                }
                _ => {}
            }
        }
        let inst = match Instance::try_resolve(self.tcx, self.env, did, gargs) {
            Ok(Some(i)) => i,
            _ => return unsup(format!("unresolved call of {name}")),
        };
        if let ty::InstanceKind::Virtual(vd, _) = inst.def {
            if let Val::Dyn(inner, t) = args[0].clone() {
                let selfargs: Vec<ty::GenericArg<'t>> = std::iter::once(t.into()).chain(gargs.iter().skip(1)).collect();
                let ga = self.tcx.mk_args(&selfargs);
                let nft = Ty::new_fn_def(self.tcx, vd, ty::Binder::dummy(ga));
                args[0] = (*inner).clone();
                atys[0] = Ty::new_mut_ref(self.tcx, self.tcx.lifetimes.re_erased, t);
                return self.call(st, nft, None, args, atys, dty, span);
            }
            return self.opaque(st, &name, args, atys, dty);
        }
        let rname = self.name(inst.def_id());
        if self.debug >= 4 {
            eprintln!("{}call {rname} {:?}", " ".repeat(self.stack.len()), args);
        }
        let kr = self.krate(inst.def_id());
        if kr == Krate::Other {
            if let Some(o) = self.model(&mut st, &rname, &name, &args, &atys, gargs, inst, dty, span)? {
                self.stats.models.insert(rname.to_string());
                return Ok(o);
            }
        }
        // diverging calls
        if dty.is_never() {
            if kr == Krate::Other {
                let what = format!("call of {rname}");
                self.panic_finding(&st, &what);
                return Ok(vec![]);
            }
        }
        if let Some(info) = self.info(inst) {
            if kr != Krate::Other || self.may_inline(&rname) {
                if info.body.spread_arg.is_none() && args.len() != info.body.arg_count {
                    return unsup(format!("argument count of {rname}"));
                }
                let hook = self.is_step(&info, dty);
                let hook_args = if hook { Some(args.clone()) } else { None };
                let outs = self.exec_fn(st, info, args, span)?;
                if let Some(a) = hook_args {
                    return self.run_hook(outs, a, dty, span);
                }
                return Ok(outs);
            }
        }
        self.opaque(st, &rname, args, atys, dty)
    }

    fn may_inline(&self, n: &str) -> bool {
        !(n.starts_with("std::fmt::") || n.starts_with("core::fmt::") || n.contains("as std::fmt::") || n.contains("as core::fmt::") || n.starts_with("std::sys") || n.starts_with("std::alloc") || n.starts_with("alloc::alloc") || n.starts_with("weezl::") || n.starts_with("color_quant::"))
    }

    fn untuple(&mut self, st: &mut State<'t>, v: &Val<'t>, t: Ty<'t>) -> R<(Vec<Val<'t>>, Vec<Ty<'t>>)> {
        let ty::Tuple(ts) = t.kind() else { return unsup("untuple") };
        let v = self.deepen(st, v.clone(), 2)?;
        match v {
            Val::Agg(f) => Ok((f.to_vec(), ts.iter().collect())),
            v => unsup(format!("untuple {:?}", v)),
        }
    }

    /// An unknown function: anything reachable through mutable references may change
    pub fn opaque(&mut self, mut st: State<'t>, name: &str, args: Vec<Val<'t>>, atys: Vec<Ty<'t>>, dty: Ty<'t>) -> R<Outs<'t>> {
        *self.stats.opaque.entry(name.to_string()).or_insert(0) += 1;
        if dty.is_never() {
            return Ok(vec![]);
        }
        for (a, t) in args.iter().zip(&atys) {
            if let ty::Ref(_, inner, m) = t.kind() {
                if m.is_mut() {
                    self.havoc(&mut st, a, *inner)?;
                }
            }
        }
        let v = match self.expand(&mut st, dty) {
            Ok(v) => v,
            Err(Stop::Dead) => return Ok(vec![]),
            Err(e) => return Err(e),
        };
        Ok(vec![(st, v)])
    }
    pub fn havoc(&mut self, st: &mut State<'t>, v: &Val<'t>, inner: Ty<'t>) -> R<()> {
        match v {
            Val::Ref(p) => self.write(st, p, Val::Top(inner)),
            Val::Slice(p, o, l) => {
                let e = match inner.kind() {
                    ty::Slice(e) => *e,
                    _ => self.tcx.types.u8,
                };
                let c = self.top_content(e, l.clone());
                self.write_range(st, p, o, &c, l)
            }
            Val::Dyn(i, t) => {
                let i = (**i).clone();
                self.havoc(st, &i, *t)
            }
            _ => Ok(()),
        }
    }

    // ------------------------------------------------------------------------------ sequences
    pub fn slice_of(&mut self, st: &mut State<'t>, v: &Val<'t>) -> R<(Place, Lin, Lin)> {
        match v {
            Val::Slice(p, o, l) => Ok((p.clone(), o.clone(), l.clone())),
            Val::Ref(p) => {
                let c = self.read(st, p)?;
                match c.seq_len() {
                    Some(l) => Ok((p.clone(), Lin::k(0), l)),
                    None => match c {
                        Val::Ref(_) | Val::Slice(..) => self.slice_of(st, &c),
                        // Cow
                        c => unsup(format!("not a sequence: {:?}", c)),
                    },
                }
            }
            Val::Vecv(..) | Val::Rope(_) | Val::Seq(_) => {
                let o = self.alloc(st, v.clone(), self.tcx.types.unit);
                let l = v.seq_len().unwrap();
                Ok((Place::obj(o), Lin::k(0), l))
            }
            Val::Top(t) => {
                let x = self.expand(st, *t)?;
                if matches!(x, Val::Top(_)) {
                    return unsup(format!("unknown slice {:?}", t));
                }
                self.slice_of(st, &x)
            }
            v => unsup(format!("not a slice: {:?}", v)),
        }
    }
    pub fn content(&mut self, st: &mut State<'t>, p: &Place) -> R<Val<'t>> {
        let v = self.read(st, p)?;
        match v {
            Val::Vecv(_, c) => Ok((*c).clone()),
            v @ (Val::Rope(_) | Val::Seq(_)) => Ok(v),
            v => unsup(format!("content of {:?}", v)),
        }
    }
    pub fn set_content(&mut self, st: &mut State<'t>, p: &Place, c: Val<'t>) -> R<()> {
        let v = self.read(st, p)?;
        match v {
            Val::Vecv(cap, _) => self.write(st, p, Val::Vecv(cap, Rc::new(c))),
            _ => self.write(st, p, c),
        }
    }
    pub fn content_slice(&mut self, st: &State<'t>, c: &Val<'t>, off: &Lin, len: &Lin) -> R<Val<'t>> {
        match c {
            Val::Rope(r) => Ok(Val::Rope(Rc::new(match r.slice(&st.facts, off, len) {
                Some(r) => r,
                None => {
                    if std::env::var("SDBG").is_ok() {
                        eprintln!("SLICE {:?} off {:?} len {:?} facts {:?}", r, off, len, st.facts);
                    }
                    // where does the range start and end?
                    let mut ends = vec![off.clone()];
                    if len.as_const() != Some(0) {
                        ends.push(off.add(len).addk(-1));
                    }
                    for e in ends {
                        if let Some(c) = self.rope_split(st, r, &e) {
                            if c.len() == 2 && r.0.len() <= 4 {
                                return Err(Stop::Split(c));
                            }
                        }
                    }
                    Rope::base(new_base("lost"), len.clone())
                }
            }))),
            Val::Seq(s) => {
                let (o, l) = (st.facts.norm(off), st.facts.norm(len));
                let elems = match (&s.elems, o.as_const(), l.as_const()) {
                    (Some(e), Some(o), Some(l)) if o >= 0 && l >= 0 && (o + l) as usize <= e.len() => Some(e[o as usize..(o + l) as usize].to_vec()),
                    _ => None,
                };
                Ok(Val::Seq(Rc::new(SeqV { len: l, elems, ety: s.ety })))
            }
            c => unsup(format!("slice of {:?}", c)),
        }
    }
    pub fn concat(&mut self, st: &State<'t>, a: &Val<'t>, b: &Val<'t>) -> R<Val<'t>> {
        match (a, b) {
            (Val::Rope(x), Val::Rope(y)) => Ok(Val::Rope(Rc::new(x.concat(y, &st.facts)))),
            (Val::Seq(x), Val::Seq(y)) => {
                let elems = match (&x.elems, &y.elems) {
                    (Some(a), Some(b)) if a.len() + b.len() <= 64 => Some(a.iter().chain(b).cloned().collect()),
                    _ => None,
                };
                Ok(Val::Seq(Rc::new(SeqV { len: x.len.add(&y.len), elems, ety: x.ety })))
            }
            (a, b) => unsup(format!("concat {:?} {:?}", a, b)),
        }
    }
    pub fn write_range(&mut self, st: &mut State<'t>, p: &Place, off: &Lin, c: &Val<'t>, len: &Lin) -> R<()> {
        let old = self.content(st, p)?;
        let new = match (&old, c) {
            (Val::Rope(r), Val::Rope(n)) => {
                let r2 = match r.write(&st.facts, off, n) {
                    Some(r) => r,
                    None => Rope::base(new_base("lost"), r.len()),
                };
                Val::Rope(Rc::new(r2))
            }
            (Val::Seq(s), Val::Seq(n)) => {
                let o = st.facts.norm(off).as_const();
                let elems = match (&s.elems, &n.elems, o) {
                    (Some(e), Some(n), Some(o)) if o as usize + n.len() <= e.len() => {
                        let mut e = e.clone();
                        for (i, x) in n.iter().enumerate() {
                            e[o as usize + i] = x.clone();
                        }
                        Some(e)
                    }
                    _ => None,
                };
                Val::Seq(Rc::new(SeqV { len: s.len.clone(), elems, ety: s.ety }))
            }
            (o, n) => return unsup(format!("write {:?} into {:?}", n, o)),
        };
        let _ = len;
        self.set_content(st, p, new)
    }
    fn elem_content(&mut self, v: Val<'t>, e: Ty<'t>) -> R<Val<'t>> {
        Ok(if is_u8(e) {
            match v {
                Val::Int(l) => Val::Rope(Rc::new(Rope::bytes(vec![l]))),
                v => return unsup(format!("byte {:?}", v)),
            }
        } else {
            Val::Seq(Rc::new(SeqV { len: Lin::k(1), elems: Some(vec![v]), ety: e }))
        })
    }
    fn repeat_content(&mut self, v: Val<'t>, e: Ty<'t>, n: &Lin) -> R<Val<'t>> {
        Ok(if is_u8(e) {
            match v {
                Val::Int(l) => Val::Rope(Rc::new(Rope::fill(l, n.clone()))),
                v => return unsup(format!("byte {:?}", v)),
            }
        } else {
            let elems = n.as_const().filter(|n| *n <= 64).map(|n| vec![v; n as usize]);
            Val::Seq(Rc::new(SeqV { len: n.clone(), elems, ety: e }))
        })
    }
    fn int(&self, st: &State<'t>, v: &Val<'t>) -> R<Lin> {
        self.to_lin(&st.facts, v)
    }
    pub fn index_of(&mut self, st: &mut State<'t>, v: &Val<'t>, ity: Ty<'t>, len: &Lin) -> R<Ix> {
        if let ty::Uint(_) = ity.kind() {
            return Ok(Ix::One(self.int(st, v)?));
        }
        let ty::Adt(d, _) = ity.kind() else { return unsup(format!("index type {:?}", ity)) };
        let n = self.name(d.did());
        let v = self.deepen(st, v.clone(), 2)?;
        let Val::Agg(f) = v else { return unsup("range value") };
        let g = |i: usize| -> R<Lin> { self.to_lin(&st.facts, &f[i]) };
        let n = n.rsplit("::").next().unwrap_or("").to_string();
        Ok(match n.as_str() {
            "Range" => {
                let (a, b) = (g(0)?, g(1)?);
                Ix::Range(a.clone(), b.sub(&a), Cond::And(vec![le(&a, &b), le(&b, len)]).simp())
            }
            "RangeTo" => {
                let b = g(0)?;
                Ix::Range(Lin::k(0), b.clone(), le(&b, len))
            }
            "RangeFrom" => {
                let a = g(0)?;
                Ix::Range(a.clone(), len.sub(&a), le(&a, len))
            }
            "RangeFull" => Ix::Range(Lin::k(0), len.clone(), Cond::True),
            "RangeInclusive" => {
                let (a, b) = (g(0)?, g(1)?.addk(1));
                Ix::Range(a.clone(), b.sub(&a), Cond::And(vec![le(&a, &b), le(&b, len)]).simp())
            }
            "RangeToInclusive" => {
                let b = g(0)?.addk(1);
                Ix::Range(Lin::k(0), b.clone(), le(&b, len))
            }
            _ => return unsup(format!("index type {n}")),
        })
    }
    /// Panic unless the condition holds; continue assuming it
    pub fn require(&mut self, st: &mut State<'t>, c: &Cond, what: &str) -> R<()> {
        let (_, loc) = self.gif_site();
        if self.panic_frame().is_some() {
            self.stats.panic_sites.insert(format!("{loc} {what}"));
        }
        if !holds(&st.facts, c) {
            let mut bad = false;
            for s in assume_all(st, &c.not()) {
                if !s.facts.contradictory() {
                    bad = true;
                    self.panic_finding(&s, what);
                }
            }
            if !bad && self.panic_frame().is_some() {
                *self.stats.proved.entry(self.panic_prop.clone()).or_insert(0) += 1;
            }
            st.facts.assume(c);
            if st.facts.bottom {
                return Err(Stop::Dead);
            }
        } else if self.panic_frame().is_some() {
            *self.stats.proved.entry(self.panic_prop.clone()).or_insert(0) += 1;
        }
        Ok(())
    }
    fn split(&self, st: &State<'t>, c: &Cond) -> (Vec<State<'t>>, Vec<State<'t>>) {
        if holds(&st.facts, c) {
            return (vec![st.clone()], vec![]);
        }
        (assume_all(st, c), assume_all(st, &c.not()))
    }
    /// Run a function on each state
    pub fn call_fn(&mut self, st: State<'t>, did: rustc_span::def_id::DefId, ga: &[ty::GenericArg<'t>], args: Vec<Val<'t>>, span: Span) -> R<Outs<'t>> {
        let ga = self.tcx.mk_args(ga);
        let ft = Ty::new_fn_def(self.tcx, did, ty::Binder::dummy(ga));
        let sig = self.tcx.normalize_erasing_late_bound_regions(self.env, ft.fn_sig(self.tcx));
        let atys = sig.inputs().to_vec();
        self.call(st, ft, None, args, atys, sig.output(), span)
    }
    fn elem_ref(&self, p: &Place, ix: &Lin) -> Val<'t> {
        Val::Ref(p.push(Pr::I(ix.clone())))
    }
    fn size_of(&self, t: Ty<'t>) -> i128 {
        self.tcx.layout_of(self.env.as_query_input(t)).map_or(1, |l| l.size.bytes() as i128)
    }
    /// A buffer of `n` elements of type `e` is about to be allocated or grown
    fn alloc_request(&mut self, st: &mut State<'t>, n: &Lin, e: Ty<'t>, checked: bool) -> R<()> {
        let sz = self.size_of(e);
        let bytes = st.facts.norm(&n.scale(sz.max(1)));
        if checked {
            self.require(st, &Cond::Le(bytes.addk(-MAX_LEN)).simp(), "capacity overflow")?;
        } else {
            st.facts.assume(&Cond::Le(bytes.addk(-MAX_LEN)));
        }
        if self.panic_frame().is_none() {
            return Ok(());
        }
        let Some(limit) = self.alloc_limit.clone() else { return Ok(()) };
        let (_, loc) = self.gif_site();
        self.stats.alloc_sites.insert(loc);
        if st.facts.bounds_n(&bytes).1 <= 1024 || holds(&st.facts, &le(&bytes, &limit)) {
            return Ok(());
        }
        for x in self.alloc_exempt.clone() {
            if holds(&st.facts, &le(&bytes, &x)) {
                return Ok(());
            }
        }
        let mut bad = st.clone();
        bad.facts.assume(&lt(&limit, &bytes));
        if !bad.facts.bottom && !enum_entails(&bad.facts, &Cond::False) {
            self.finding(&bad, "P05", "allocation", "the size of an allocation is not bounded by the memory limit");
        }
        Ok(())
    }
    fn vec_at(&mut self, st: &mut State<'t>, v: &Val<'t>) -> R<(Place, Lin, Val<'t>)> {
        let Val::Ref(p) = v else { return unsup(format!("not a vector reference: {:?}", v)) };
        match self.read(st, p)? {
            Val::Vecv(c, x) => Ok((p.clone(), c, (*x).clone())),
            v => unsup(format!("not a vector: {:?}", v)),
        }
    }
    fn vec_append(&mut self, st: &mut State<'t>, v: &Val<'t>, add: &Val<'t>, e: Ty<'t>) -> R<()> {
        let (p, cap, c) = self.vec_at(st, v)?;
        let n = self.concat(st, &c, add)?;
        let len = st.facts.norm(&n.seq_len().unwrap());
        let cap = if holds(&st.facts, &le(&len, &cap)) {
            cap
        } else {
            self.alloc_request(st, &len, e, false)?;
            let nc = Lin::s(fresh(0, MAX_LEN, "cap"));
            st.facts.assume(&le(&len, &nc));
            st.facts.assume(&le(&cap, &nc));
            nc
        };
        if st.facts.bottom {
            return Err(Stop::Dead);
        }
        self.write(st, &p, Val::Vecv(cap, Rc::new(n)))
    }
    /// Equality of two byte sequences as a condition, if it can be expressed
    pub fn seq_eq(&mut self, st: &mut State<'t>, a: &Val<'t>, b: &Val<'t>) -> R<Cond> {
        let (pa, oa, la) = self.slice_of(st, a)?;
        let (pb, ob, lb) = self.slice_of(st, b)?;
        let ll = Cond::Eq(st.facts.norm(&la.sub(&lb))).simp();
        if st.facts.refutes(&ll) {
            return Ok(Cond::False);
        }
        if !st.facts.entails(&ll) {
            return Err(Stop::Split(vec![ll.clone(), ll.not()]));
        }
        let ca = self.content(st, &pa)?;
        let cb = self.content(st, &pb)?;
        let xa = self.content_slice(st, &ca, &oa, &la)?;
        let xb = self.content_slice(st, &cb, &ob, &lb)?;
        if let (Val::Rope(x), Val::Rope(y)) = (&xa, &xb) {
            let (x, y) = (x.norm(&st.facts), y.norm(&st.facts));
            if rope_same(&st.facts, &x, &y) {
                return Ok(Cond::True);
            }
            let n = st.facts.norm(&la).as_const().or(st.facts.norm(&lb).as_const());
            if let Some(n) = n {
                if n <= 40 {
                    let mut cs = vec![];
                    for i in 0..n {
                        match (x.read(&st.facts, &Lin::k(i)), y.read(&st.facts, &Lin::k(i))) {
                            (Some(a), Some(b)) => cs.push(Cond::Eq(st.facts.norm(&a.sub(&b))).simp()),
                            _ => return Ok(Cond::Ne(Lin::s(fresh(0, 1, "eq?")))),
                        }
                    }
                    return Ok(Cond::And(cs).simp());
                }
            }
        }
        Ok(Cond::Ne(Lin::s(fresh(0, 1, "eq?"))))
    }

    /// the iterator and closure of a `FlatMap` that was not yet advanced
    fn flat_map_parts(&mut self, t: Ty<'t>, v: &Val<'t>) -> Option<(Vec<ty::GenericArg<'t>>, Vec<Val<'t>>)> {
        let ty::Adt(d, g) = t.kind() else { return None };
        if !self.name(d.did()).ends_with("FlatMap") {
            return None;
        }
        let Val::Agg(a) = v else { return None };
        let Val::Agg(a) = a.first()? else { return None };
        let (Some(Val::Agg(fuse)), Some(Val::Enum(f, _)), Some(Val::Enum(b, _))) = (a.first(), a.get(1), a.get(2)) else { return None };
        if f.as_const() != Some(0) || b.as_const() != Some(0) {
            return None;
        }
        let Some(Val::Enum(k, fs)) = fuse.first() else { return None };
        if k.as_const() != Some(1) {
            return None;
        }
        let Val::Agg(map) = fs.get(&1)?.first()? else { return None };
        Some((g.iter().collect(), map.iter().cloned().collect()))
    }

    // ------------------------------------------------------------------------------ models
    #[allow(clippy::too_many_arguments)]
    fn model(&mut self, st: &mut State<'t>, n: &str, tn: &str, a: &[Val<'t>], atys: &[Ty<'t>], ga: ty::GenericArgsRef<'t>, inst: Instance<'t>, dty: Ty<'t>, span: Span) -> R<Option<Outs<'t>>> {
        // iterator adaptors over native iterators: use the default bodies of the trait
        if let Some(m) = tn.strip_prefix("std::iter::Iterator::") {
            if self.is_native_iter(ga.type_at(0)) {
                match m {
                    "next" => return self.iter_next(st, a, ga.type_at(0), dty, span).map(Some),
                    "size_hint" => return Ok(Some(self.opaque(st.clone(), n, a.to_vec(), atys.to_vec(), dty)?)),
                    "collect" => {}
                    "zip" | "by_ref" => {}
                    "nth" | "fold" | "any" | "all" | "position" | "find" | "find_map" | "for_each" | "count" | "last" | "max" | "min" | "sum" | "max_by_key" | "reduce" | "try_fold" | "try_for_each" | "max_by" | "min_by" | "product" | "partition" => {
                        let did = self.trait_item(tn, inst, ga);
                        if let Some(did) = did {
                            let i2 = Instance::new_raw(did, ga);
                            if let Some(info) = self.info(i2) {
                                return Ok(Some(self.exec_fn(st.clone(), info, a.to_vec(), span)?));
                            }
                        }
                    }
                    _ => {}
                }
            }
            match m {
                "collect" => {
                    let target = ga.type_at(1);
                    if let ty::Adt(d, _) = target.kind() {
                        let tname = self.name(d.did());
                        if tname.ends_with("vec::Vec") || tname.ends_with("::HashMap") || tname.ends_with("::HashSet") || tname.ends_with("::BTreeMap") || tname.ends_with("::BTreeSet") {
                            if let Some(&f) = self.models.get("collect_vec") {
                                let outs = match (self.flat_map_parts(ga.type_at(0), &a[0]), self.models.get("flat_vec")) {
                                    (Some((g, v)), Some(&f)) => self.call_fn(st.clone(), f, &g, v, span)?,
                                    _ => self.call_fn(st.clone(), f, &[ga[0]], a.to_vec(), span)?,
                                };
                                if tname.ends_with("vec::Vec") {
                                    return Ok(Some(outs));
                                }
                                return Ok(Some(
                                    outs.into_iter()
                                        .map(|(mut s, v)| {
                                            let l = v.seq_len().unwrap_or_default();
                                            let h = Lin::s(fresh(0, MAX_LEN, "hashlen"));
                                            s.facts.assume(&le(&h, &l));
                                            (s, Val::Int(h))
                                        })
                                        .collect(),
                                ));
                            }
                        }
                    }
                }
                "zip" => {
                    // Zip { a, b }
                    let other = ga.type_at(1);
                    let into = self.tcx.require_lang_item(rustc_attr_ir::lang_items::LangItem::IntoIterIntoIter, span);
                    let outs = self.call_fn(st.clone(), into, &[other.into()], vec![a[1].clone()], span)?;
                    return Ok(Some(outs.into_iter().map(|(s, v)| (s, Val::agg(vec![a[0].clone(), v]))).collect()));
                }
                _ => {}
            }
        }
        if n == "<std::iter::Zip<A, B> as std::iter::Iterator>::next" {
            let Val::Ref(p) = &a[0] else { return unsup("zip") };
            let (ta, tb) = match ga.type_at(0).kind() {
                ty::Adt(_, g) => (g.type_at(0), g.type_at(1)),
                _ => return unsup("zip type"),
            };
            let next = self.tcx.require_lang_item(rustc_attr_ir::lang_items::LangItem::IteratorNext, span);
            let mut res = vec![];
            for (s, v) in self.call_fn(st.clone(), next, &[ta.into()], vec![Val::Ref(p.push(Pr::F(0)))], span)? {
                for (s, x) in self.option_cases(s, v)? {
                    match x {
                        None => res.push((s, Val::none())),
                        Some(x) => {
                            // keep the first item alive while the second is fetched
                            let hold = self.next_obj;
                            self.next_obj += 1;
                            let mut s = s;
                            s.objs.insert(hold, x);
                            self.hold.push(hold);
                            let r = self.call_fn(s, next, &[tb.into()], vec![Val::Ref(p.push(Pr::F(1)))], span);
                            self.hold.pop();
                            for (s, w) in r? {
                                for (mut s, y) in self.option_cases(s, w)? {
                                    let x = s.objs.remove(&hold).unwrap_or(Val::Uninit);
                                    match y {
                                        None => res.push((s, Val::none())),
                                        Some(y) => res.push((s, Val::some(Val::agg(vec![x, y])))),
                                    }
                                }
                            }
                        }
                    }
                }
            }
            return Ok(Some(res));
        }
        if let Some(r) = self.model_int(st, n, a, ga, dty)? {
            return Ok(Some(r));
        }
        if let Some(r) = self.model_slice(st, n, a, atys, ga, dty, span)? {
            return Ok(Some(r));
        }
        if let Some(r) = self.model_vec(st, n, a, atys, ga, dty, span)? {
            return Ok(Some(r));
        }
        self.model_misc(st, n, tn, a, atys, ga, inst, dty, span)
    }
    fn trait_item(&self, _tn: &str, inst: Instance<'t>, _ga: ty::GenericArgsRef<'t>) -> Option<rustc_span::def_id::DefId> {
        // the trait method the instance implements
        let did = inst.def_id();
        match self.tcx.trait_item_of(did) {
            Some(t) => Some(t),
            None => Some(did),
        }
    }
    fn option_cases(&mut self, s: State<'t>, v: Val<'t>) -> R<Vec<(State<'t>, Option<Val<'t>>)>> {
        let Val::Enum(d, m) = v else { return unsup("option") };
        let mut r = vec![];
        for (k, f) in m.iter() {
            for s in assume_all(&s, &Cond::Eq(d.addk(-(*k as i128))).simp()) {
                r.push((s, if *k == 1 { Some(f[0].clone()) } else { None }));
            }
        }
        Ok(r)
    }
    fn iter_kind(&mut self, t: Ty<'t>) -> Option<String> {
        if let ty::Adt(d, _) = t.kind() {
            let n = self.name(d.did());
            for k in ["slice::Iter", "slice::IterMut", "slice::Chunks", "slice::ChunksMut", "slice::ChunksExact", "slice::ChunksExactMut", "vec::IntoIter", "array::IntoIter", "ops::Range", "ops::RangeInclusive", "hash_set::IntoIter", "hash_map::IntoIter", "slice::Windows"] {
                if n.ends_with(&format!("::{k}")) {
                    return Some(k.to_string());
                }
            }
        }
        None
    }
    fn is_native_iter(&mut self, t: Ty<'t>) -> bool {
        self.iter_kind(t).is_some()
    }
    fn iter_next(&mut self, st: &mut State<'t>, a: &[Val<'t>], t: Ty<'t>, dty: Ty<'t>, span: Span) -> R<Outs<'t>> {
        let _ = span;
        let kind = self.iter_kind(t).unwrap();
        let Val::Ref(p) = &a[0] else { return unsup("iterator reference") };
        let v = self.read(st, p)?;
        let v = self.deepen(st, v, 3)?;
        let Val::Agg(f) = &v else { return unsup(format!("iterator {:?}", v)) };
        let mut res = vec![];
        match kind.as_str() {
            "ops::Range" => {
                let ity = match t.kind() {
                    ty::Adt(_, g) => g.type_at(0),
                    _ => return unsup("range"),
                };
                let _ = ity;
                let (x, y) = (self.int(st, &f[0])?, self.int(st, &f[1])?);
                let c = lt(&x, &y);
                let (yes, no) = self.split(st, &c);
                for mut s in yes {
                    self.write(&mut s, p, Val::agg(vec![Val::Int(x.addk(1)), f[1].clone()]))?;
                    res.push((s, Val::some(Val::Int(x.clone()))));
                }
                for s in no {
                    res.push((s, Val::none()));
                }
            }
            "ops::RangeInclusive" => {
                let (x, y) = (self.int(st, &f[0])?, self.int(st, &f[1])?);
                let ex = match &f[2] {
                    Val::Bool(c) => c.clone(),
                    _ => return unsup("range"),
                };
                let c = Cond::And(vec![ex.not(), le(&x, &y)]).simp();
                let (yes, no) = self.split(st, &c);
                for s in yes {
                    let (less, last) = self.split(&s, &lt(&x, &y));
                    for mut s in less {
                        self.write(&mut s, p, Val::agg(vec![Val::Int(x.addk(1)), f[1].clone(), f[2].clone()]))?;
                        res.push((s, Val::some(Val::Int(x.clone()))));
                    }
                    for mut s in last {
                        self.write(&mut s, p, Val::agg(vec![f[0].clone(), f[1].clone(), Val::Bool(Cond::True)]))?;
                        res.push((s, Val::some(Val::Int(x.clone()))));
                    }
                }
                for s in no {
                    res.push((s, Val::none()));
                }
            }
            "vec::IntoIter" | "array::IntoIter" | "hash_set::IntoIter" | "hash_map::IntoIter" => {
                let c = match &f[0] {
                    Val::Vecv(_, c) => (**c).clone(),
                    c => c.clone(),
                };
                let len = c.seq_len().unwrap_or_default();
                let (yes, no) = self.split(st, &Cond::Le(len.neg().addk(1)).simp());
                for mut s in yes {
                    let item = match &c {
                        Val::Rope(r) => Val::Int(r.read(&s.facts, &Lin::k(0)).unwrap_or_else(|| Lin::s(fresh(0, 255, "byte?")))),
                        Val::Seq(q) => match &q.elems {
                            Some(e) => e[0].clone(),
                            None => {
                                let x = self.expand(&mut s, q.ety)?;
                                self.deepen(&mut s, x, 3)?
                            }
                        },
                        _ => return unsup("iterator content"),
                    };
                    let rest = self.content_slice(&s, &c, &Lin::k(1), &len.addk(-1))?;
                    self.write(&mut s, p, Val::agg(vec![rest]))?;
                    res.push((s, Val::some(item)));
                }
                for s in no {
                    res.push((s, Val::none()));
                }
            }
            "slice::Iter" | "slice::IterMut" => {
                let (q, o, l) = self.slice_of(st, &f[0])?;
                let (yes, no) = self.split(st, &Cond::Le(l.neg().addk(1)).simp());
                for mut s in yes {
                    let o2 = s.facts.norm(&o);
                    self.write(&mut s, p, Val::agg(vec![Val::Slice(q.clone(), o2.addk(1), l.addk(-1))]))?;
                    res.push((s, Val::some(self.elem_ref(&q, &o2))));
                }
                for s in no {
                    res.push((s, Val::none()));
                }
            }
            "slice::ChunksExact" | "slice::ChunksExactMut" => {
                let (q, o, l) = self.slice_of(st, &f[0])?;
                let k = self.int(st, &f[2])?;
                let (yes, no) = self.split(st, &le(&k, &l));
                for mut s in yes {
                    let rest = Val::Slice(q.clone(), s.facts.norm(&o.add(&k)), s.facts.norm(&l.sub(&k)));
                    self.write(&mut s, p, Val::agg(vec![rest, f[1].clone(), f[2].clone()]))?;
                    res.push((s, Val::some(Val::Slice(q.clone(), o.clone(), k.clone()))));
                }
                for mut s in no {
                    // the length is a multiple of the chunk size
                    s.facts.assume(&Cond::Eq(l.clone()));
                    if !s.facts.bottom {
                        res.push((s, Val::none()));
                    }
                }
            }
            "slice::Chunks" | "slice::ChunksMut" => {
                let (q, o, l) = self.slice_of(st, &f[0])?;
                let k = self.int(st, &f[1])?;
                let (yes, no) = self.split(st, &Cond::Le(l.neg().addk(1)).simp());
                for s in yes {
                    let (full, part) = self.split(&s, &le(&k, &l));
                    for mut s in full {
                        let rest = Val::Slice(q.clone(), s.facts.norm(&o.add(&k)), s.facts.norm(&l.sub(&k)));
                        self.write(&mut s, p, Val::agg(vec![rest, f[1].clone()]))?;
                        res.push((s, Val::some(Val::Slice(q.clone(), o.clone(), k.clone()))));
                    }
                    for mut s in part {
                        let rest = Val::Slice(q.clone(), s.facts.norm(&o.add(&l)), Lin::k(0));
                        self.write(&mut s, p, Val::agg(vec![rest, f[1].clone()]))?;
                        res.push((s, Val::some(Val::Slice(q.clone(), o.clone(), l.clone()))));
                    }
                }
                for s in no {
                    res.push((s, Val::none()));
                }
            }
            k => return unsup(format!("iterator {k} -> {:?}", dty)),
        }
        Ok(res)
    }

    fn model_int(&mut self, st: &mut State<'t>, n: &str, a: &[Val<'t>], ga: ty::GenericArgsRef<'t>, dty: Ty<'t>) -> R<Option<Outs<'t>>> {
        // inherent integer methods
        if let Some(rest) = n.strip_prefix("core::num::<impl ") {
            let Some((tn, m)) = rest.split_once(">::") else { return Ok(None) };
            let Some(t) = self.prim(tn) else { return Ok(None) };
            let (bits, signed) = int_bits(t).unwrap();
            let (lo, hi) = int_range(t).unwrap();
            if let Some((pre, op)) = m.split_once('_') {
                let pre = if m.starts_with("from_") || m.starts_with("to_") { "" } else { pre };
                let lin = |me: &Self, st: &mut State<'t>, op: &str| -> R<Option<Lin>> {
                    let x = me.int(st, &a[0])?;
                    let y = if a.len() > 1 { me.int(st, &a[1])? } else { Lin::k(0) };
                    Ok(Some(match op {
                        "add" => x.add(&y),
                        "sub" => x.sub(&y),
                        "mul" => {
                            for v in [&x, &y] {
                                if lo == 0 && st.facts.bounds(v).0 < 0 {
                                    st.facts.assume_le(&v.neg());
                                }
                            }
                            mul_lin(&mut st.facts, &x, &y)
                        }
                        "neg" => x.neg(),
                        _ => return Ok(None),
                    }))
                };
                match pre {
                    "checked" => {
                        if let Some(l) = lin(self, st, op)? {
                            let over = Self::overflow_cond(&l, t);
                            let (ok, bad) = self.split(st, &over.not());
                            let mut r: Outs<'t> = vec![];
                            for s in ok {
                                r.push((s, Val::some(Val::Int(l.clone()))));
                            }
                            for s in bad {
                                r.push((s, Val::none()));
                            }
                            return Ok(Some(r));
                        }
                        if op == "div" || op == "rem" {
                            let y = self.int(st, &a[1])?;
                            let (ok, bad) = self.split(st, &Cond::Ne(y.clone()).simp());
                            let mut r: Outs<'t> = vec![];
                            for mut s in ok {
                                let v = self.binop(&mut s, if op == "div" { rustc_middle::mir::BinOp::Div } else { rustc_middle::mir::BinOp::Rem }, a[0].clone(), a[1].clone(), t)?;
                                r.push((s, Val::some(v)));
                            }
                            for s in bad {
                                r.push((s, Val::none()));
                            }
                            return Ok(Some(r));
                        }
                        if op == "shl" || op == "shr" {
                            let y = self.int(st, &a[1])?;
                            let (ok, bad) = self.split(st, &Cond::Le(y.addk(1 - bits as i128)).simp());
                            let mut r: Outs<'t> = vec![];
                            for mut s in ok {
                                let v = self.binop(&mut s, if op == "shl" { rustc_middle::mir::BinOp::Shl } else { rustc_middle::mir::BinOp::Shr }, a[0].clone(), a[1].clone(), t)?;
                                r.push((s, Val::some(v)));
                            }
                            for s in bad {
                                r.push((s, Val::none()));
                            }
                            return Ok(Some(r));
                        }
                    }
                    "saturating" => {
                        if let Some(l) = lin(self, st, op)? {
                            let mut r: Outs<'t> = vec![];
                            for s in assume_all(st, &Cond::Le(l.addk(1 - lo)).simp()) {
                                r.push((s, Val::k(lo)));
                            }
                            for s in assume_all(st, &Cond::Le(l.neg().addk(hi + 1)).simp()) {
                                r.push((s, Val::k(hi)));
                            }
                            for s in assume_all(st, &Self::overflow_cond(&l, t).not()) {
                                r.push((s, Val::Int(l.clone())));
                            }
                            return Ok(Some(r));
                        }
                    }
                    "wrapping" => {
                        if let Some(l) = lin(self, st, op)? {
                            // exact on each side of the wrap where that is a single one
                            let mut r: Outs<'t> = vec![];
                            if !signed {
                                for s in assume_all(st, &Self::overflow_cond(&l, t).not()) {
                                    r.push((s, Val::Int(l.clone())));
                                }
                                let m = 1i128 << bits;
                                for s in assume_all(st, &Self::overflow_cond(&l, t)) {
                                    let v = if s.facts.entails_le(&l.addk(1)) && s.facts.entails_le(&l.neg().addk(-m)) {
                                        l.addk(m)
                                    } else if s.facts.entails_le(&l.addk(1 - 2 * m)) && s.facts.entails_le(&l.neg().addk(m)) {
                                        l.addk(-m)
                                    } else {
                                        Lin::s(fresh(lo, hi, "wrapping"))
                                    };
                                    r.push((s, Val::Int(v)));
                                }
                                return Ok(Some(r));
                            }
                            return one(st.clone(), Val::Int(self.wrap(&st.facts, l, t)));
                        }
                    }
                    "overflowing" => {
                        if let Some(l) = lin(self, st, op)? {
                            let o = Self::overflow_cond(&l, t);
                            return one(st.clone(), Val::agg(vec![Val::Int(self.wrap(&st.facts, l, t)), Val::Bool(o)]));
                        }
                    }
                    _ => {}
                }
            }
            let un = |me: &Self, op: Op| -> R<Option<Outs<'t>>> {
                let x = me.int(st, &a[0])?;
                one(st.clone(), Val::Int(mk_op_f(Some(&st.facts), op, bits, &[st.facts.norm(&x)])))
            };
            match m {
                "from_le_bytes" | "from_ne_bytes" | "from_be_bytes" => {
                    let r = match &a[0] {
                        Val::Rope(r) => r.clone(),
                        v => return unsup(format!("from_bytes {:?}", v)),
                    };
                    let k = bits / 8;
                    let mut outs = vec![];
                    let mut work = vec![st.clone()];
                    while let Some(s) = work.pop() {
                        let rr = r.norm(&s.facts);
                        let mut l = Lin::k(0);
                        let mut lost = false;
                        for i in 0..k {
                            let sh = if m == "from_be_bytes" { k - 1 - i } else { i };
                            match rr.read(&s.facts, &Lin::k(i as i128)) {
                                Some(x) => l = l.add(&x.scale(1i128 << (8 * sh))),
                                None => lost = true,
                            }
                        }
                        if lost {
                            // where one part ends and the next begins is unknown: all cases
                            let Some(seg) = rr.0.iter().find(|x| s.facts.norm(&x.len).as_const().is_none()) else { return unsup(format!("from_bytes {:?}", r)) };
                            for c in 0..=k as i128 {
                                let mut t = s.clone();
                                t.facts.assume_eq(&seg.len.addk(-c));
                                if !t.facts.bottom && work.len() + outs.len() < 64 {
                                    work.push(t);
                                }
                            }
                            continue;
                        }
                        if signed {
                            l = mk_op_f(Some(&s.facts), Op::Sext, bits, &[l]);
                        }
                        outs.push((s, Val::Int(l)));
                    }
                    return Ok(Some(outs));
                }
                "to_le_bytes" | "to_ne_bytes" | "to_be_bytes" => {
                    let x = self.int(st, &a[0])?;
                    let mut v = self.le_bytes(&st.facts, &x, bits / 8);
                    if m == "to_be_bytes" {
                        v.reverse();
                    }
                    return one(st.clone(), Val::Rope(Rc::new(Rope::bytes(v))));
                }
                "to_le" | "from_le" => return one(st.clone(), a[0].clone()),
                "trailing_zeros" => return un(self, Op::Tz),
                "leading_zeros" => return un(self, Op::Lz),
                "count_ones" => return un(self, Op::Pop),
                "next_power_of_two" => {
                    let x = self.int(st, &a[0])?;
                    let lim = Cond::Le(x.addk(-(1i128 << (bits - 1)))).simp();
                    self.require(st, &lim, "next_power_of_two overflow")?;
                    let x = st.facts.norm(&x);
                    let (a0, a1) = st.facts.tight_bounds(&x);
                    if a0 >= 0 && a1 <= 4096 {
                        // one case for each power
                        let mut r: Outs<'t> = vec![];
                        let mut p = 1i128;
                        while p <= 4096 {
                            let low = if p == 1 { 0 } else { p / 2 + 1 };
                            for s in assume_all(st, &Cond::And(vec![Cond::Le(x.addk(-p)).simp(), Cond::Le(x.neg().addk(low)).simp()])) {
                                r.push((s, Val::k(p)));
                            }
                            p *= 2;
                        }
                        return Ok(Some(r));
                    }
                    return one(st.clone(), Val::Int(mk_op_f(Some(&st.facts), Op::Npot, bits, &[x])));
                }
                _ => {}
            }
            return Ok(None);
        }
        // intrinsics
        let Some(m) = n.strip_prefix("std::intrinsics::").or(n.strip_prefix("core::intrinsics::")) else { return Ok(None) };
        let t = ga.types().next();
        use rustc_middle::mir::BinOp;
        let bin = match m {
            "add_with_overflow" => Some(BinOp::AddWithOverflow),
            "sub_with_overflow" => Some(BinOp::SubWithOverflow),
            "mul_with_overflow" => Some(BinOp::MulWithOverflow),
            "wrapping_add" | "unchecked_add" => Some(BinOp::Add),
            "wrapping_sub" | "unchecked_sub" => Some(BinOp::Sub),
            "wrapping_mul" | "unchecked_mul" => Some(BinOp::Mul),
            "unchecked_shl" => Some(BinOp::Shl),
            "unchecked_shr" => Some(BinOp::Shr),
            "unchecked_div" | "exact_div" => Some(BinOp::Div),
            "unchecked_rem" => Some(BinOp::Rem),
            "three_way_compare" => Some(BinOp::Cmp),
            _ => None,
        };
        if let Some(op) = bin {
            let v = self.binop(st, op, a[0].clone(), a[1].clone(), t.unwrap())?;
            return one(st.clone(), v);
        }
        let un = match m {
            "ctpop" => Some(Op::Pop),
            "cttz" | "cttz_nonzero" => Some(Op::Tz),
            "ctlz" | "ctlz_nonzero" => Some(Op::Lz),
            _ => None,
        };
        if let Some(op) = un {
            let bits = int_bits(t.unwrap()).unwrap().0;
            let x = self.int(st, &a[0])?;
            let x = st.facts.norm(&x);
            return one(st.clone(), Val::Int(mk_op_f(Some(&st.facts), op, bits, &[x])));
        }
        match m {
            "cold_path" | "assert_inhabited" | "assert_zero_valid" | "assert_mem_uninitialized_valid" => one(st.clone(), Val::unit()),
            "likely" | "unlikely" | "black_box" => one(st.clone(), a[0].clone()),
            "size_of" => one(st.clone(), Val::k(self.size_of(t.unwrap()))),
            "needs_drop" => one(st.clone(), Val::Bool(Cond::True)),
            "is_val_statically_known" => one(st.clone(), Val::Bool(Cond::False)),
            "abort" | "unreachable" => Ok(Some(vec![])),
            "assume" => {
                if let Val::Bool(c) = &a[0] {
                    st.facts.assume(c);
                }
                one(st.clone(), Val::unit())
            }
            "discriminant_value" => {
                let Val::Ref(p) = &a[0] else { return unsup("discriminant_value") };
                let v = self.read(st, p)?;
                let d = self.discriminant(st, v, t.unwrap())?;
                one(st.clone(), d)
            }
            "raw_eq" => {
                let c = self.seq_eq(st, &a[0], &a[1])?;
                one(st.clone(), Val::Bool(c))
            }
            "saturating_add" | "saturating_sub" => {
                let t = t.unwrap();
                let (lo, hi) = int_range(t).unwrap();
                let (x, y) = (self.int(st, &a[0])?, self.int(st, &a[1])?);
                let l = if m == "saturating_add" { x.add(&y) } else { x.sub(&y) };
                let mut r: Outs<'t> = vec![];
                for s in assume_all(st, &Cond::Le(l.addk(1 - lo)).simp()) {
                    r.push((s, Val::k(lo)));
                }
                for s in assume_all(st, &Cond::Le(l.neg().addk(hi + 1)).simp()) {
                    r.push((s, Val::k(hi)));
                }
                for s in assume_all(st, &Self::overflow_cond(&l, t).not()) {
                    r.push((s, Val::Int(l.clone())));
                }
                Ok(Some(r))
            }
            _ => {
                let _ = dty;
                Ok(None)
            }
        }
    }
    fn prim(&self, n: &str) -> Option<Ty<'t>> {
        let t = &self.tcx.types;
        Some(match n {
            "u8" => t.u8,
            "u16" => t.u16,
            "u32" => t.u32,
            "u64" => t.u64,
            "u128" => t.u128,
            "usize" => t.usize,
            "i8" => t.i8,
            "i16" => t.i16,
            "i32" => t.i32,
            "i64" => t.i64,
            "isize" => t.isize,
            _ => return None,
        })
    }

    #[allow(clippy::too_many_arguments)]
    fn model_slice(&mut self, st: &mut State<'t>, n: &str, a: &[Val<'t>], atys: &[Ty<'t>], ga: ty::GenericArgsRef<'t>, dty: Ty<'t>, span: Span) -> R<Option<Outs<'t>>> {
        let _ = (ga, span, dty);
        // [T]::method
        if n.starts_with("<std::slice::ChunksExact<'a, T> as") || n == "std::slice::ChunksExact::<'a, T>::remainder" || n == "std::slice::ChunksExactMut::<'a, T>::into_remainder" {
            if n.ends_with("remainder") {
                let v = match &a[0] {
                    Val::Ref(p) => self.read(st, p)?,
                    v => v.clone(),
                };
                if let Val::Agg(f) = v {
                    return one(st.clone(), f[1].clone());
                }
            }
        }
        if matches!(n, "std::slice::Iter::<'a, T>::as_slice") {
            if let Val::Ref(p) = &a[0] {
                if let Val::Agg(f) = self.read(st, p)? {
                    return one(st.clone(), f[0].clone());
                }
            }
        }
        let is_index = n.contains("as std::ops::Index") || n.contains("impl std::ops::Index<") || n.contains("impl std::ops::IndexMut<");
        if is_index && (n.ends_with("::index") || n.ends_with("::index_mut")) && (n.contains("for [T]") || n.contains("for [T; N]") || n.contains("std::vec::Vec<T, A>")) {
            let (p, o, l) = self.slice_of(st, &a[0])?;
            let ix = self.index_of(st, &a[1], atys[1], &l)?;
            return match ix {
                Ix::One(i) => {
                    self.require(st, &lt(&i, &l), "index out of bounds")?;
                    one(st.clone(), self.elem_ref(&p, &st.facts.norm(&o.add(&i))))
                }
                Ix::Range(s, len, c) => {
                    self.require(st, &c, "slice index out of range")?;
                    let v = Val::Slice(p, st.facts.norm(&o.add(&s)), st.facts.norm(&len));
                    one(st.clone(), v)
                }
            };
        }
        if n.contains("std::cmp::PartialEq<[U]> for [T]>::eq") || n.contains("as std::cmp::PartialEq<std::vec::Vec") && n.ends_with("::eq") && n.contains("std::vec::Vec<T") || n.contains("PartialEq<[U; N]> for [T]>::eq") || n.contains("PartialEq<[U]> for [T; N]>::eq") || n.contains("PartialEq<[U; N]> for [T; N]>::eq") || n.contains("impl std::cmp::PartialEq for str>::eq") {
            let c = self.seq_eq(st, &a[0], &a[1])?;
            return one(st.clone(), Val::Bool(c));
        }
        if n.contains("std::convert::TryFrom<&[T]> for [T; N]>::try_from") || n.contains("TryFrom<&'a [T]> for &'a [T; N]>::try_from") || n.contains("std::convert::TryFrom<&mut [T]> for [T; N]>::try_from") {
            let (p, o, l) = self.slice_of(st, &a[0])?;
            let by_ref = n.contains("for &'a [T; N]");
            let ty::Adt(_, rg) = dty.kind() else { return unsup("try_from") };
            let mut at = rg.type_at(0);
            if by_ref {
                at = pointee(at).unwrap();
            }
            let ty::Array(_, k) = at.kind() else { return unsup("try_from type") };
            let k = k.try_to_target_usize(self.tcx).unwrap_or(0) as i128;
            let (yes, no) = self.split(st, &Cond::Eq(l.addk(-k)).simp());
            let mut r: Outs<'t> = vec![];
            for mut s in yes {
                let v = if by_ref {
                    // reference to the array: only the whole object can be named
                    let c = self.content(&mut s, &p)?;
                    let c = self.content_slice(&s, &c, &o, &Lin::k(k))?;
                    let ob = self.alloc(&mut s, c, at);
                    Val::Ref(Place::obj(ob))
                } else {
                    let c = self.content(&mut s, &p)?;
                    self.content_slice(&s, &c, &o, &Lin::k(k))?
                };
                r.push((s, Val::ok(v)));
            }
            for s in no {
                r.push((s, Val::err(Val::agg(vec![Val::unit()]))));
            }
            return Ok(Some(r));
        }
        if n.ends_with("<impl std::iter::IntoIterator for &'a [T]>::into_iter") || n.ends_with("<impl std::iter::IntoIterator for &'a mut [T]>::into_iter") {
            let (p, o, l) = self.slice_of(st, &a[0])?;
            return one(st.clone(), Val::agg(vec![Val::Slice(p, o, l)]));
        }
        let m = if let Some(m) = n.strip_prefix("core::slice::<impl [T]>::") {
            m
        } else if let Some(m) = n.strip_prefix("std::slice::<impl [T]>::") {
            m
        } else if let Some(m) = n.strip_prefix("alloc::slice::<impl [T]>::") {
            m
        } else if let Some(m) = n.strip_prefix("slice::<impl [T]>::") {
            m
        } else if n == "<[T] as std::borrow::ToOwned>::to_owned" || n.ends_with("<impl std::borrow::ToOwned for [T]>::to_owned") {
            "to_vec"
        } else if n.ends_with("as std::convert::From<&[T]>>::from") && n.contains("vec::Vec") {
            "to_vec"
        } else if n == "core::array::<impl [T; N]>::as_slice" || n.ends_with("std::convert::AsRef<[T]> for [T; N]>::as_ref") || n.ends_with("std::borrow::Borrow<[T]> for [T; N]>::borrow") {
            "as_slice"
        } else {
            return Ok(None);
        };
        let ety = match ga.types().next() {
            Some(t) => t,
            None => self.tcx.types.u8,
        };
        let (p, o, l) = match self.slice_of(st, &a[0]) {
            Ok(x) => x,
            Err(e) => return Err(e),
        };
        let l = st.facts.norm(&l);
        Ok(Some(match m {
            "len" => vec![(st.clone(), Val::Int(l))],
            "is_empty" => vec![(st.clone(), Val::Bool(Cond::Eq(l).simp()))],
            "as_slice" => vec![(st.clone(), Val::Slice(p, o, l))],
            "iter" | "iter_mut" => vec![(st.clone(), Val::agg(vec![Val::Slice(p, o, l)]))],
            "first" | "last" | "first_mut" | "last_mut" => {
                let (yes, no) = self.split(st, &Cond::Le(l.neg().addk(1)).simp());
                let ix = if m.starts_with("first") { o.clone() } else { o.add(&l).addk(-1) };
                let mut r: Outs<'t> = vec![];
                for s in yes {
                    r.push((s, Val::some(self.elem_ref(&p, &ix))));
                }
                for s in no {
                    r.push((s, Val::none()));
                }
                r
            }
            "split_first" | "split_last" | "split_first_mut" | "split_last_mut" => {
                let (yes, no) = self.split(st, &Cond::Le(l.neg().addk(1)).simp());
                let mut r: Outs<'t> = vec![];
                for s in yes {
                    let (e, rest) = if m.starts_with("split_first") { (self.elem_ref(&p, &o), Val::Slice(p.clone(), o.addk(1), l.addk(-1))) } else { (self.elem_ref(&p, &o.add(&l).addk(-1)), Val::Slice(p.clone(), o.clone(), l.addk(-1))) };
                    r.push((s, Val::some(Val::agg(vec![e, rest]))));
                }
                for s in no {
                    r.push((s, Val::none()));
                }
                r
            }
            "get" | "get_mut" => {
                let ix = self.index_of(st, &a[1], atys[1], &l)?;
                let (c, v) = match ix {
                    Ix::One(i) => (lt(&i, &l), self.elem_ref(&p, &st.facts.norm(&o.add(&i)))),
                    Ix::Range(s, len, c) => (c, Val::Slice(p, st.facts.norm(&o.add(&s)), st.facts.norm(&len))),
                };
                let (yes, no) = self.split(st, &c);
                let mut r: Outs<'t> = vec![];
                for s in yes {
                    r.push((s, Val::some(v.clone())));
                }
                for s in no {
                    r.push((s, Val::none()));
                }
                r
            }
            "split_at" | "split_at_mut" => {
                let k = self.int(st, &a[1])?;
                self.require(st, &le(&k, &l), "split_at out of range")?;
                let (x, y) = (Val::Slice(p.clone(), o.clone(), k.clone()), Val::Slice(p, st.facts.norm(&o.add(&k)), st.facts.norm(&l.sub(&k))));
                vec![(st.clone(), Val::agg(vec![x, y]))]
            }
            "split_at_checked" | "split_at_mut_checked" => {
                let k = self.int(st, &a[1])?;
                let (yes, no) = self.split(st, &le(&k, &l));
                let v = Val::agg(vec![Val::Slice(p.clone(), o.clone(), k.clone()), Val::Slice(p, o.add(&k), l.sub(&k))]);
                let mut r: Outs<'t> = vec![];
                for s in yes {
                    r.push((s, Val::some(v.clone())));
                }
                for s in no {
                    r.push((s, Val::none()));
                }
                r
            }
            "chunks" | "chunks_mut" => {
                let k = self.int(st, &a[1])?;
                self.require(st, &Cond::Ne(k.clone()).simp(), "chunk size is zero")?;
                vec![(st.clone(), Val::agg(vec![Val::Slice(p, o, l), a[1].clone()]))]
            }
            "chunks_exact" | "chunks_exact_mut" => {
                let k = self.int(st, &a[1])?;
                self.require(st, &Cond::Ne(k.clone()).simp(), "chunk size is zero")?;
                let rem = mk_op_f(Some(&st.facts), Op::Rem, 64, &[l.clone(), st.facts.norm(&k)]);
                let main = l.sub(&rem);
                let v = Val::agg(vec![Val::Slice(p.clone(), o.clone(), main.clone()), Val::Slice(p, o.add(&main), rem), a[1].clone()]);
                vec![(st.clone(), v)]
            }
            "copy_from_slice" | "clone_from_slice" => {
                let (q, oo, ll) = self.slice_of(st, &a[1])?;
                self.require(st, &Cond::Eq(st.facts.norm(&l.sub(&ll))).simp(), "copy_from_slice length mismatch")?;
                let c = self.content(st, &q)?;
                let c = self.content_slice(st, &c, &oo, &ll)?;
                self.write_range(st, &p, &o, &c, &l)?;
                vec![(st.clone(), Val::unit())]
            }
            "fill" => {
                let c = self.repeat_content(a[1].clone(), ety, &l)?;
                self.write_range(st, &p, &o, &c, &l)?;
                vec![(st.clone(), Val::unit())]
            }
            "to_vec" | "into_vec" => {
                let c = self.content(st, &p)?;
                let c = self.content_slice(st, &c, &o, &l)?;
                if m == "to_vec" {
                    self.alloc_request(st, &l, ety, false)?;
                }
                vec![(st.clone(), Val::Vecv(l, Rc::new(c)))]
            }
            "sort_unstable" | "sort" | "reverse" | "sort_unstable_by" | "sort_by" | "sort_by_key" | "sort_unstable_by_key" | "rotate_left" | "rotate_right" => {
                let c = self.top_content(ety, l.clone());
                self.write_range(st, &p, &o, &c, &l)?;
                vec![(st.clone(), Val::unit())]
            }
            "starts_with" | "ends_with" => {
                let (q, oo, ll) = self.slice_of(st, &a[1])?;
                let (yes, no) = self.split(st, &le(&ll, &l));
                let mut r: Outs<'t> = vec![];
                for mut s in yes {
                    let off = if m == "starts_with" { o.clone() } else { o.add(&l).sub(&ll) };
                    let x = Val::Slice(p.clone(), off, ll.clone());
                    let y = Val::Slice(q.clone(), oo.clone(), ll.clone());
                    let c = self.seq_eq(&mut s, &x, &y)?;
                    r.push((s, Val::Bool(c)));
                }
                for s in no {
                    r.push((s, Val::Bool(Cond::False)));
                }
                r
            }
            "swap" => {
                let (i, j) = (self.int(st, &a[1])?, self.int(st, &a[2])?);
                self.require(st, &Cond::And(vec![lt(&i, &l), lt(&j, &l)]).simp(), "index out of bounds")?;
                let (pi, pj) = (p.push(Pr::I(o.add(&i))), p.push(Pr::I(o.add(&j))));
                let (x, y) = (self.read(st, &pi)?, self.read(st, &pj)?);
                self.write(st, &pi, y)?;
                self.write(st, &pj, x)?;
                vec![(st.clone(), Val::unit())]
            }
            "contains" => {
                let _ = self.content(st, &p)?;
                vec![(st.clone(), Val::Bool(Cond::Ne(Lin::s(fresh(0, 1, "contains")))))]
            }
            _ => return Ok(None),
        }))
    }

    #[allow(clippy::too_many_arguments)]
    fn model_vec(&mut self, st: &mut State<'t>, n: &str, a: &[Val<'t>], atys: &[Ty<'t>], ga: ty::GenericArgsRef<'t>, dty: Ty<'t>, span: Span) -> R<Option<Outs<'t>>> {
        let _ = span;
        let mut ety = ga.types().next().unwrap_or(self.tcx.types.u8);
        if n.starts_with("<std::vec::Vec<T") {
            // arguments of the trait: the vector itself
            if let ty::Adt(d, args) = ety.kind() {
                if self.tcx.is_diagnostic_item(rustc_span::sym::Vec, d.did()) {
                    ety = args.type_at(0);
                }
            }
        }
        let m = if let Some(m) = n.strip_prefix("std::vec::Vec::<T, A>::") {
            m
        } else if let Some(m) = n.strip_prefix("std::vec::Vec::<T>::") {
            m
        } else {
            match n {
                "<std::vec::Vec<T, A> as std::ops::Deref>::deref" | "<std::vec::Vec<T, A> as std::ops::DerefMut>::deref_mut" | "<std::vec::Vec<T, A> as std::convert::AsRef<[T]>>::as_ref" | "<std::vec::Vec<T, A> as std::borrow::Borrow<[T]>>::borrow" | "std::vec::Vec::<T, A>::as_slice" | "std::slice::<impl std::borrow::Borrow<[T]> for std::vec::Vec<T, A>>::borrow" | "std::slice::<impl std::borrow::BorrowMut<[T]> for std::vec::Vec<T, A>>::borrow_mut" => "as_slice",
                "<std::string::String as std::ops::Deref>::deref" => "as_slice",
                "std::vec::from_elem" => "from_elem",
                "<std::vec::Vec<T, A> as std::iter::IntoIterator>::into_iter" => "into_iter",
                "<std::vec::Vec<T, A> as std::clone::Clone>::clone" => "clone",
                "<std::vec::Vec<T> as std::default::Default>::default" => "new",
                "<std::boxed::Box<[T], A> as std::clone::Clone>::clone" => "clone",
                "std::boxed::Box::<T>::new" => {
                    let t = ga.type_at(0);
                    let o = self.alloc(st, a[0].clone(), t);
                    return one(st.clone(), Val::Ref(Place::obj(o)));
                }
                _ => {
                    if n.starts_with("<std::vec::Vec<T, A> as std::convert::From<std::boxed::Box<[T], A>>>") {
                        return one(st.clone(), a[0].clone());
                    }
                    if n.starts_with("<std::boxed::Box<[T], A> as std::convert::From<std::vec::Vec<T, A>>>") || n.starts_with("<std::boxed::Box<[T]> as std::convert::From<std::vec::Vec") {
                        "into_boxed_slice"
                    } else if n.starts_with("<std::vec::Vec<T, A> as std::iter::Extend<&'a T>>::extend") || n.starts_with("<std::vec::Vec<T, A> as std::iter::Extend<T>>::extend") {
                        if let Some(&f) = self.models.get("extend_vec") {
                            let it = atys[1];
                            return Ok(Some(self.call_fn(st.clone(), f, &[ety.into(), it.into()], a.to_vec(), span)?));
                        }
                        return Ok(None);
                    } else {
                        return Ok(None);
                    }
                }
            }
        };
        Ok(Some(match m {
            "new" => {
                let c = self.empty_content(ety);
                vec![(st.clone(), Val::Vecv(Lin::k(0), Rc::new(c)))]
            }
            "with_capacity" => {
                let k = self.int(st, &a[0])?;
                self.alloc_request(st, &k, ety, true)?;
                let c = self.empty_content(ety);
                let cap = Lin::s(fresh(0, MAX_LEN, "cap"));
                st.facts.assume(&le(&k, &cap));
                vec![(st.clone(), Val::Vecv(cap, Rc::new(c)))]
            }
            "from_elem" => {
                let k = self.int(st, &a[1])?;
                self.alloc_request(st, &k, ety, true)?;
                let c = self.repeat_content(a[0].clone(), ety, &k)?;
                vec![(st.clone(), Val::Vecv(k, Rc::new(c)))]
            }
            "len" => {
                let (_, _, c) = self.vec_at(st, &a[0])?;
                vec![(st.clone(), Val::Int(c.seq_len().unwrap()))]
            }
            "is_empty" => {
                let (_, _, c) = self.vec_at(st, &a[0])?;
                vec![(st.clone(), Val::Bool(Cond::Eq(c.seq_len().unwrap()).simp()))]
            }
            "capacity" => {
                let (_, cap, c) = self.vec_at(st, &a[0])?;
                st.facts.assume(&le(&c.seq_len().unwrap(), &cap));
                vec![(st.clone(), Val::Int(cap))]
            }
            "as_slice" | "as_mut_slice" => {
                let (p, o, l) = self.slice_of(st, &a[0])?;
                vec![(st.clone(), Val::Slice(p, o, l))]
            }
            "clear" => {
                let (p, cap, _) = self.vec_at(st, &a[0])?;
                let c = self.empty_content(ety);
                self.write(st, &p, Val::Vecv(cap, Rc::new(c)))?;
                vec![(st.clone(), Val::unit())]
            }
            "push" => {
                let e = self.elem_content(a[1].clone(), ety)?;
                self.vec_append(st, &a[0], &e, ety)?;
                vec![(st.clone(), Val::unit())]
            }
            "extend_from_slice" => {
                let (q, o, l) = self.slice_of(st, &a[1])?;
                let c = self.content(st, &q)?;
                let c = self.content_slice(st, &c, &o, &l)?;
                self.vec_append(st, &a[0], &c, ety)?;
                vec![(st.clone(), Val::unit())]
            }
            "append" => {
                let (q, cap, c) = self.vec_at(st, &a[1])?;
                self.vec_append(st, &a[0], &c, ety)?;
                let e = self.empty_content(ety);
                self.write(st, &q, Val::Vecv(cap, Rc::new(e)))?;
                vec![(st.clone(), Val::unit())]
            }
            "pop" => {
                let (p, cap, c) = self.vec_at(st, &a[0])?;
                let l = c.seq_len().unwrap();
                let (yes, no) = self.split(st, &Cond::Le(l.neg().addk(1)).simp());
                let mut r: Outs<'t> = vec![];
                for mut s in yes {
                    let x = self.read(&mut s, &p.push(Pr::I(l.addk(-1))))?;
                    let rest = self.content_slice(&s, &c, &Lin::k(0), &l.addk(-1))?;
                    self.write(&mut s, &p, Val::Vecv(cap.clone(), Rc::new(rest)))?;
                    r.push((s, Val::some(x)));
                }
                for s in no {
                    r.push((s, Val::none()));
                }
                r
            }
            "truncate" => {
                let (p, cap, c) = self.vec_at(st, &a[0])?;
                let k = self.int(st, &a[1])?;
                let l = c.seq_len().unwrap();
                let (yes, no) = self.split(st, &lt(&k, &l));
                let mut r: Outs<'t> = vec![];
                for mut s in yes {
                    let rest = self.content_slice(&s, &c, &Lin::k(0), &k)?;
                    self.write(&mut s, &p, Val::Vecv(cap.clone(), Rc::new(rest)))?;
                    r.push((s, Val::unit()));
                }
                for s in no {
                    r.push((s, Val::unit()));
                }
                r
            }
            "resize" => {
                let (p, cap, c) = self.vec_at(st, &a[0])?;
                let k = self.int(st, &a[1])?;
                let l = c.seq_len().unwrap();
                let (yes, no) = self.split(st, &lt(&k, &l));
                let mut r: Outs<'t> = vec![];
                for mut s in yes {
                    let rest = self.content_slice(&s, &c, &Lin::k(0), &k)?;
                    self.write(&mut s, &p, Val::Vecv(cap.clone(), Rc::new(rest)))?;
                    r.push((s, Val::unit()));
                }
                for mut s in no {
                    let add = self.repeat_content(a[2].clone(), ety, &k.sub(&l))?;
                    let nv = self.concat(&s, &c, &add)?;
                    let cap2 = if holds(&s.facts, &le(&k, &cap)) {
                        cap.clone()
                    } else {
                        self.alloc_request(&mut s, &k, ety, true)?;
                        let nc = Lin::s(fresh(0, MAX_LEN, "cap"));
                        s.facts.assume(&le(&k, &nc));
                        nc
                    };
                    self.write(&mut s, &p, Val::Vecv(cap2, Rc::new(nv)))?;
                    r.push((s, Val::unit()));
                }
                r
            }
            "reserve" | "reserve_exact" | "try_reserve" | "try_reserve_exact" => {
                let (p, cap, c) = self.vec_at(st, &a[0])?;
                let k = self.int(st, &a[1])?;
                let l = c.seq_len().unwrap();
                let want = st.facts.norm(&l.add(&k));
                let tr = m.starts_with("try");
                let mut r: Outs<'t> = vec![];
                let res = |v: bool, me: &mut Self, st: &mut State<'t>| -> R<Val<'t>> {
                    if !tr {
                        return Ok(Val::unit());
                    }
                    Ok(if v {
                        Val::ok(Val::unit())
                    } else {
                        let ty::Adt(_, g) = dty.kind() else { return unsup("try_reserve") };
                        let e = me.expand(st, g.type_at(1))?;
                        Val::err(e)
                    })
                };
                if holds(&st.facts, &le(&want, &cap)) {
                    let v = res(true, self, st)?;
                    return one(st.clone(), v);
                }
                let mut s = st.clone();
                self.alloc_request(&mut s, &want, ety, !tr)?;
                if !s.facts.bottom {
                    let nc = Lin::s(fresh(0, MAX_LEN, "cap"));
                    s.facts.assume(&le(&want, &nc));
                    s.facts.assume(&le(&cap, &nc));
                    self.write(&mut s, &p, Val::Vecv(nc, Rc::new(c)))?;
                    let v = res(true, self, &mut s)?;
                    r.push((s, v));
                }
                if tr {
                    let mut s = st.clone();
                    s.facts.assume(&lt(&cap, &want));
                    if self.no_oom {
                        // only requests of impossible size fail
                        s.facts.assume(&lt(&Lin::k(MAX_LEN), &want.scale(self.size_of(ety).max(1))));
                    }
                    let v = res(false, self, &mut s)?;
                    if !s.facts.bottom {
                        r.push((s, v));
                    }
                }
                r
            }
            "into_boxed_slice" => match &a[0] {
                Val::Vecv(_, c) => vec![(st.clone(), Val::Vecv(c.seq_len().unwrap(), c.clone()))],
                v => return unsup(format!("into_boxed_slice {:?}", v)),
            },
            "shrink_to_fit" => vec![(st.clone(), Val::unit())],
            "into_iter" => vec![(st.clone(), Val::agg(vec![a[0].clone()]))],
            "clone" => {
                let (p, o, l) = self.slice_of(st, &a[0])?;
                let c = self.content(st, &p)?;
                let c = self.content_slice(st, &c, &o, &l)?;
                self.alloc_request(st, &l, ety, false)?;
                vec![(st.clone(), Val::Vecv(l, Rc::new(c)))]
            }
            "drain" | "insert" | "remove" | "split_off" | "dedup" | "retain" => return unsup(format!("Vec::{m}")),
            _ => return Ok(None),
        }))
    }

    #[allow(clippy::too_many_arguments)]
    fn model_misc(&mut self, st: &mut State<'t>, n: &str, _tn: &str, a: &[Val<'t>], atys: &[Ty<'t>], ga: ty::GenericArgsRef<'t>, inst: Instance<'t>, dty: Ty<'t>, span: Span) -> R<Option<Outs<'t>>> {
        match n {
            "std::mem::replace" | "core::mem::replace" => {
                let Val::Ref(p) = &a[0] else { return unsup("mem::replace") };
                let t = ga.type_at(0);
                let old = self.read(st, p)?;
                let old = if matches!(old, Val::Uninit) { Val::Top(t) } else { old };
                self.write(st, p, a[1].clone())?;
                return one(st.clone(), old);
            }
            "std::mem::swap" | "core::mem::swap" => {
                let (Val::Ref(p), Val::Ref(q)) = (&a[0], &a[1]) else { return unsup("mem::swap") };
                let (x, y) = (self.read(st, p)?, self.read(st, q)?);
                self.write(st, p, y)?;
                self.write(st, q, x)?;
                return one(st.clone(), Val::unit());
            }
            "std::mem::forget" | "core::mem::forget" | "std::hint::assert_unchecked" | "std::hint::must_use" => {
                return one(st.clone(), Val::unit());
            }
            "std::mem::drop" | "core::mem::drop" | "std::ptr::drop_in_place" => {
                if n.contains("drop_in_place") {
                    return Ok(None);
                }
                let t = ga.type_at(0);
                if self.needs_drop(t) {
                    let o = self.alloc(st, a[0].clone(), t);
                    self.hold.push(o);
                    let r = self.drop_at(st.clone(), &Place::obj(o), t, span);
                    self.hold.pop();
                    return Ok(Some(r?.into_iter().map(|s| (s, Val::unit())).collect()));
                }
                return one(st.clone(), Val::unit());
            }
            "std::num::NonZero::<T>::new" | "core::num::NonZero::<T>::new" => {
                let x = self.int(st, &a[0])?;
                let (yes, no) = self.split(st, &Cond::Ne(x.clone()).simp());
                let mut r: Outs<'t> = vec![];
                for s in yes {
                    r.push((s, Val::some(Val::Int(x.clone()))));
                }
                for s in no {
                    r.push((s, Val::none()));
                }
                return Ok(Some(r));
            }
            "std::num::NonZero::<T>::get" | "core::num::NonZero::<T>::get" => {
                let v = match &a[0] {
                    Val::Ref(p) => self.read(st, p)?,
                    v => v.clone(),
                };
                return one(st.clone(), v);
            }
            "std::num::NonZero::<T>::new_unchecked" => return one(st.clone(), a[0].clone()),
            "<std::num::NonZero<T> as std::clone::Clone>::clone" => {
                let Val::Ref(p) = &a[0] else { return unsup("clone") };
                let v = self.read(st, p)?;
                return one(st.clone(), v);
            }
            "<[T; N] as std::iter::IntoIterator>::into_iter" => return one(st.clone(), Val::agg(vec![a[0].clone()])),
            "core::array::iter::<impl std::iter::IntoIterator for [T; N]>::into_iter" | "std::array::iter::<impl std::iter::IntoIterator for [T; N]>::into_iter" | "std::array::<impl std::iter::IntoIterator for [T; N]>::into_iter" => return one(st.clone(), Val::agg(vec![a[0].clone()])),
            "<std::io::Error as std::convert::From<std::io::ErrorKind>>::from" => {
                // identified by its kind
                if let Val::Enum(d, _) = &a[0] {
                    return one(st.clone(), Val::Int(d.addk(1000)));
                }
                return one(st.clone(), Val::Int(Lin::s(fresh(1000, 1 << 40, "ioerr"))));
            }
            "std::io::Error::is_interrupted" => return one(st.clone(), Val::Bool(Cond::False)),
            "std::io::BufReader::<R>::new" => {
                let buf = Val::Vecv(Lin::k(8192), Rc::new(self.empty_content(self.tcx.types.u8)));
                return one(st.clone(), Val::agg(vec![buf, a[0].clone()]));
            }
            "std::io::BufReader::<R>::with_capacity" => {
                let buf = Val::Vecv(Lin::k(8192), Rc::new(self.empty_content(self.tcx.types.u8)));
                return one(st.clone(), Val::agg(vec![buf, a[1].clone()]));
            }
            "std::io::BufReader::<R>::buffer" => {
                let Val::Ref(p) = &a[0] else { return unsup("BufReader") };
                let (q, o, l) = self.slice_of(st, &Val::Ref(p.push(Pr::F(0))))?;
                return one(st.clone(), Val::Slice(q, o, l));
            }
            "std::io::BufReader::<R>::get_ref" | "std::io::BufReader::<R>::get_mut" => {
                let Val::Ref(p) = &a[0] else { return unsup("BufReader") };
                return one(st.clone(), Val::Ref(p.push(Pr::F(1))));
            }
            "std::io::BufReader::<R>::into_inner" => {
                let Val::Agg(f) = &a[0] else { return unsup("BufReader") };
                return one(st.clone(), f[1].clone());
            }
            "std::io::Write::write_all" => {
                let Some(&f) = self.models.get("write_all_unroll") else { return unsup("model write_all") };
                return self.call_fn(st.clone(), f, &[ga[0]], a.to_vec(), span).map(Some);
            }
            "<std::io::BufReader<R> as std::io::BufRead>::fill_buf" => {
                let Val::Ref(p) = &a[0] else { return unsup("BufReader") };
                let rp = p.push(Pr::F(0));
                let (_, _, l) = self.slice_of(st, &Val::Ref(rp.clone()))?;
                let (have, empty) = self.split(st, &Cond::Le(l.neg().addk(1)).simp());
                let mut r: Outs<'t> = vec![];
                for s in have {
                    r.push((s, Val::ok(Val::Slice(rp.clone(), Lin::k(0), l.clone()))));
                }
                let Some(&f) = self.models.get("fill") else { return unsup("model fill") };
                let rt = match ga.type_at(0).kind() {
                    ty::Adt(_, g) => g.type_at(0),
                    _ => return unsup("BufReader type"),
                };
                for s in empty {
                    for (mut s, v) in self.call_fn(s, f, &[rt.into()], vec![Val::Ref(p.push(Pr::F(1)))], span)? {
                        let Val::Enum(d, m) = v else { return unsup("fill result") };
                        if let Some(e) = m.get(&1) {
                            for s in assume_all(&s, &Cond::Eq(d.addk(-1)).simp()) {
                                r.push((s, Val::err(e[0].clone())));
                            }
                        }
                        if let Some(v) = m.get(&0) {
                            s.facts.assume(&Cond::Eq(d).simp());
                            if s.facts.bottom {
                                continue;
                            }
                            let l = v[0].seq_len().unwrap_or_default();
                            self.write(&mut s, &rp, v[0].clone())?;
                            r.push((s, Val::ok(Val::Slice(rp.clone(), Lin::k(0), l))));
                        }
                    }
                }
                return Ok(Some(r));
            }
            "<std::io::BufReader<R> as std::io::BufRead>::consume" => {
                let Val::Ref(p) = &a[0] else { return unsup("BufReader") };
                let k = self.int(st, &a[1])?;
                let rp = p.push(Pr::F(0));
                let (q, cap, c) = self.vec_at(st, &Val::Ref(rp))?;
                let l = c.seq_len().unwrap();
                // more than is buffered: everything
                let (yes, no) = self.split(st, &le(&k, &l));
                let mut r: Outs<'t> = vec![];
                for mut s in yes {
                    let rest = self.content_slice(&s, &c, &k, &s.facts.norm(&l.sub(&k)))?;
                    self.write(&mut s, &q, Val::Vecv(cap.clone(), Rc::new(rest)))?;
                    r.push((s, Val::unit()));
                }
                for mut s in no {
                    let e = self.empty_content(self.tcx.types.u8);
                    self.write(&mut s, &q, Val::Vecv(cap.clone(), Rc::new(e)))?;
                    r.push((s, Val::unit()));
                }
                return Ok(Some(r));
            }
            "std::collections::HashSet::<T>::new" | "std::collections::HashMap::<K, V>::new" => return one(st.clone(), Val::k(0)),
            "std::collections::HashSet::<T, S, A>::insert" | "std::collections::HashMap::<K, V, S, A>::insert" => {
                let Val::Ref(p) = &a[0] else { return unsup("HashSet") };
                let v = self.read(st, p)?;
                let l = self.int(st, &v)?;
                let mut r: Outs<'t> = vec![];
                let mut s = st.clone();
                self.write(&mut s, p, Val::Int(l.addk(1)))?;
                s.facts.assume(&Cond::Le(l.addk(1 - MAX_LEN)));
                let (t, f) = if n.contains("HashSet") { (Val::Bool(Cond::True), Val::Bool(Cond::False)) } else { (Val::none(), Val::some(Val::Top(ga.type_at(1)))) };
                if !s.facts.bottom {
                    r.push((s, t));
                }
                let mut s = st.clone();
                s.facts.assume(&Cond::Le(l.neg().addk(1)));
                if !s.facts.bottom {
                    r.push((s, f));
                }
                return Ok(Some(r));
            }
            "std::collections::HashSet::<T, S, A>::len" | "std::collections::HashMap::<K, V, S, A>::len" => {
                let Val::Ref(p) = &a[0] else { return unsup("HashSet") };
                let v = self.read(st, p)?;
                return one(st.clone(), v);
            }
            "std::collections::HashMap::<K, V, S, A>::get" => {
                let v = ga.type_at(1);
                let mut r: Outs<'t> = vec![(st.clone(), Val::none())];
                let mut s = st.clone();
                let x = self.expand(&mut s, v)?;
                let o = self.alloc(&mut s, x, v);
                r.push((s, Val::some(Val::Ref(Place::obj(o)))));
                return Ok(Some(r));
            }
            "<std::collections::HashSet<T, S, A> as std::iter::IntoIterator>::into_iter" => {
                let l = self.int(st, &a[0])?;
                let ty::Adt(_, g) = atys[0].kind() else { return unsup("HashSet") };
                let c = Val::Seq(Rc::new(SeqV { len: l, elems: None, ety: g.type_at(0) }));
                return one(st.clone(), Val::agg(vec![c]));
            }
            "std::intrinsics::const_eval_select" | "core::intrinsics::const_eval_select" => {
                let (vs, ts) = self.untuple(st, &a[0], atys[0])?;
                return Ok(Some(self.call(st.clone(), atys[2], None, vs, ts, dty, span)?));
            }
            "std::ptr::drop_in_place" => return one(st.clone(), Val::unit()),
            "std::intrinsics::integer_min" | "std::intrinsics::integer_max" => {
                let (x, y) = (self.int(st, &a[0])?, self.int(st, &a[1])?);
                let (p, q) = if n.ends_with("min") { (x.clone(), y.clone()) } else { (y.clone(), x.clone()) };
                // result is x when p <= q
                let (yes, no) = self.split(st, &le(&p, &q));
                let mut r: Outs<'t> = vec![];
                for s in yes {
                    r.push((s, Val::Int(x.clone())));
                }
                for s in no {
                    r.push((s, Val::Int(y.clone())));
                }
                return Ok(Some(r));
            }
            _ => {}
        }
        if n.starts_with("std::boxed::convert::<impl std::convert::From<") && n.contains("for std::boxed::Box<(dyn std::error::Error") {
            return one(st.clone(), Val::Top(dty));
        }
        if n.starts_with("weezl::") {
            return self.model_weezl(st, n, a, dty);
        }
        if n.starts_with("color_quant::") {
            if n.ends_with("NeuQuant::new") {
                let (k, c) = (self.int(st, &a[0])?, self.int(st, &a[1])?);
                self.require(st, &Cond::Le(k.neg().addk(1)).simp(), "NeuQuant::new needs a sampling factor of at least 1")?;
                self.require(st, &Cond::Le(k.addk(-30)).simp(), "NeuQuant::new needs a sampling factor of at most 30")?;
                self.require(st, &Cond::Le(c.addk(-256)).simp(), "NeuQuant::new needs at most 256 colours")?;
                return Ok(None);
            }
            if n.ends_with("::color_map_rgb") {
                let l = Lin::s(fresh(0, 768, "colormap"));
                let c = self.top_content(self.tcx.types.u8, l.clone());
                return one(st.clone(), Val::Vecv(l, Rc::new(c)));
            }
            if n.ends_with("::index_of") {
                let (_, _, l) = self.slice_of(st, &a[1])?;
                self.require(st, &Cond::Eq(l.addk(-4)).simp(), "NeuQuant::index_of needs 4 bytes")?;
            }
            return Ok(None);
        }
        // clones of std enums/structs without bodies
        if let ty::InstanceKind::Shim(..) = inst.def {
            if _tn == "std::clone::Clone::clone" {
                if let Val::Ref(p) = &a[0] {
                    let v = self.read(st, p)?;
                    return one(st.clone(), v);
                }
            }
        }
        if n.ends_with("::clone") && n.starts_with("std::clone::impls::") {
            if let Val::Ref(p) = &a[0] {
                let v = self.read(st, p)?;
                let v = self.deepen(st, v, 3)?;
                return one(st.clone(), v);
            }
        }
        if n.contains("std::io::Error>::new") || n.contains("std::io::Error>::other") || n.ends_with("std::io::Error::new") || n.ends_with("std::io::Error::other") {
            if let Some(Val::Enum(d, _)) = a.first() {
                if n.ends_with("new") {
                    return one(st.clone(), Val::Int(d.addk(1000)));
                }
            }
            return one(st.clone(), Val::Int(Lin::s(fresh(1000, 1 << 40, "ioerr"))));
        }
        Ok(None)
    }

    /// Contracts of the LZW codec
    fn model_weezl(&mut self, st: &mut State<'t>, n: &str, a: &[Val<'t>], dty: Ty<'t>) -> R<Option<Outs<'t>>> {
        let unknown = |me: &mut Self, st: &mut State<'t>, t: Ty<'t>| -> R<Val<'t>> {
            let v = me.expand(st, t)?;
            me.deepen(st, v, 4)
        };
        match n {
            "weezl::decode::Decoder::new" | "weezl::decode::Decoder::with_tiff_size_switch" => {
                let k = self.int(st, &a[1])?;
                self.require(st, &Cond::Le(k.addk(-12)).simp(), "LZW decoder code size > 12")?;
                one(st.clone(), Val::agg(vec![Val::Int(k)]))
            }
            "weezl::decode::Decoder::reset" => one(st.clone(), Val::unit()),
            "weezl::decode::Decoder::has_ended" => one(st.clone(), Val::Bool(Cond::Ne(Lin::s(fresh(0, 1, "has_ended"))))),
            "weezl::decode::Decoder::decode_bytes" => {
                let (_, _, il) = self.slice_of(st, &a[1])?;
                let (op, oo, ol) = self.slice_of(st, &a[2])?;
                let cin = Lin::s(fresh(0, MAX_LEN, "consumed_in"));
                let cout = Lin::s(fresh(0, MAX_LEN, "consumed_out"));
                let mut base = st.clone();
                base.facts.assume(&le(&cin, &il));
                base.facts.assume(&le(&cout, &ol));
                if base.facts.bottom {
                    return Ok(Some(vec![]));
                }
                let fresh_bytes = Rope::base(new_base("lzw_out"), cout.clone());
                self.write_range(&mut base, &op, &oo, &Val::Rope(Rc::new(fresh_bytes)), &cout)?;
                // BufferResult { consumed_in, consumed_out, status: Result<LzwStatus, LzwError> }
                let mut r: Outs<'t> = vec![];
                let mk = |s: Val<'t>| Val::agg(vec![Val::Int(cin.clone()), Val::Int(cout.clone()), s]);
                for k in 0..3u32 {
                    // LzwStatus: Ok, NoProgress, Done
                    let mut s = base.clone();
                    if k == 1 {
                        s.facts.assume(&Cond::Eq(cin.clone()));
                        s.facts.assume(&Cond::Eq(cout.clone()));
                    }
                    if k == 0 {
                        s.facts.assume(&Cond::Le(cin.add(&cout).neg().addk(1)));
                    }
                    if !s.facts.bottom {
                        r.push((s, mk(Val::ok(Val::en(k, vec![])))));
                    }
                }
                r.push((base, mk(Val::err(Val::en(0, vec![])))));
                let _ = dty;
                Ok(Some(r))
            }
            "weezl::encode::Encoder::new" => {
                let k = self.int(st, &a[1])?;
                self.require(st, &Cond::And(vec![Cond::Le(k.addk(-12)), Cond::Le(k.neg().addk(2))]).simp(), "LZW encoder code size not in 2..=12")?;
                one(st.clone(), Val::agg(vec![Val::Int(k)]))
            }
            "weezl::encode::Encoder::into_vec" => one(st.clone(), Val::agg(vec![a[0].clone(), a[1].clone()])),
            "weezl::encode::IntoVec::<'_>::encode_all" => {
                // appends the whole compressed stream
                let f = match &a[0] {
                    Val::Agg(f) => f.clone(),
                    v => return unsup(format!("IntoVec {:?}", v)),
                };
                let (Val::Ref(ep), v) = (&f[0], f[1].clone()) else { return unsup("IntoVec fields") };
                let code = match self.read(st, ep)? {
                    Val::Agg(e) => e[0].clone(),
                    v => return unsup(format!("encoder {:?}", v)),
                };
                let (q, o, l) = self.slice_of(st, &a[1])?;
                let c = self.content(st, &q)?;
                let input = self.content_slice(st, &c, &o, &l)?;
                let out = Lin::s(fresh(1, MAX_LEN, "lzw_len"));
                let bytes = Val::Rope(Rc::new(Rope::base(new_base("lzw"), out.clone())));
                self.vec_append(st, &v, &bytes, self.tcx.types.u8)?;
                // spare space that the caller has to cut off
                let slack = Lin::s(fresh(0, MAX_LEN, "slack"));
                let pad = Val::Rope(Rc::new(Rope::fill(Lin::k(0), slack)));
                self.vec_append(st, &v, &pad, self.tcx.types.u8)?;
                if let Some(g) = self.globals.get("lzw").copied() {
                    let t = self.tcx.types.u8;
                    let _ = t;
                    st.objs.insert(g, Val::agg(vec![code, Val::Vecv(l.clone(), Rc::new(input)), Val::Vecv(out.clone(), Rc::new(bytes))]));
                }
                // VectorResult { consumed_in, consumed_out, status }
                let mut s2 = st.clone();
                let status = unknown(self, &mut s2, dty)?;
                let status = match status {
                    Val::Agg(f) if f.len() == 3 => f[2].clone(),
                    _ => Val::Uninit,
                };
                one(s2, Val::agg(vec![Val::Int(l), Val::Int(out), status]))
            }
            _ => Ok(None),
        }
    }

    // ------------------------------------------------------------------------------ intrinsics
    fn literal(&mut self, st: &mut State<'t>, v: &Val<'t>) -> R<String> {
        let (p, o, l) = self.slice_of(st, v)?;
        let c = self.content(st, &p)?;
        let c = self.content_slice(st, &c, &o, &l)?;
        let Val::Rope(r) = c else { return unsup("literal") };
        let mut out = vec![];
        for s in &r.0 {
            match &s.src {
                Src::Bytes(b) => {
                    for x in b {
                        out.push(x.as_const().unwrap_or(63) as u8);
                    }
                }
                _ => return unsup("literal"),
            }
        }
        Ok(String::from_utf8_lossy(&out).into_owned())
    }
    #[allow(clippy::too_many_arguments)]
    fn intrinsic(&mut self, mut st: State<'t>, m: &str, a: Vec<Val<'t>>, atys: Vec<Ty<'t>>, ga: ty::GenericArgsRef<'t>, dty: Ty<'t>, span: Span) -> R<Outs<'t>> {
        let _ = (&atys, span);
        let unit = Val::unit();
        match m {
            "nondet" => {
                let v = match self.expand(&mut st, dty) {
                    Ok(v) => v,
                    Err(Stop::Dead) => return Ok(vec![]),
                    Err(e) => return Err(e),
                };
                let v = self.deepen(&mut st, v, 6)?;
                Ok(vec![(st, v)])
            }
            "nondet_slice" | "nondet_slice_mut" => {
                let l = self.int(&st, &a[0])?;
                let c = self.top_content(self.tcx.types.u8, l.clone());
                let o = self.alloc(&mut st, c, self.tcx.types.u8);
                Ok(vec![(st, Val::Slice(Place::obj(o), Lin::k(0), l))])
            }
            "nondet_vec" => {
                let l = self.int(&st, &a[0])?;
                let c = self.top_content(self.tcx.types.u8, l.clone());
                let cap = Lin::s(fresh(0, MAX_LEN, "cap"));
                st.facts.assume(&le(&l, &cap));
                Ok(vec![(st, Val::Vecv(cap, Rc::new(c)))])
            }
            "assume" => {
                let Val::Bool(c) = &a[0] else { return unsup("assume") };
                Ok(assume_all(&st, c).into_iter().map(|s| (s, unit.clone())).collect())
            }
            "check" => {
                let Val::Bool(c) = &a[0] else { return unsup("check") };
                let tag = self.literal(&mut st, &a[1])?;
                let c = c.clone();
                self.check(&mut st, &c, &tag);
                if st.facts.bottom {
                    return Ok(vec![]);
                }
                Ok(vec![(st, unit)])
            }
            "reach" => {
                let tag = self.literal(&mut st, &a[0])?;
                self.stats.reached.insert(tag);
                Ok(vec![(st, unit)])
            }
            "panics" => {
                self.panic_prop = self.literal(&mut st, &a[0])?;
                Ok(vec![(st, unit)])
            }
            "coarse" => {
                self.coarse = true;
                Ok(vec![(st, unit)])
            }
            "unroll_begin" => {
                self.unroll_all += 1;
                Ok(vec![(st, unit)])
            }
            "unroll_end" => {
                self.unroll_all = self.unroll_all.saturating_sub(1);
                Ok(vec![(st, unit)])
            }
            "same" => {
                let c = self.seq_eq(&mut st, &a[0], &a[1])?;
                Ok(vec![(st, Val::Bool(c))])
            }
            "witness" => {
                let (p, o, _) = self.slice_of(&mut st, &a[0])?;
                let k = self.int(&st, &a[1])?.add(&o);
                let Val::Rope(r) = self.content(&mut st, &p)? else { return unsup("witness") };
                let [Seg { src: Src::Base(b, s), .. }] = &r.0[..] else { return unsup("witness") };
                let k = st.facts.norm(&k.add(s));
                let e = elem(*b, &k);
                crate::join::FIXED.with(|f| f.borrow_mut().extend(k.t.iter().chain(e.t.iter()).map(|x| x.0)));
                self.wit = Some((*b, k));
                Ok(vec![(st, Val::Int(e))])
            }
            "set_alloc_limit" => {
                let l = self.int(&st, &a[0])?;
                crate::join::FIXED.with(|f| f.borrow_mut().extend(l.t.iter().map(|x| x.0)));
                self.alloc_limit = Some(l);
                self.alloc_exempt.clear();
                Ok(vec![(st, unit)])
            }
            "no_oom" => {
                self.no_oom = true;
                Ok(vec![(st, unit)])
            }
            "exempt" => {
                let l = self.int(&st, &a[0])?;
                crate::join::FIXED.with(|f| f.borrow_mut().extend(l.t.iter().map(|x| x.0)));
                self.alloc_exempt.push(l);
                Ok(vec![(st, unit)])
            }
            "io_err" => Ok(vec![(st, a[0].clone())]),
            "io_err_id" => {
                let Val::Ref(p) = &a[0] else { return unsup("io_err_id") };
                let v = self.read(&mut st, p)?;
                Ok(vec![(st, v)])
            }
            "forget" => Ok(vec![(st, unit)]),
            "set_monitor" => {
                let t = ga.type_at(0);
                self.mon = Some((a[0].clone(), t));
                self.step_hook = self.models.get("step_hook").copied();
                Ok(vec![(st, unit)])
            }
            "lzw_track" => {
                let o = self.next_obj;
                self.next_obj += 1;
                let e = Val::Vecv(Lin::k(0), Rc::new(self.empty_content(self.tcx.types.u8)));
                st.objs.insert(o, Val::agg(vec![Val::k(0), e.clone(), e]));
                self.globals.insert("lzw".into(), o);
                Ok(vec![(st, unit)])
            }
            "lzw_code" | "lzw_input" | "lzw_output" => {
                let Some(&g) = self.globals.get("lzw") else { return unsup("lzw ghost") };
                let Some(Val::Agg(f)) = st.objs.get(&g).cloned() else { return unsup("lzw ghost") };
                Ok(match m {
                    "lzw_code" => vec![(st, f[0].clone())],
                    _ => {
                        let i = if m == "lzw_input" { 1 } else { 2 };
                        let l = f[i].seq_len().unwrap_or_default();
                        let p = Place::obj(g).push(Pr::F(i as u32));
                        vec![(st, Val::Slice(p, Lin::k(0), l))]
                    }
                })
            }
            "dump" => {
                eprintln!("DUMP {} facts {:?}\n", self.literal(&mut st, &a[0]).unwrap_or_default(), st.facts);
                for (o, v) in &st.objs {
                    eprintln!("  obj{o}: {v:?}");
                }
                Ok(vec![(st, unit)])
            }
            m => unsup(format!("unknown intrinsic {m}")),
        }
    }
    pub fn check(&mut self, st: &mut State<'t>, c: &Cond, tag: &str) {
        let (prop, _) = tag.split_once(':').unwrap_or((tag, ""));
        let prop = prop.trim().to_string();
        self.stats.obligations.entry(prop.clone()).or_default().insert(tag.to_string());
        if holds(&st.facts, c) {
            *self.stats.proved.entry(prop).or_insert(0) += 1;
            return;
        }
        let mut real = false;
        for s in assume_all(st, &c.not()) {
            if s.facts.bottom || enum_entails(&s.facts, &Cond::False) || s.facts.contradictory() {
                continue;
            }
            real = true;
            let msg = tag.split_once(':').map_or(tag, |x| x.1).trim().to_string();
            self.finding(&s, &prop, "check", &msg);
        }
        if !real {
            *self.stats.proved.entry(prop).or_insert(0) += 1;
        }
        st.facts.assume(c);
    }

    // ------------------------------------------------------------------------------ step hook
    fn is_step(&mut self, info: &Rc<FnInfo<'t>>, dty: Ty<'t>) -> bool {
        if self.step_hook.is_none() || self.hook_busy || self.mon.is_none() || info.krate != Krate::Gif {
            return false;
        }
        // called from a function of the same result type
        let Some(caller) = self.stack.last() else { return false };
        if caller.krate != Krate::Gif {
            return false;
        }
        let ci = caller.inst;
        let Some(cinfo) = self.info(ci) else { return false };
        if cinfo.tys[0] != dty || !self.is_step_ty(dty) {
            return false;
        }
        // inside a loop of the caller
        cinfo.head.iter().any(|h| *h)
    }
    fn is_step_ty(&mut self, t: Ty<'t>) -> bool {
        let ty::Adt(_, g) = t.kind() else { return false };
        if g.types().count() != 2 {
            return false;
        }
        let ty::Tuple(ts) = g.type_at(0).kind() else { return false };
        if ts.len() != 2 {
            return false;
        }
        match ts[1].kind() {
            ty::Adt(d, _) => self.name(d.did()).ends_with("::Decoded"),
            _ => false,
        }
    }
    fn run_hook(&mut self, outs: Outs<'t>, args: Vec<Val<'t>>, dty: Ty<'t>, span: Span) -> R<Outs<'t>> {
        let hook = self.step_hook.unwrap();
        let (mon, _) = self.mon.clone().unwrap();
        let mut res = vec![];
        self.stats.steps_hooked += outs.len() as u64;
        for (mut s, v) in outs {
            let o = self.next_obj;
            self.next_obj += 1;
            self.obj_ty.insert(o, dty);
            s.objs.insert(o, v);
            self.hold.push(o);
            self.hook_busy = true;
            let mut a = vec![mon.clone()];
            a.extend(args.iter().cloned());
            a.push(Val::Ref(Place::obj(o)));
            let r = self.call_fn(s, hook, &[], a, span);
            self.hook_busy = false;
            self.hold.pop();
            for (mut s, _) in r? {
                let Some(v) = s.objs.remove(&o) else { return unsup("hook result") };
                res.push((s, v));
            }
        }
        Ok(res)
    }
}

/// Are two ropes of equal length equal?
pub fn rope_same(f: &Facts, x: &Rope, y: &Rope) -> bool {
    let (mut i, mut j) = (0, 0);
    let mut xs = x.0.clone();
    let mut ys = y.0.clone();
    loop {
        while i < xs.len() && f.norm(&xs[i].len).as_const() == Some(0) {
            i += 1;
        }
        while j < ys.len() && f.norm(&ys[j].len).as_const() == Some(0) {
            j += 1;
        }
        if i >= xs.len() || j >= ys.len() {
            // the remainder has to be empty
            return xs[i.min(xs.len())..].iter().all(|s| f.entails_le(&s.len)) && ys[j.min(ys.len())..].iter().all(|s| f.entails_le(&s.len));
        }
        let (la, lb) = (f.norm(&xs[i].len), f.norm(&ys[j].len));
        let a_short = f.entails_le(&la.sub(&lb));
        let b_short = f.entails_le(&lb.sub(&la));
        if !a_short && !b_short {
            return false;
        }
        let n = if a_short { la.clone() } else { lb.clone() };
        if !src_same(f, &xs[i].src, &ys[j].src, &n) {
            return false;
        }
        if a_short && b_short {
            i += 1;
            j += 1;
        } else if a_short {
            let r = Rope(vec![ys[j].clone()]);
            match r.slice(f, &n, &lb.sub(&n)) {
                Some(r) if r.0.len() == 1 => ys[j] = r.0[0].clone(),
                _ => return false,
            }
            i += 1;
        } else {
            let r = Rope(vec![xs[i].clone()]);
            match r.slice(f, &n, &la.sub(&n)) {
                Some(r) if r.0.len() == 1 => xs[i] = r.0[0].clone(),
                _ => return false,
            }
            j += 1;
        }
    }
}
fn src_same(f: &Facts, a: &Src, b: &Src, n: &Lin) -> bool {
    match (a, b) {
        (Src::Base(x, s), Src::Base(y, t)) => x == y && f.entails_eq(&s.sub(t)),
        (Src::Fill(x), Src::Fill(y)) => f.entails_eq(&x.sub(y)),
        _ => {
            let Some(n) = n.as_const() else { return false };
            if n > 64 {
                return false;
            }
            let get = |s: &Src, i: i128| -> Option<Lin> {
                Some(match s {
                    Src::Base(b, st) => elem(*b, &f.norm(&st.addk(i))),
                    Src::Fill(v) => v.clone(),
                    Src::Bytes(v) => v.get(i as usize)?.clone(),
                })
            };
            (0..n).all(|i| match (get(a, i), get(b, i)) {
                (Some(x), Some(y)) => f.entails_eq(&f.norm(&x.sub(&y))),
                _ => false,
            })
        }
    }
}

pub fn _unused(_: BTreeSet<u8>) {}
