//! Joins, widening and inclusion of abstract states.
use crate::lin::*;
use crate::val::*;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use std::rc::Rc;

pub struct Joined<'t> {
    pub st: State<'t>,
    pub gen: Vec<Sym>,
    pub gen_bases: Vec<u32>,
}

struct J<'a, 't> {
    a: &'a State<'t>,
    b: &'a State<'t>,
    pairs: HashMap<(Lin, Lin), Lin>,
    new: Vec<(Sym, Lin, Lin)>,
    bases: HashMap<(Rope, Rope), u32>,
    new_bases: Vec<u32>,
    objmap: HashMap<(ObjId, ObjId), Option<ObjId>>,
    work: Vec<(ObjId, ObjId)>,
    poison: Vec<String>,
    round: usize,
}

impl<'a, 't> J<'a, 't> {
    fn lin(&mut self, x: &Lin, y: &Lin) -> Lin {
        if x == y {
            return x.clone();
        }
        let nx = self.a.facts.norm(x);
        let ny = self.b.facts.norm(y);
        if nx == ny {
            return nx;
        }
        if let Some(l) = self.pairs.get(&(nx.clone(), ny.clone())) {
            return l.clone();
        }
        // does one side's expression hold on the other side as well?
        if self.b.facts.entails_eq(&x.sub(y)) && syms_known(&self.b.facts, x, y) {
            self.pairs.insert((nx, ny), x.clone());
            return x.clone();
        }
        if self.a.facts.entails_eq(&x.sub(y)) && syms_known(&self.a.facts, y, x) {
            self.pairs.insert((nx, ny), y.clone());
            return y.clone();
        }
        if ny != *y && !ny.t.is_empty() && ny.t.len() <= 3 && self.a.facts.entails_eq(&x.sub(&ny)) && syms_known(&self.a.facts, &ny, x) {
            self.pairs.insert((nx, ny.clone()), ny.clone());
            return ny;
        }
        if nx != *x && !nx.t.is_empty() && nx.t.len() <= 3 && self.b.facts.entails_eq(&y.sub(&nx)) && syms_known(&self.b.facts, &nx, y) {
            self.pairs.insert((nx.clone(), ny), nx.clone());
            return nx;
        }
        let (mut a0, a1) = self.a.facts.bounds(&nx);
        let (mut b0, b1) = self.b.facts.bounds(&ny);
        if a0 < 0 {
            a0 = self.a.facts.tight_bounds(&nx).0;
        }
        if b0 < 0 {
            b0 = self.b.facts.tight_bounds(&ny).0;
        }
        let (t0, t1) = type_range(x, y, a0.min(b0), a1.max(b1));
        let t = fresh(t0, t1, "j");
        self.new.push((t, x.clone(), y.clone()));
        self.pairs.insert((nx, ny), Lin::s(t));
        Lin::s(t)
    }
    fn cond(&mut self, x: &Cond, y: &Cond) -> Cond {
        if x == y {
            return x.clone();
        }
        let l = |c: &Cond, f: &Facts| -> Lin {
            if f.entails(c) {
                Lin::k(1)
            } else if f.refutes(c) {
                Lin::k(0)
            } else {
                Lin::s(cond_sym(c))
            }
        };
        let (lx, ly) = (l(x, &self.a.facts), l(y, &self.b.facts));
        let t = self.lin(&lx, &ly);
        Cond::Ne(t).simp()
    }
    fn place(&mut self, p: &Place, q: &Place) -> Option<Place> {
        let obj = if p.obj == q.obj {
            p.obj
        } else {
            match self.objmap.get(&(p.obj, q.obj)) {
                Some(o) => (*o)?,
                None => {
                    let priv_a = !self.b.objs.contains_key(&p.obj);
                    let priv_b = !self.a.objs.contains_key(&q.obj);
                    if priv_a && priv_b && self.a.objs.contains_key(&p.obj) && self.b.objs.contains_key(&q.obj) {
                        // both exist in one state only: pair them under the first name
                        self.objmap.insert((p.obj, q.obj), Some(p.obj));
                        self.work.push((p.obj, q.obj));
                        p.obj
                    } else {
                        self.objmap.insert((p.obj, q.obj), None);
                        return None;
                    }
                }
            }
        };
        if p.pr.len() != q.pr.len() {
            return None;
        }
        let mut pr = vec![];
        for (x, y) in p.pr.iter().zip(q.pr.iter()) {
            pr.push(match (x, y) {
                (Pr::I(a), Pr::I(b)) => Pr::I(self.lin(a, b)),
                (x, y) if x == y => x.clone(),
                _ => return None,
            });
        }
        Some(Place { obj, pr: Rc::new(pr) })
    }
    fn src(&mut self, x: &Src, y: &Src) -> Option<Src> {
        Some(match (x, y) {
            (Src::Base(a, s), Src::Base(b, t)) if a == b => Src::Base(*a, self.lin(s, t)),
            (Src::Fill(a), Src::Fill(b)) => Src::Fill(self.lin(a, b)),
            (Src::Bytes(a), Src::Bytes(b)) if a.len() == b.len() => Src::Bytes(a.iter().zip(b).map(|(a, b)| self.lin(a, b)).collect()),
            _ => return None,
        })
    }
    fn shapes(&mut self, x: &Rope, y: &Rope) -> Option<Rope> {
        // compatible shapes, where a missing last segment is an empty one
        let n = x.0.len().max(y.0.len());
        if x.0.len() + 1 >= n && y.0.len() + 1 >= n && n > 0 && (x.0.len() == y.0.len() || n <= 1 || self.round < 2 && n <= 3) {
            let save = (self.pairs.clone(), self.new.clone());
            let mut out = vec![];
            let mut ok = true;
            for i in 0..n {
                match (x.0.get(i), y.0.get(i)) {
                    (Some(s), Some(t)) => match self.src(&s.src, &t.src) {
                        Some(src) => {
                            let len = self.lin(&s.len, &t.len);
                            if matches!(src, Src::Bytes(_)) && s.len != t.len {
                                ok = false;
                            }
                            out.push(Seg { len, src })
                        }
                        None => ok = false,
                    },
                    (Some(s), None) | (None, Some(s)) => {
                        let len = if i < x.0.len() { self.lin(&s.len, &Lin::k(0)) } else { self.lin(&Lin::k(0), &s.len) };
                        if matches!(s.src, Src::Bytes(_)) {
                            ok = false;
                        }
                        out.push(Seg { len, src: s.src.clone() })
                    }
                    _ => {}
                }
                if !ok {
                    break;
                }
            }
            if ok {
                return Some(Rope(out));
            }
            self.pairs = save.0;
            self.new = save.1;
        }
        None
    }
    fn rope(&mut self, x: &Rope, y: &Rope) -> Rope {
        if x == y {
            return x.clone();
        }
        let x = x.norm(&self.a.facts);
        let y = y.norm(&self.b.facts);
        if x == y {
            return x;
        }
        if let Some(r) = self.shapes(&x, &y) {
            return r;
        }
        let (x2, y2) = (x.rebase(&self.a.facts), y.rebase(&self.b.facts));
        if x2.0.iter().chain(y2.0.iter()).all(|s| matches!(s.src, Src::Base(..))) && (x2 != x || y2 != y) {
            if x2 == y2 {
                return x2;
            }
            if let Some(r) = self.shapes(&x2, &y2) {
                return r;
            }
        }
        // explicit bytes of equal total length: per byte
        let key = (x.clone(), y.clone());
        let (xl, yl) = (x.len(), y.len());
        let len = self.lin(&xl, &yl);
        if let (Some(c), true) = (len.as_const(), xl.as_const() == yl.as_const()) {
            if c <= 64 {
                let mut v = vec![];
                let mut ok = true;
                for i in 0..c {
                    match (x.read(&self.a.facts, &Lin::k(i)), y.read(&self.b.facts, &Lin::k(i))) {
                        (Some(p), Some(q)) => {
                            let l = self.lin(&p, &q);
                            v.push(l)
                        }
                        _ => {
                            ok = false;
                            break;
                        }
                    }
                }
                if ok {
                    return Rope::bytes(v);
                }
            }
        }
        let b = match self.bases.get(&key) {
            Some(b) => *b,
            None => {
                let b = new_base("joined");
                self.new_bases.push(b);
                self.bases.insert(key, b);
                b
            }
        };
        Rope::base(b, len)
    }
    fn val(&mut self, x: &Val<'t>, y: &Val<'t>) -> Val<'t> {
        if x == y {
            return x.clone();
        }
        match (x, y) {
            (Val::Int(a), Val::Int(b)) => Val::Int(self.lin(a, b)),
            (Val::Bool(a), Val::Bool(b)) => Val::Bool(self.cond(a, b)),
            (Val::Agg(a), Val::Agg(b)) if a.len() == b.len() => Val::agg(a.iter().zip(b.iter()).map(|(a, b)| self.val(a, b)).collect()),
            (Val::Enum(d, m), Val::Enum(e, n)) => {
                let dj = self.lin(d, e);
                let mut out: BTreeMap<u32, Rc<Vec<Val<'t>>>> = BTreeMap::new();
                let possible = |f: &Facts, d: &Lin, k: u32| -> bool { !f.refutes(&Cond::Eq(d.addk(-(k as i128)))) };
                let keys: BTreeSet<u32> = m.keys().chain(n.keys()).copied().collect();
                for k in keys {
                    let pa = m.get(&k).filter(|_| possible(&self.a.facts, d, k));
                    let pb = n.get(&k).filter(|_| possible(&self.b.facts, e, k));
                    match (pa, pb) {
                        (Some(a), Some(b)) => {
                            let v = a.iter().zip(b.iter()).map(|(a, b)| self.val(a, b)).collect();
                            out.insert(k, Rc::new(v));
                        }
                        (Some(a), None) => {
                            out.insert(k, self.one_sided(a, true));
                        }
                        (None, Some(b)) => {
                            out.insert(k, self.one_sided(b, false));
                        }
                        _ => {}
                    }
                }
                Val::Enum(dj, Rc::new(out))
            }
            (Val::Ref(p), Val::Ref(q)) => match self.place(p, q) {
                Some(p) => Val::Ref(p),
                None => {
                    self.poison.push(format!("{:?} / {:?}", p, q));
                    Val::Uninit
                }
            },
            (Val::Slice(p, o, l), Val::Slice(q, o2, l2)) => {
                // an empty slice can be taken from anywhere
                let (ea, eb) = (self.a.facts.entails_le(l), self.b.facts.entails_le(l2));
                if p.obj != q.obj && (ea || eb) {
                    if ea {
                        if self.a.objs.contains_key(&q.obj) || !self.b.objs.contains_key(&q.obj) {
                            let o = self.lin(&Lin::k(0), o2);
                            let l = self.lin(&Lin::k(0), l2);
                            return Val::Slice(q.clone(), o, l);
                        }
                    } else {
                        if self.b.objs.contains_key(&p.obj) || !self.a.objs.contains_key(&p.obj) {
                            let o = self.lin(o, &Lin::k(0));
                            let l = self.lin(l, &Lin::k(0));
                            return Val::Slice(p.clone(), o, l);
                        }
                    }
                }
                match self.place(p, q) {
                    Some(p) => {
                        let o = self.lin(o, o2);
                        let l = self.lin(l, l2);
                        Val::Slice(p, o, l)
                    }
                    None => {
                        self.poison.push(format!("{:?} / {:?}", p, q));
                        Val::Uninit
                    }
                }
            }
            (Val::Rope(a), Val::Rope(b)) => Val::Rope(Rc::new(self.rope(a, b))),
            (Val::Seq(a), Val::Seq(b)) => {
                let len = self.lin(&a.len, &b.len);
                let elems = match (&a.elems, &b.elems) {
                    (Some(x), Some(y)) if x.len() == y.len() => Some(x.iter().zip(y).map(|(a, b)| self.val(a, b)).collect()),
                    _ => None,
                };
                Val::Seq(Rc::new(SeqV { len, elems, ety: a.ety }))
            }
            (Val::Vecv(c, v), Val::Vecv(d, w)) => {
                let v = self.val(v, w);
                let c = self.lin(c, d);
                Val::Vecv(c, Rc::new(v))
            }
            (Val::Dyn(a, t), Val::Dyn(b, u)) if t == u => Val::Dyn(Rc::new(self.val(a, b)), *t),
            (Val::Top(t), _) | (_, Val::Top(t)) => Val::Top(*t),
            _ => Val::Uninit,
        }
    }
    /// The payload of a variant that exists on one side only. Its symbols mean nothing on the other.
    fn one_sided(&mut self, v: &Rc<Vec<Val<'t>>>, _left: bool) -> Rc<Vec<Val<'t>>> {
        let mut objs = vec![];
        v.iter().for_each(|x| x.objs(&mut objs));
        for o in objs {
            // keep the objects it points to
            if self.a.objs.contains_key(&o) != self.b.objs.contains_key(&o) {
                self.objmap.entry((o, o)).or_insert(Some(o));
                self.work.push((o, o));
            }
        }
        v.clone()
    }
}

fn syms_known(f: &Facts, x: &Lin, _y: &Lin) -> bool {
    // every symbol of x is mentioned by f (otherwise it has no meaning on that side)
    let mut s = BTreeSet::new();
    f.syms(&mut s);
    x.t.iter().all(|t| s.contains(&t.0))
}

fn type_range(x: &Lin, y: &Lin, lo: i128, hi: i128) -> (i128, i128) {
    // widest plausible machine type from the symbols involved; falls back to usize
    let mut r = (0i128, 255i128);
    let mut any = false;
    for l in [x, y] {
        for (s, _) in &l.t {
            let (a, b) = range(*s);
            r = (r.0.min(a), r.1.max(b));
            any = true;
        }
    }
    if !any || lo < r.0 {
        r = (0, u64::MAX as i128);
    } else if hi > r.1 {
        r = (0, *[65535, u32::MAX as i128, u64::MAX as i128].iter().find(|x| **x >= hi).unwrap_or(&(u64::MAX as i128)));
    }
    if lo < 0 {
        r.0 = i64::MIN as i128;
    }
    if hi > r.1 {
        r.1 = i128::MAX >> 20;
    }
    r
}

pub fn cond_sym(c: &Cond) -> Sym {
    if let Cond::Ne(l) = c {
        if let Some(s) = l.as_sym() {
            if range(s) == (0, 1) {
                return s;
            }
        }
    }
    intern(Def::Cond(Box::new(c.clone())), 0, 1).0
}

/// Linear dependencies among the differences: returns integer combinations of indices summing to 0
fn dependencies(d: &[Lin]) -> Vec<Vec<(usize, i128)>> {
    // fraction-free Gaussian elimination, carrying the combination
    let mut rows: Vec<(Lin, Vec<(usize, i128)>)> = vec![];
    let mut deps = vec![];
    let comb = |a: &Vec<(usize, i128)>, ka: i128, b: &Vec<(usize, i128)>, kb: i128| -> Vec<(usize, i128)> {
        let mut m: BTreeMap<usize, i128> = BTreeMap::new();
        for (i, k) in a {
            *m.entry(*i).or_default() += k * ka;
        }
        for (i, k) in b {
            *m.entry(*i).or_default() += k * kb;
        }
        m.into_iter().filter(|x| x.1 != 0).collect()
    };
    let lead = |l: &Lin| -> Option<(u64, i128)> {
        if let Some((s, k)) = l.t.first() {
            Some((*s as u64, *k))
        } else if l.c != 0 {
            Some((u64::MAX, l.c))
        } else {
            None
        }
    };
    for (i, l) in d.iter().enumerate() {
        let mut cur = l.clone();
        let mut c = vec![(i, 1i128)];
        loop {
            let Some((s, k)) = lead(&cur) else { break };
            let Some((r, rc)) = rows.iter().find(|(r, _)| lead(r).unwrap().0 == s) else { break };
            let rk = lead(r).unwrap().1;
            cur = cur.scale(rk).add_scaled(r, -k);
            c = comb(&c, rk, rc, -k);
            if cur.big() {
                break;
            }
        }
        if lead(&cur).is_none() {
            if c.len() > 0 && c.len() <= 5 {
                deps.push(c);
            }
        } else if !cur.big() {
            rows.push((cur, c));
        }
    }
    deps
}

/// Adds the first bytes of buffers that still exist
pub fn elem_syms(objs: &BTreeMap<ObjId, Val<'_>>, f: &Facts, live: &mut BTreeSet<Sym>) {
    let mut fs: BTreeSet<Sym> = BTreeSet::new();
    f.syms(&mut fs);
    let mut bs: Option<BTreeSet<u32>> = None;
    for s in fs {
        if let Def::Elem(b, i) = def(s) {
            if !live.contains(&s) && i.as_const().map_or(false, |c| c < 16) {
                let bs = bs.get_or_insert_with(|| {
                    let mut o = BTreeSet::new();
                    objs.values().for_each(|v| crate::memo::bases(v, &mut o));
                    o
                });
                if bs.contains(&b) {
                    live.insert(s);
                }
            }
        }
    }
}

pub fn val_syms_closure(objs: &BTreeMap<ObjId, Val<'_>>) -> BTreeSet<Sym> {
    let mut live = BTreeSet::new();
    for v in objs.values() {
        v.syms(&mut live);
    }
    let mut work: Vec<Sym> = live.iter().copied().collect();
    while let Some(s) = work.pop() {
        let mut sub = BTreeSet::new();
        match def(s) {
            Def::Free => {}
            Def::Elem(_, l) => sub.extend(l.t.iter().map(|x| x.0)),
            Def::Op(_, _, v) => v.iter().for_each(|l| sub.extend(l.t.iter().map(|x| x.0))),
            Def::Cond(c) => c.syms(&mut sub),
        }
        for x in sub {
            if live.insert(x) {
                work.push(x);
            }
        }
    }
    live
}

fn all_syms(s: &State<'_>) -> BTreeSet<Sym> {
    let mut r = val_syms_closure(&s.objs);
    s.facts.syms(&mut r);
    close_syms(&mut r);
    r
}

thread_local! {
    /// symbols with a meaning outside of the states
    pub static FIXED: std::cell::RefCell<BTreeSet<Sym>> = const { std::cell::RefCell::new(BTreeSet::new()) };
}

fn close_syms(live: &mut BTreeSet<Sym>) {
    let mut work: Vec<Sym> = live.iter().copied().collect();
    while let Some(s) = work.pop() {
        let mut sub = BTreeSet::new();
        match def(s) {
            Def::Free => {}
            Def::Elem(_, l) => sub.extend(l.t.iter().map(|x| x.0)),
            Def::Op(_, _, v) => v.iter().for_each(|l| sub.extend(l.t.iter().map(|x| x.0))),
            Def::Cond(c) => c.syms(&mut sub),
        }
        for x in sub {
            if live.insert(x) {
                work.push(x);
            }
        }
    }
}

/// What holds of every slice and vector whatever the program does: `l <= 0` for each l returned.
/// Only for values that are certainly there.
fn invariants<'t>(v: &Val<'t>, objs: &BTreeMap<ObjId, Val<'t>>, out: &mut Vec<Lin>) {
    match v {
        Val::Agg(f) => f.iter().for_each(|x| invariants(x, objs, out)),
        Val::Enum(d, m) => {
            if let Some(f) = d.as_const().and_then(|c| m.get(&(c as u32))) {
                f.iter().for_each(|x| invariants(x, objs, out))
            }
        }
        Val::Dyn(x, _) => invariants(x, objs, out),
        Val::Vecv(c, x) => {
            if let Some(n) = x.seq_len() {
                out.push(n.sub(c));
            }
            invariants(x, objs, out);
        }
        Val::Rope(r) => {
            r.0.iter().for_each(|s| out.push(s.len.neg()));
            out.push(r.len().addk(-(i64::MAX as i128)));
        }
        Val::Seq(s) => out.push(s.len.neg()),
        Val::Slice(p, o, l) => {
            out.push(o.neg());
            out.push(l.neg());
            let mut t = objs.get(&p.obj);
            for pr in p.pr.iter() {
                t = match (t, pr) {
                    (Some(Val::Agg(f)), Pr::F(i)) => f.get(*i as usize),
                    (Some(Val::Enum(_, m)), Pr::V(k, i)) => m.get(k).and_then(|f| f.get(*i as usize)),
                    _ => None,
                };
            }
            if let Some(n) = t.and_then(|t| t.seq_len()) {
                out.push(o.add(l).sub(&n));
            }
        }
        _ => {}
    }
}

pub fn assume_invariants(objs: &BTreeMap<ObjId, Val<'_>>, f: &mut Facts) {
    let mut v = vec![];
    objs.values().for_each(|x| invariants(x, objs, &mut v));
    for l in v {
        if !l.t.is_empty() && l.t.len() <= 6 && !f.entails_le(&l) {
            f.assume_le(&l);
        }
    }
}

fn slice_conds<'t>(v: &Val<'t>, objs: &BTreeMap<ObjId, Val<'t>>, out: &mut Vec<Cond>) {
    match v {
        Val::Agg(f) => f.iter().for_each(|x| slice_conds(x, objs, out)),
        Val::Enum(_, m) => m.values().for_each(|f| f.iter().for_each(|x| slice_conds(x, objs, out))),
        Val::Dyn(x, _) => slice_conds(x, objs, out),
        Val::Slice(p, o, l) => {
            let mut t = objs.get(&p.obj);
            for pr in p.pr.iter() {
                t = match (t, pr) {
                    (Some(Val::Agg(f)), Pr::F(i)) => f.get(*i as usize),
                    (Some(Val::Enum(_, m)), Pr::V(k, i)) => m.get(k).and_then(|f| f.get(*i as usize)),
                    _ => None,
                };
            }
            if let Some(n) = t.and_then(|t| t.seq_len()) {
                let d = o.add(l).sub(&n);
                if !d.t.is_empty() && d.t.len() <= 6 {
                    out.push(Cond::Eq(d.clone()));
                    out.push(Cond::Le(d));
                }
            }
        }
        _ => {}
    }
}

fn int_slots<'t>(v: &Val<'t>, ints: &mut Vec<Lin>, lens: &mut Vec<Lin>) {
    match v {
        Val::Int(l) if l.t.len() >= 2 && l.t.len() <= 4 && !ints.contains(l) => ints.push(l.clone()),
        Val::Agg(f) => f.iter().for_each(|x| int_slots(x, ints, lens)),
        Val::Enum(_, m) => m.values().for_each(|f| f.iter().for_each(|x| int_slots(x, ints, lens))),
        Val::Rope(r) => {
            let l = r.len();
            if !l.t.is_empty() && !lens.contains(&l) {
                lens.push(l)
            }
        }
        Val::Seq(s) if !s.len.t.is_empty() && !lens.contains(&s.len) => lens.push(s.len.clone()),
        Val::Vecv(_, x) | Val::Dyn(x, _) => int_slots(x, ints, lens),
        _ => {}
    }
}

const TH_LO: &[i128] = &[i128::MIN >> 20, -1, 0, 1];
const TH_HI: &[i128] = &[0, 1, 2, 3, 4, 8, 12, 255, 256, 768, 65535, (1 << 40), i64::MAX as i128, u64::MAX as i128];

pub fn join<'t>(a: &State<'t>, b: &State<'t>, round: usize) -> Joined<'t> {
    let widen = round >= 3;
    let (mut a2, mut b2) = (a.clone(), b.clone());
    assume_invariants(&a2.objs, &mut a2.facts);
    assume_invariants(&b2.objs, &mut b2.facts);
    let (a, b) = (&a2, &b2);
    let mut j = J { a, b, pairs: HashMap::new(), new: vec![], bases: HashMap::new(), new_bases: vec![], objmap: HashMap::new(), work: vec![], poison: vec![], round };
    let mut objs: BTreeMap<ObjId, Val<'t>> = BTreeMap::new();
    for (id, va) in &a.objs {
        if let Some(vb) = b.objs.get(id) {
            let v = j.val(va, vb);
            objs.insert(*id, v);
        }
    }
    let mut seen: HashSet<(ObjId, ObjId)> = HashSet::new();
    while let Some((x, y)) = j.work.pop() {
        if !seen.insert((x, y)) || (x == y && objs.contains_key(&x)) {
            continue;
        }
        let v = if x != y {
            j.val(&a.objs[&x], &b.objs[&y])
        } else if let Some(v) = a.objs.get(&x) {
            let v = Rc::new(vec![v.clone()]);
            j.one_sided(&v, true)[0].clone()
        } else if let Some(v) = b.objs.get(&x) {
            let v = Rc::new(vec![v.clone()]);
            j.one_sided(&v, false)[0].clone()
        } else {
            continue;
        };
        objs.insert(x, v);
    }
    if std::env::var("JDBG").is_ok() && !j.poison.is_empty() {
        eprintln!("poison: {:?}", j.poison);
    }
    let new = j.new.clone();
    let new_bases = j.new_bases.clone();
    let live0 = val_syms_closure(&objs);

    // facts
    let mut fa = a.facts.clone();
    let mut fb = b.facts.clone();
    for (t, la, lb) in &new {
        fa.assume_eq(&Lin::s(*t).sub(la));
        fb.assume_eq(&Lin::s(*t).sub(lb));
    }
    // Symbols that one side does not know describe payloads that it does not have: it may be taken to
    // satisfy what the other side knows about them alone.
    {
        let (sa, sb) = (all_syms(a), all_syms(b));
        for (f, own, other) in [(&mut fa, b, &sa), (&mut fb, a, &sb)] {
            for c in own.facts.all() {
                let mut ss = BTreeSet::new();
                c.syms(&mut ss);
                close_syms(&mut ss);
                if !ss.is_empty() && ss.iter().all(|s| !other.contains(s)) {
                    f.assume(&c);
                }
            }
        }
    }
    let mut cands: Vec<Cond> = vec![];
    // linear relations between the new symbols
    let news: Vec<&(Sym, Lin, Lin)> = new.iter().filter(|n| live0.contains(&n.0)).collect();
    let diffs: Vec<Lin> = news.iter().map(|(_, la, lb)| lb.sub(la)).collect();
    let diffs_n: Vec<Lin> = news.iter().map(|(_, la, lb)| b.facts.norm(lb).sub(&a.facts.norm(la))).collect();
    let mut extra_live: BTreeSet<Sym> = BTreeSet::new();
    // symbols that both sides know, but with different constant values
    let olds: Vec<(Sym, Lin, Lin)> = if news.is_empty() || round > 5 {
        vec![]
    } else {
        let isnew: BTreeSet<Sym> = news.iter().map(|n| n.0).collect();
        let point = |f: &Facts, s: Sym| -> Option<Lin> {
            let n = f.norm(&Lin::s(s));
            if n.as_const().is_some() {
                return Some(n);
            }
            let (lo, hi) = f.srange(s);
            if hi - lo > 4096 && !matches!(def(s), Def::Op(..)) {
                return None;
            }
            let (lo, hi) = f.tight_bounds(&n);
            (lo == hi).then(|| Lin::k(lo))
        };
        live0
            .iter()
            .filter(|s| !isnew.contains(s) && !matches!(def(**s), Def::Elem(..) | Def::Cond(..)))
            .filter_map(|s| {
                let (x, y) = (point(&a.facts, *s)?, point(&b.facts, *s)?);
                (x != y).then_some((*s, x, y))
            })
            .take(6)
            .collect()
    };
    let both: Vec<(Sym, Lin, Lin)> = news.iter().map(|n| (*n).clone()).chain(olds.iter().cloned()).collect();
    let diffs_o: Vec<Lin> = if olds.is_empty() { vec![] } else { both.iter().map(|(_, la, lb)| b.facts.norm(lb).sub(&a.facts.norm(la))).collect() };
    for (ds, nrm) in [(&diffs, false), (&diffs_n, true), (&diffs_o, true)] {
        for dep in dependencies(ds) {
            let mut l = Lin::k(0);
            for (i, k) in dep {
                let la = if nrm { a.facts.norm(&both[i].1) } else { both[i].1.clone() };
                l = l.add_scaled(&Lin::s(both[i].0).sub(&la), k);
            }
            l.t.iter().for_each(|x| {
                extra_live.insert(x.0);
            });
            fn gcd(a: i128, b: i128) -> i128 {
                if b == 0 {
                    a.abs()
                } else {
                    gcd(b, a % b)
                }
            }
            let g = l.t.iter().fold(l.c, |g, x| gcd(g, x.1)).abs();
            if g > 1 {
                l.c /= g;
                l.t.iter_mut().for_each(|x| x.1 /= g);
            }
            if l.c.abs() > 1 << 33 || l.t.iter().filter(|x| x.1.abs() > 16).count() > 1 || l.t.iter().any(|x| x.1.abs() > 16 && (x.1.abs() > 4096 || both.iter().any(|n| n.0 == x.0))) {
                continue;
            }
            cands.push(Cond::Eq(l));
        }
    }
    // order relative to symbols that are followed
    let fixed: Vec<Sym> = FIXED.with(|f| f.borrow().iter().cloned().collect());
    for s in fixed {
        for (t, la, lb) in &news {
            for sg in [1, -1] {
                for c in [1, 0] {
                    let (da, db) = (Lin::s(s).sub(la).scale(sg).addk(c), Lin::s(s).sub(lb).scale(sg).addk(c));
                    if a.facts.entails_le(&da) && b.facts.entails_le(&db) {
                        cands.push(Cond::Le(Lin::s(s).sub(&Lin::s(*t)).scale(sg).addk(c)));
                        break;
                    }
                }
            }
        }
    }
    let mut live = live0.clone();
    live.extend(extra_live.iter());
    elem_syms(&objs, &a.facts, &mut live);
    // facts of either side, renamed
    let inv = |side: u8| -> HashMap<Sym, Lin> {
        let mut m: HashMap<Sym, Lin> = HashMap::new();
        for (t, la, lb) in &news {
            let l = if side == 0 { a.facts.norm(la) } else { b.facts.norm(lb) };
            if let Some(&(x, k)) = l.t.iter().rev().find(|x| x.1.abs() == 1) {
                // t = k x + rest  =>  x = k (t - rest)
                let mut rest = l.clone();
                rest.t.retain(|y| y.0 != x);
                m.entry(x).or_insert(Lin::s(*t).sub(&rest).scale(k));
            }
        }
        m
    };
    let srcs: Vec<u8> = if widen { vec![0] } else { vec![0, 1] };
    for side in srcs {
        let f = if side == 0 { &a.facts } else { &b.facts };
        let m = inv(side);
        for (t, la, lb) in &news {
            let l = f.norm(if side == 0 { la } else { lb });
            let l = l.map(&mut |s| m.get(&s).cloned().unwrap_or_else(|| Lin::s(s)));
            if l != Lin::s(*t) && l.t.len() <= 4 {
                cands.push(Cond::Eq(Lin::s(*t).sub(&l)));
            }
        }
        for c in f.all() {
            let mut ss = BTreeSet::new();
            c.syms(&mut ss);
            if ss.iter().all(|s| live.contains(s)) {
                cands.push(c.clone());
            }
            if ss.iter().any(|s| m.contains_key(s)) {
                // each single renaming and all together
                let all = c.map(&mut |s| m.get(&s).cloned().unwrap_or_else(|| Lin::s(s)));
                cands.push(all);
                if ss.len() > 1 {
                    for s1 in ss.iter().filter(|s| m.contains_key(s)) {
                        cands.push(c.map(&mut |s| if s == *s1 { m[&s].clone() } else { Lin::s(s) }));
                    }
                }
            }
        }
    }
    // order between new symbols and other live ones
    if round < 6 {
        for (t, _, _) in &news {
            let (_, h) = range(*t);
            for s in &live {
                if s == t || extra_live.contains(s) && !live0.contains(s) {
                    continue;
                }
                let (l2, h2) = range(*s);
                if l2 < 0 || h2 <= 1 || matches!(def(*s), Def::Elem(..)) {
                    continue;
                }
                if (h2 > 1 << 40) != (h > 1 << 40) {
                    if h2 > h && round == 0 {
                        cands.push(Cond::Le(Lin::s(*t).sub(&Lin::s(*s))));
                    }
                    continue;
                }
                cands.push(Cond::Le(Lin::s(*t).sub(&Lin::s(*s))));
                cands.push(Cond::Le(Lin::s(*s).sub(&Lin::s(*t))));
            }
        }
    }
    // slices end at, or within, the sequence they point to
    for v in objs.values() {
        slice_conds(v, &objs, &mut cands);
    }
    // compound numbers against the lengths of sequences
    let (mut ints, mut lens) = (vec![], vec![]);
    for v in objs.values() {
        int_slots(v, &mut ints, &mut lens);
    }
    if ints.len() * lens.len() <= 400 {
        for l in &ints {
            for n in &lens {
                let d = l.sub(n);
                if d.t.len() <= 6 {
                    cands.push(Cond::Le(d));
                }
            }
        }
    }
    let mut facts = Facts::default();
    assume_invariants(&objs, &mut facts);
    let mut seen: HashSet<Cond> = HashSet::new();
    // constant bounds of new symbols
    for (t, la, lb) in &news {
        let (mut lo, mut hi);
        let (a0, a1) = fa.tight_bounds(la);
        let (b0, b1) = fb.tight_bounds(lb);
        lo = a0.min(b0);
        hi = a1.max(b1);
        if widen {
            lo = *TH_LO.iter().rev().find(|x| **x <= lo).unwrap_or(&i128::MIN);
            hi = *TH_HI.iter().find(|x| **x >= hi).unwrap_or(&i128::MAX);
            if round >= 6 {
                lo = if lo >= 0 { 0 } else { i128::MIN };
                let small = if round < 9 { 256i128 } else { 65535 };
                hi = *[small, 65535, u64::MAX as i128].iter().find(|x| **x >= hi).unwrap_or(&i128::MAX);
            }
        }
        let (r0, r1) = range(*t);
        if lo > r0 {
            facts.assume_le(&Lin { c: lo, t: vec![(*t, -1)] });
        }
        if hi < r1 {
            facts.assume_le(&Lin { c: -hi, t: vec![(*t, 1)] });
        }
    }
    // and of the others that both sides know
    for s in &live {
        if news.iter().any(|n| n.0 == *s) {
            continue;
        }
        let (r0, r1) = range(*s);
        let l = Lin::s(*s);
        let ((a0, a1), (b0, b1)) = (fa.bounds_n(&l), fb.bounds_n(&l));
        let (lo, hi) = (a0.min(b0), a1.max(b1));
        let (lo, hi) = if widen {
            // only bounds that the first side has, or a threshold
            (
                if a0 <= b0 { a0 } else { *TH_LO.iter().rev().find(|x| **x <= lo).unwrap_or(&i128::MIN) },
                if a1 >= b1 { a1 } else { *TH_HI.iter().find(|x| **x >= hi).unwrap_or(&i128::MAX) },
            )
        } else {
            (lo, hi)
        };
        if lo > r0 {
            facts.assume_le(&Lin { c: lo, t: vec![(*s, -1)] });
        }
        if hi < r1 {
            facts.assume_le(&Lin { c: -hi, t: vec![(*s, 1)] });
        }
    }
    // equalities first
    cands.sort_by_key(|c| !matches!(c, Cond::Eq(_)));
    for c in cands {
        let c = c.simp();
        if matches!(c, Cond::True | Cond::False) || !seen.insert(c.clone()) {
            continue;
        }
        if round >= 10 && !matches!(&c, Cond::Eq(_)) && !matches!(&c, Cond::Le(l) if l.t.len() == 2 && l.c.abs() <= 4 && l.t.iter().all(|x| x.1.abs() == 1) && round < 30) {
            let mut ss = BTreeSet::new();
            c.syms(&mut ss);
            if ss.iter().any(|s| news.iter().any(|n| n.0 == *s)) {
                continue;
            }
        }
        if facts.entails(&c) {
            continue;
        }
        if fa.entails(&c) && fb.entails(&c) {
            facts.assume(&c);
        }
    }
    if facts.bottom {
        // cannot happen for consistent inputs; fall back to no facts
        facts = Facts::default();
    }
    let trace = a.trace.clone();
    Joined { st: State { objs, facts, trace }, gen: new.iter().map(|x| x.0).collect(), gen_bases: new_bases }
}

/// Is `b` an instance of `p`, where the symbols `gen` and bases `gen_bases` of `p` are variables?
pub struct Matcher<'a, 't> {
    p: &'a State<'t>,
    b: &'a State<'t>,
    gen: &'a BTreeSet<Sym>,
    gen_bases: &'a BTreeSet<u32>,
    pub bind: HashMap<Sym, Lin>,
    pub bbind: HashMap<u32, Rope>,
    objmap: HashMap<ObjId, ObjId>,
    pending: Vec<(Lin, Lin)>,
    pub why: String,
    work: Vec<(ObjId, ObjId)>,
}

impl<'a, 't> Matcher<'a, 't> {
    pub fn new(p: &'a State<'t>, b: &'a State<'t>, gen: &'a BTreeSet<Sym>, gen_bases: &'a BTreeSet<u32>) -> Self {
        Matcher { p, b, gen, gen_bases, bind: HashMap::new(), bbind: HashMap::new(), objmap: HashMap::new(), pending: vec![], why: String::new(), work: vec![] }
    }
    fn lin(&mut self, x: &Lin, y: &Lin) -> bool {
        let free: Vec<(Sym, i128)> = x.t.iter().copied().filter(|t| self.gen.contains(&t.0) && !self.bind.contains_key(&t.0)).collect();
        if free.len() == 1 && free[0].1.abs() == 1 {
            let (s, k) = free[0];
            let mut rest = x.clone();
            rest.t.retain(|t| t.0 != s);
            if let Some(rest) = self.map_lin(&rest) {
                self.bind.insert(s, y.sub(&rest).scale(k));
                return true;
            }
        }
        self.pending.push((x.clone(), y.clone()));
        true
    }
    /// Image of a symbol of `p`. None if it depends on something unbound.
    fn map_sym(&mut self, s: Sym) -> Option<Lin> {
        if let Some(l) = self.bind.get(&s) {
            return Some(l.clone());
        }
        if self.gen.contains(&s) {
            return None;
        }
        let l = match def(s) {
            Def::Free => Lin::s(s),
            Def::Elem(b, l) => {
                let l2 = self.map_lin(&l)?;
                if self.gen_bases.contains(&b) {
                    match self.bbind.get(&b).cloned() {
                        Some(r) => r.read(&self.b.facts, &l2)?,
                        None => return None,
                    }
                } else if l2 == l {
                    Lin::s(s)
                } else {
                    elem(b, &self.b.facts.norm(&l2))
                }
            }
            Def::Op(op, bits, v) => {
                let mut w = vec![];
                for l in &v {
                    w.push(self.map_lin(l)?);
                }
                if w == v {
                    Lin::s(s)
                } else {
                    crate::ops::mk_op(op, bits, &w)
                }
            }
            Def::Cond(c) => {
                let mut ok = true;
                let c2 = c.map(&mut |s| match self.map_sym(s) {
                    Some(l) => l,
                    None => {
                        ok = false;
                        Lin::k(0)
                    }
                });
                if !ok {
                    return None;
                }
                match c2 {
                    Cond::True => Lin::k(1),
                    Cond::False => Lin::k(0),
                    c2 if c2 == *c => Lin::s(s),
                    c2 => Lin::s(cond_sym(&c2)),
                }
            }
        };
        self.bind.insert(s, l.clone());
        Some(l)
    }
    pub fn map_lin(&mut self, l: &Lin) -> Option<Lin> {
        let mut r = Lin::k(l.c);
        for &(s, k) in &l.t {
            let m = self.map_sym(s)?;
            r = r.add_scaled(&m, k);
        }
        Some(r)
    }
    fn map_cond(&mut self, c: &Cond) -> Option<Cond> {
        let mut ok = true;
        let c2 = c.map(&mut |s| match self.map_sym(s) {
            Some(l) => l,
            None => {
                ok = false;
                Lin::k(0)
            }
        });
        ok.then_some(c2)
    }
    fn fail(&mut self, w: impl Fn() -> String) -> bool {
        if self.why.is_empty() {
            self.why = w();
        }
        false
    }
    fn place(&mut self, p: &Place, q: &Place) -> bool {
        if p.obj != q.obj {
            match self.objmap.get(&p.obj) {
                Some(o) if *o == q.obj => {}
                Some(_) => return self.fail(|| format!("obj {:?} {:?}", p, q)),
                None => {
                    if self.b.objs.contains_key(&p.obj) && self.p.objs.contains_key(&q.obj) {
                        return self.fail(|| format!("obj {:?} {:?}", p, q));
                    }
                    self.objmap.insert(p.obj, q.obj);
                    self.work.push((p.obj, q.obj));
                }
            }
        }
        if p.pr.len() != q.pr.len() {
            return self.fail(|| format!("place {:?} {:?}", p, q));
        }
        for (x, y) in p.pr.clone().iter().zip(q.pr.iter()) {
            let ok = match (x, y) {
                (Pr::I(a), Pr::I(b)) => self.lin(a, b),
                (x, y) => x == y,
            };
            if !ok {
                return self.fail(|| format!("place {:?} {:?}", p, q));
            }
        }
        true
    }
    fn rope(&mut self, x: &Rope, y: &Rope) -> bool {
        // a single generalised base matches anything of that length
        if x.0.len() == 1 {
            if let Src::Base(b, s) = &x.0[0].src {
                if self.gen_bases.contains(b) && s.as_const() == Some(0) {
                    if let Some(r) = self.bbind.get(b) {
                        if r != y {
                            return self.fail(|| "base bound twice".into());
                        }
                    }
                    self.bbind.insert(*b, y.clone());
                    return self.lin(&x.0[0].len, &y.len());
                }
            }
        }
        let mut y = y.norm(&self.b.facts);
        if x.0.iter().all(|s| matches!(s.src, Src::Base(..))) && y.0.iter().any(|s| matches!(s.src, Src::Bytes(_))) {
            let r = y.rebase(&self.b.facts);
            if r.0.iter().all(|s| matches!(s.src, Src::Base(..))) {
                y = r;
            }
        }
        let mut yi = 0;
        for s in &x.0 {
            let t = y.0.get(yi);
            // a possibly empty segment of the pattern
            let same_kind = t.map_or(false, |t| match (&s.src, &t.src) {
                (Src::Base(a, _), Src::Base(b, _)) => a == b,
                (Src::Fill(_), Src::Fill(_)) => true,
                (Src::Bytes(a), Src::Bytes(b)) => a.len() == b.len(),
                _ => false,
            });
            if same_kind {
                let t = t.unwrap().clone();
                yi += 1;
                let ok = match (&s.src, &t.src) {
                    (Src::Base(_, p), Src::Base(_, q)) => self.lin(p, q),
                    (Src::Fill(p), Src::Fill(q)) => self.lin(p, q),
                    (Src::Bytes(p), Src::Bytes(q)) => p.iter().zip(q).all(|(p, q)| self.lin(p, q)),
                    _ => false,
                };
                if !ok || !self.lin(&s.len, &t.len) {
                    return false;
                }
            } else {
                if matches!(s.src, Src::Bytes(_)) {
                    // compare bytewise: pattern bytes against whatever is there
                    let off: Lin = y.0[..yi].iter().fold(Lin::k(0), |a, s| a.add(&s.len));
                    if let (Src::Bytes(p), true) = (&s.src, x.0.len() == 1) {
                        for (i, p) in p.iter().enumerate() {
                            match y.read(&self.b.facts, &off.addk(i as i128)) {
                                Some(q) => {
                                    self.lin(p, &q);
                                }
                                None => return self.fail(|| format!("rope {:?} {:?}", x, y)),
                            }
                        }
                        self.lin(&s.len, &y.len());
                        return true;
                    }
                    return self.fail(|| format!("rope {:?} {:?}", x, y));
                }
                self.lin(&s.len, &Lin::k(0));
            }
        }
        if yi != y.0.len() {
            return self.fail(|| format!("rope {:?} {:?}", x, y));
        }
        true
    }
    fn val(&mut self, x: &Val<'t>, y: &Val<'t>) -> bool {
        match (x, y) {
            (Val::Uninit, _) => true,
            (Val::Top(_), _) => true,
            (Val::Int(a), Val::Int(b)) => self.lin(a, b),
            (Val::Bool(a), Val::Bool(b)) => {
                if a == b && matches!(a, Cond::True | Cond::False) {
                    return true;
                }
                if let Some(c) = self.map_cond(a) {
                    if c == *b || (self.b.facts.entails(&c) && self.b.facts.entails(b)) || (self.b.facts.refutes(&c) && self.b.facts.refutes(b)) {
                        return true;
                    }
                }
                let lb = if self.b.facts.entails(b) {
                    Lin::k(1)
                } else if self.b.facts.refutes(b) {
                    Lin::k(0)
                } else {
                    Lin::s(cond_sym(b))
                };
                let la = match a {
                    Cond::True => Lin::k(1),
                    Cond::False => Lin::k(0),
                    a => Lin::s(cond_sym(a)),
                };
                self.lin(&la, &lb)
            }
            (Val::Agg(a), Val::Agg(b)) => a.len() == b.len() && a.iter().zip(b.iter()).all(|(a, b)| self.val(a, b)),
            (Val::Enum(d, m), Val::Enum(e, n)) => {
                if !self.lin(d, e) {
                    return false;
                }
                for (k, w) in n.iter() {
                    if self.b.facts.refutes(&Cond::Eq(e.addk(-(*k as i128)))) {
                        continue;
                    }
                    let Some(v) = m.get(k) else { return self.fail(|| format!("variant {k}")) };
                    if v.len() != w.len() || !v.clone().iter().zip(w.iter()).all(|(a, b)| self.val(a, b)) {
                        return self.fail(|| format!("variant payload {k} {:?} {:?}", v, w));
                    }
                }
                true
            }
            (Val::Ref(p), Val::Ref(q)) => self.place(p, q),
            (Val::Slice(p, o, l), Val::Slice(q, o2, l2)) => {
                if p.obj != q.obj && self.b.facts.entails_le(l2) {
                    return self.lin(o, &Lin::k(0)) && self.lin(l, &Lin::k(0));
                }
                self.place(p, q) && self.lin(o, o2) && self.lin(l, l2)
            }
            (Val::Rope(a), Val::Rope(b)) => self.rope(a, b),
            (Val::Seq(a), Val::Seq(b)) => {
                self.lin(&a.len, &b.len)
                    && match (&a.elems, &b.elems) {
                        (None, _) => true,
                        (Some(x), Some(y)) => x.len() == y.len() && x.iter().zip(y).all(|(a, b)| self.val(a, b)),
                        _ => false,
                    }
            }
            (Val::Vecv(c, v), Val::Vecv(d, w)) => self.val(v, w) && self.lin(c, d),
            (Val::Dyn(a, t), Val::Dyn(b, u)) => t == u && self.val(a, b),
            (a, b) => a == b || self.fail(|| format!("val {:?} {:?}", a, b)),
        }
    }
    pub fn run(&mut self, roots: &mut dyn Iterator<Item = (ObjId, ObjId)>) -> bool {
        for (x, y) in roots {
            match (self.p.objs.get(&x), self.b.objs.get(&y)) {
                (Some(v), Some(w)) => {
                    if !self.val(v, w) {
                        let w2 = format!("obj{} {:?} {:?}", x, v, w);
                        self.fail(|| w2.clone());
                        return false;
                    }
                }
                (Some(Val::Uninit), None) => {}
                (None, _) => {}
                (Some(_), None) => {
                    return self.fail(|| format!("object {x} missing"));
                }
            }
        }
        let mut seen = HashSet::new();
        while let Some((x, y)) = self.work.pop() {
            if !seen.insert((x, y)) {
                continue;
            }
            if let (Some(v), Some(w)) = (self.p.objs.get(&x), self.b.objs.get(&y)) {
                if !self.val(v, w) {
                    return self.fail(|| format!("obj{} {:?} {:?}", x, v, w));
                }
            } else {
                return self.fail(|| format!("object {x} or {y} missing"));
            }
        }
        true
    }
    pub fn check_facts(&mut self) -> bool {
        loop {
            let pend = std::mem::take(&mut self.pending);
            let n0 = pend.len();
            for (x, y) in pend {
                // try to bind remaining variables
                let free: Vec<(Sym, i128)> = x.t.iter().copied().filter(|t| self.gen.contains(&t.0) && !self.bind.contains_key(&t.0)).collect();
                if free.len() == 1 && free[0].1.abs() == 1 {
                    let (s, k) = free[0];
                    let mut rest = x.clone();
                    rest.t.retain(|t| t.0 != s);
                    if let Some(rest) = self.map_lin(&rest) {
                        self.bind.insert(s, y.sub(&rest).scale(k));
                        continue;
                    }
                }
                self.pending.push((x, y));
            }
            if self.pending.len() == n0 {
                break;
            }
        }
        let pend = std::mem::take(&mut self.pending);
        for (x, y) in pend {
            let Some(m) = self.map_lin(&x) else {
                return self.fail(|| format!("unbound {:?}", x));
            };
            if m != y && !self.b.facts.entails_eq(&m.sub(&y)) {
                return self.fail(|| format!("{:?} ({:?}) != {:?}", x, m, y));
            }
        }
        // type ranges of the variables
        let binds: Vec<(Sym, Lin)> = self.bind.iter().filter(|(s, _)| self.gen.contains(s)).map(|(s, l)| (*s, l.clone())).collect();
        for (s, l) in binds {
            let (lo, hi) = range(s);
            let n = self.b.facts.norm(&l);
            let (a, b) = self.b.facts.bounds(&n);
            if (a < lo && !self.b.facts.entails_le(&n.neg().addk(lo))) || (b > hi && !self.b.facts.entails_le(&n.addk(-hi))) {
                return self.fail(|| format!("range of s{} = {:?}", s, l));
            }
        }
        let mut conds = self.p.facts.all();
        // variables of payloads that `b` does not have may take any value
        let mut ss = BTreeSet::new();
        self.p.facts.syms(&mut ss);
        let bs = all_syms(self.b);
        let un: BTreeSet<Sym> = ss
            .into_iter()
            .filter(|s| (matches!(def(*s), Def::Free) && !self.gen.contains(s) && !bs.contains(s) && !FIXED.with(|f| f.borrow().contains(s))) || self.map_sym(*s).is_none())
            .collect();
        if !un.is_empty() {
            let mut f = self.p.facts.clone();
            if !f.project(&|s| !un.contains(&s)) {
                return self.fail(|| format!("unbound {:?} in facts {:?}", un, conds));
            }
            conds = f.all();
        }
        for c in conds {
            let Some(m) = self.map_cond(&c) else {
                return self.fail(|| format!("unbound in fact {:?}", c));
            };
            if !self.b.facts.entails(&m) {
                return self.fail(|| format!("fact {:?} -> {:?}", c, m));
            }
        }
        true
    }
}

pub fn subsumes<'t>(p: &State<'t>, gen: &BTreeSet<Sym>, gb: &BTreeSet<u32>, b: &State<'t>) -> Result<(), String> {
    let mut m = Matcher::new(p, b, gen, gb);
    let ids: Vec<ObjId> = p.objs.keys().copied().filter(|i| b.objs.contains_key(i)).collect();
    if m.run(&mut ids.into_iter().map(|i| (i, i))) && m.check_facts() {
        Ok(())
    } else {
        Err(m.why)
    }
}

// ------------------------------------------------------------------------------------------------

fn map_place(p: &Place, f: &mut dyn FnMut(&Lin) -> Lin) -> Place {
    if p.pr.iter().any(|x| matches!(x, Pr::I(_))) {
        Place { obj: p.obj, pr: Rc::new(p.pr.iter().map(|x| if let Pr::I(l) = x { Pr::I(f(l)) } else { x.clone() }).collect()) }
    } else {
        p.clone()
    }
}

/// Rewrite every linear expression, condition and rope of a value
pub fn map_val<'t>(v: &Val<'t>, f: &mut dyn FnMut(&Lin) -> Lin, c: &mut dyn FnMut(&Cond) -> Cond, r: &mut dyn FnMut(&Rope) -> Option<Rope>) -> Val<'t> {
    match v {
        Val::Uninit | Val::Top(_) | Val::FnPtr(_) => v.clone(),
        Val::Int(l) => Val::Int(f(l)),
        Val::Bool(x) => Val::Bool(c(x)),
        Val::Agg(fs) => Val::agg(fs.iter().map(|x| map_val(x, f, c, r)).collect()),
        Val::Enum(d, m) => {
            let d = f(d);
            let m = m.iter().map(|(k, fs)| (*k, Rc::new(fs.iter().map(|x| map_val(x, f, c, r)).collect::<Vec<_>>()))).collect();
            Val::Enum(d, Rc::new(m))
        }
        Val::Ref(p) => Val::Ref(map_place(p, f)),
        Val::Slice(p, o, l) => {
            let p = map_place(p, f);
            let o = f(o);
            Val::Slice(p, o, f(l))
        }
        Val::Rope(x) => {
            if let Some(y) = r(x) {
                return Val::Rope(Rc::new(y));
            }
            Val::Rope(Rc::new(Rope(
                x.0.iter()
                    .map(|s| Seg {
                        len: f(&s.len),
                        src: match &s.src {
                            Src::Base(b, l) => Src::Base(*b, f(l)),
                            Src::Fill(l) => Src::Fill(f(l)),
                            Src::Bytes(v) => Src::Bytes(v.iter().map(|l| f(l)).collect()),
                        },
                    })
                    .collect(),
            )))
        }
        Val::Seq(s) => {
            let len = f(&s.len);
            Val::Seq(Rc::new(SeqV { len, elems: s.elems.as_ref().map(|e| e.iter().map(|x| map_val(x, f, c, r)).collect()), ety: s.ety }))
        }
        Val::Vecv(cap, x) => {
            let x = map_val(x, f, c, r);
            Val::Vecv(f(cap), Rc::new(x))
        }
        Val::Dyn(x, t) => Val::Dyn(Rc::new(map_val(x, f, c, r)), *t),
    }
}

struct Unbound<'a> {
    gen: &'a BTreeSet<Sym>,
    gb: &'a BTreeSet<u32>,
    bound: HashSet<Sym>,
    bbound: HashSet<u32>,
}
impl<'a> Unbound<'a> {
    fn sym(&self, s: Sym) -> bool {
        if self.bound.contains(&s) {
            return false;
        }
        self.gen.contains(&s) || self.deep(s)
    }
    fn deep(&self, s: Sym) -> bool {
        match def(s) {
            Def::Free => false,
            Def::Elem(b, l) => self.gb.contains(&b) && !self.bbound.contains(&b) || self.lin(&l),
            Def::Op(_, _, v) => v.iter().any(|l| self.lin(l)),
            Def::Cond(c) => {
                let mut ss = BTreeSet::new();
                c.syms(&mut ss);
                ss.iter().any(|s| self.sym(*s))
            }
        }
    }
    fn lin(&self, l: &Lin) -> bool {
        l.t.iter().any(|t| self.sym(t.0))
    }
}

enum Slot {
    L(Lin),
    C(Cond),
    R(Rope),
}

/// All expressions of a value. Payloads of variants that may be absent have a context of their own.
fn slots<'t>(v: &Val<'t>, ctx: usize, next: &mut usize, out: &mut Vec<(usize, Slot)>) {
    match v {
        Val::Uninit | Val::Top(_) | Val::FnPtr(_) => {}
        Val::Int(l) => out.push((ctx, Slot::L(l.clone()))),
        Val::Bool(c) => out.push((ctx, Slot::C(c.clone()))),
        Val::Agg(fs) => fs.iter().for_each(|x| slots(x, ctx, next, out)),
        Val::Enum(d, m) => {
            out.push((ctx, Slot::L(d.clone())));
            for (_, fs) in m.iter() {
                let c = if d.as_const().is_some() {
                    ctx
                } else {
                    *next += 1;
                    *next
                };
                fs.iter().for_each(|x| slots(x, c, next, out));
            }
        }
        Val::Ref(p) => place_slots(p, ctx, out),
        Val::Slice(p, o, l) => {
            place_slots(p, ctx, out);
            out.push((ctx, Slot::L(o.clone())));
            out.push((ctx, Slot::L(l.clone())));
        }
        Val::Rope(r) => {
            out.push((ctx, Slot::R((**r).clone())));
            for s in &r.0 {
                out.push((ctx, Slot::L(s.len.clone())));
                match &s.src {
                    Src::Base(_, l) | Src::Fill(l) => out.push((ctx, Slot::L(l.clone()))),
                    Src::Bytes(v) => v.iter().for_each(|l| out.push((ctx, Slot::L(l.clone())))),
                }
            }
        }
        Val::Seq(s) => {
            out.push((ctx, Slot::L(s.len.clone())));
            if let Some(e) = &s.elems {
                e.iter().for_each(|x| slots(x, ctx, next, out));
            }
        }
        Val::Vecv(c, x) => {
            slots(x, ctx, next, out);
            out.push((ctx, Slot::L(c.clone())));
        }
        Val::Dyn(x, _) => slots(x, ctx, next, out),
    }
}
fn place_slots(p: &Place, ctx: usize, out: &mut Vec<(usize, Slot)>) {
    for x in p.pr.iter() {
        if let Pr::I(l) = x {
            out.push((ctx, Slot::L(l.clone())));
        }
    }
}

impl<'a> Unbound<'a> {
    fn bind<'s>(&mut self, slots: impl Iterator<Item = &'s Slot> + Clone) {
        for s in slots.clone() {
            if let Slot::R(r) = s {
                if r.0.len() == 1 {
                    if let Src::Base(b, s) = &r.0[0].src {
                        if self.gb.contains(b) && s.as_const() == Some(0) {
                            self.bbound.insert(*b);
                        }
                    }
                }
            }
        }
        loop {
            let mut ch = false;
            for s in slots.clone() {
                let l = match s {
                    Slot::L(l) => l.clone(),
                    Slot::C(c) if !matches!(c, Cond::True | Cond::False) => Lin::s(cond_sym(c)),
                    _ => continue,
                };
                let mut free = l.t.iter().filter(|t| self.sym(t.0));
                if let (Some(x), None) = (free.next(), free.next()) {
                    if x.1.abs() == 1 && self.gen.contains(&x.0) {
                        self.bound.insert(x.0);
                        ch = true;
                    }
                }
            }
            if !ch {
                break;
            }
        }
    }
    fn undetermined(&self, s: &Slot) -> bool {
        match s {
            Slot::L(l) => self.lin(l),
            Slot::C(Cond::True | Cond::False) => false,
            Slot::C(c) => self.sym(cond_sym(c)),
            Slot::R(r) => r.0.iter().any(|s| matches!(&s.src, Src::Base(b, _) if self.gb.contains(b) && !self.bbound.contains(b))),
        }
    }
}

/// Make every generalised symbol of a pattern determined by a value of the state: values that mention
/// several undetermined ones become new symbols.
pub fn rebind<'t>(st: &mut State<'t>, gen: &mut BTreeSet<Sym>, gb: &mut BTreeSet<u32>) {
    for _ in 0..200 {
        let mut all: Vec<(usize, Slot)> = vec![];
        let mut next = 0;
        for v in st.objs.values() {
            slots(v, 0, &mut next, &mut all);
        }
        let chosen = {
            let mut u = Unbound { gen, gb, bound: HashSet::new(), bbound: HashSet::new() };
            u.bind(all.iter().filter(|s| s.0 == 0).map(|s| &s.1));
            let mut chosen = all.iter().position(|s| s.0 == 0 && u.undetermined(&s.1));
            if chosen.is_none() {
                let save = (u.bound.clone(), u.bbound.clone());
                let ctxs: BTreeSet<usize> = all.iter().map(|s| s.0).filter(|c| *c > 0).collect();
                for c in ctxs {
                    u.bound = save.0.clone();
                    u.bbound = save.1.clone();
                    u.bind(all.iter().filter(|s| s.0 == c).map(|s| &s.1));
                    chosen = all.iter().position(|s| s.0 == c && u.undetermined(&s.1));
                    if chosen.is_some() {
                        break;
                    }
                }
            }
            chosen
        };
        let Some(i) = chosen else { return };
        let mut objs = BTreeMap::new();
        let (mut fl, mut fc, mut fr): (Option<(Lin, Lin)>, Option<(Cond, Cond)>, Option<(Rope, Rope)>) = (None, None, None);
        match &all[i].1 {
            Slot::L(l) => {
                let (lo, hi) = st.facts.bounds(l);
                let (lo, hi) = type_range(l, l, lo, hi);
                let t = fresh(lo, hi, "g");
                gen.insert(t);
                st.facts.assume_eq(&Lin::s(t).sub(l));
                fl = Some((l.clone(), Lin::s(t)));
            }
            Slot::C(c) => {
                let t = fresh(0, 1, "g");
                gen.insert(t);
                fc = Some((c.clone(), Cond::Ne(Lin::s(t))));
            }
            Slot::R(r) => {
                let b = new_base("g");
                gb.insert(b);
                fr = Some((r.clone(), Rope::base(b, r.len())));
            }
        }
        for (o, v) in &st.objs {
            let nv = map_val(
                v,
                &mut |l| match &fl {
                    Some((x, y)) if x == l => y.clone(),
                    _ => l.clone(),
                },
                &mut |c| match &fc {
                    Some((x, y)) if x == c => y.clone(),
                    _ => c.clone(),
                },
                &mut |r| match &fr {
                    Some((x, y)) if x == r => Some(y.clone()),
                    _ => None,
                },
            );
            objs.insert(*o, nv);
        }
        st.objs = objs;
    }
}
