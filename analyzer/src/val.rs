//! Abstract values, byte ropes and abstract states.
use crate::lin::*;
use rustc_middle::ty::Ty;
use std::collections::{BTreeMap, BTreeSet};
use std::rc::Rc;

pub type ObjId = u32;

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum Pr {
    /// Field of a struct/tuple/closure
    F(u32),
    /// Field of an enum variant
    V(u32, u32),
    /// Element of a sequence
    I(Lin),
}

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub struct Place {
    pub obj: ObjId,
    pub pr: Rc<Vec<Pr>>,
}

impl Place {
    pub fn obj(o: ObjId) -> Place {
        Place { obj: o, pr: Rc::new(vec![]) }
    }
    pub fn push(&self, p: Pr) -> Place {
        let mut v = (*self.pr).clone();
        v.push(p);
        Place { obj: self.obj, pr: Rc::new(v) }
    }
}

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum Src {
    /// bytes `start..` of an unknown but fixed byte sequence
    Base(u32, Lin),
    /// explicit bytes
    Bytes(Vec<Lin>),
    Fill(Lin),
}

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub struct Seg {
    pub len: Lin,
    pub src: Src,
}

/// Byte content: the concatenation of segments
#[derive(Clone, PartialEq, Eq, Hash, Debug, Default)]
pub struct Rope(pub Vec<Seg>);

impl Rope {
    pub fn empty() -> Rope {
        Rope(vec![])
    }
    pub fn lit(b: &[u8]) -> Rope {
        Rope::bytes(b.iter().map(|x| Lin::k(*x as i128)).collect())
    }
    pub fn bytes(v: Vec<Lin>) -> Rope {
        if v.is_empty() {
            return Rope::empty();
        }
        Rope(vec![Seg { len: Lin::k(v.len() as i128), src: Src::Bytes(v) }])
    }
    pub fn base(b: u32, len: Lin) -> Rope {
        Rope(vec![Seg { len, src: Src::Base(b, Lin::k(0)) }])
    }
    pub fn fill(v: Lin, len: Lin) -> Rope {
        Rope(vec![Seg { len, src: Src::Fill(v) }])
    }
    pub fn len(&self) -> Lin {
        let mut l = Lin::k(0);
        for s in &self.0 {
            l = l.add(&s.len);
        }
        l
    }
    fn sub_src(src: &Src, off: &Lin, len: &Lin) -> Option<Src> {
        Some(match src {
            Src::Base(b, s) => Src::Base(*b, s.add(off)),
            Src::Fill(v) => Src::Fill(v.clone()),
            Src::Bytes(v) => {
                let o = off.as_const()?;
                let l = len.as_const()?;
                if o < 0 || l < 0 || (o + l) as usize > v.len() {
                    return None;
                }
                Src::Bytes(v[o as usize..(o + l) as usize].to_vec())
            }
        })
    }
    /// `off..off+len`. None if it cannot be located.
    pub fn slice(&self, f: &Facts, off: &Lin, len: &Lin) -> Option<Rope> {
        let len = f.norm(len);
        if len.as_const() == Some(0) || f.entails_le(&len) {
            return Some(Rope::empty());
        }
        let mut out = vec![];
        let mut off = f.norm(off); // offset relative to the current segment
        let mut rem = len;
        for s in &self.0 {
            let sl = f.norm(&s.len);
            // skip the segment entirely?
            if out.is_empty() && f.entails_le(&sl.sub(&off)) {
                // off >= sl
                if !(off.as_const() == Some(0) && sl.as_const() == Some(0)) || sl.as_const() == Some(0) {
                    off = f.norm(&off.sub(&sl));
                    continue;
                }
            }
            // off < sl (or at least starts here)
            if !f.entails_le(&off.sub(&sl)) {
                return None;
            }
            let avail = f.norm(&sl.sub(&off));
            if f.entails_le(&rem.sub(&avail)) {
                out.push(Seg { len: rem.clone(), src: Rope::sub_src(&s.src, &off, &rem)? });
                return Some(Rope(out));
            }
            if !f.entails_le(&avail.sub(&rem)) {
                return None;
            }
            if avail.as_const() != Some(0) {
                out.push(Seg { len: avail.clone(), src: Rope::sub_src(&s.src, &off, &avail)? });
            }
            rem = f.norm(&rem.sub(&avail));
            off = Lin::k(0);
            if rem.as_const() == Some(0) {
                return Some(Rope(out));
            }
        }
        if f.entails_le(&rem) {
            return Some(Rope(out));
        }
        None
    }
    pub fn concat(&self, o: &Rope, f: &Facts) -> Rope {
        let mut v = self.0.clone();
        v.extend(o.0.iter().cloned());
        Rope(v).norm(f)
    }
    /// Bytes that are elements of a sequence, as parts of that sequence
    pub fn rebase(&self, f: &Facts) -> Rope {
        let mut out: Vec<Seg> = vec![];
        for s in &self.0 {
            let Src::Bytes(v) = &s.src else {
                out.push(s.clone());
                continue;
            };
            for l in v {
                let e = match &l.t[..] {
                    [(s, 1)] if l.c == 0 => match def(*s) {
                        Def::Elem(b, i) => Some((b, i)),
                        _ => None,
                    },
                    _ => None,
                };
                let src = match e {
                    Some((b, i)) => Src::Base(b, i),
                    None => Src::Bytes(vec![l.clone()]),
                };
                out.push(Seg { len: Lin::k(1), src });
            }
        }
        Rope(out).norm(f)
    }
    /// Merge adjacent segments, drop empty ones
    pub fn norm(&self, f: &Facts) -> Rope {
        let mut out: Vec<Seg> = vec![];
        for s in &self.0 {
            let len = f.norm(&s.len);
            if len.as_const() == Some(0) {
                continue;
            }
            let src = match &s.src {
                Src::Base(b, l) => Src::Base(*b, f.norm(l)),
                Src::Fill(l) => Src::Fill(f.norm(l)),
                Src::Bytes(v) => Src::Bytes(v.iter().map(|l| f.norm(l)).collect()),
            };
            if let Some(p) = out.last_mut() {
                match (&mut p.src, &src) {
                    (Src::Base(b, st), Src::Base(b2, st2)) if b == b2 => {
                        let end = st.add(&p.len);
                        if end == *st2 || f.entails_eq(&end.sub(st2)) {
                            p.len = f.norm(&p.len.add(&len));
                            continue;
                        }
                    }
                    (Src::Bytes(a), Src::Bytes(b)) => {
                        a.extend(b.iter().cloned());
                        p.len = p.len.add(&len);
                        continue;
                    }
                    (Src::Fill(a), Src::Fill(b)) if a == b => {
                        p.len = f.norm(&p.len.add(&len));
                        continue;
                    }
                    _ => {}
                }
            }
            out.push(Seg { len, src });
        }
        Rope(out)
    }
    pub fn read(&self, f: &Facts, idx: &Lin) -> Option<Lin> {
        let r = self.slice(f, idx, &Lin::k(1))?;
        let s = r.0.first()?;
        Some(match &s.src {
            Src::Base(b, l) => elem(*b, &f.norm(l)),
            Src::Fill(v) => v.clone(),
            Src::Bytes(v) => v[0].clone(),
        })
    }
    pub fn write(&self, f: &Facts, off: &Lin, new: &Rope) -> Option<Rope> {
        let total = f.norm(&self.len());
        let nl = f.norm(&new.len());
        if nl.as_const() == Some(0) {
            return Some(self.clone());
        }
        let pre = self.slice(f, &Lin::k(0), off)?;
        let end = f.norm(&off.add(&nl));
        let post = self.slice(f, &end, &f.norm(&total.sub(&end)))?;
        Some(pre.concat(new, f).concat(&post, f))
    }
    pub fn syms(&self, out: &mut BTreeSet<Sym>) {
        for s in &self.0 {
            out.extend(s.len.t.iter().map(|x| x.0));
            match &s.src {
                Src::Base(_, l) | Src::Fill(l) => out.extend(l.t.iter().map(|x| x.0)),
                Src::Bytes(v) => v.iter().for_each(|l| out.extend(l.t.iter().map(|x| x.0))),
            }
        }
    }
}

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum Val<'t> {
    Uninit,
    Top(Ty<'t>),
    Int(Lin),
    Bool(Cond),
    Agg(Rc<Vec<Val<'t>>>),
    Enum(Lin, Rc<BTreeMap<u32, Rc<Vec<Val<'t>>>>>),
    Ref(Place),
    /// fat pointer to `off..off+len` of the sequence stored at the place
    Slice(Place, Lin, Lin),
    Rope(Rc<Rope>),
    Seq(Rc<SeqV<'t>>),
    /// Vec<T>, Box<[T]>, String: capacity and content
    Vecv(Lin, Rc<Val<'t>>),
    /// pointer to a value of a concrete type behind a trait object
    Dyn(Rc<Val<'t>>, Ty<'t>),
    /// function item/closure pointer reified to a fn pointer
    FnPtr(Ty<'t>),
}

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub struct SeqV<'t> {
    pub len: Lin,
    pub elems: Option<Vec<Val<'t>>>,
    pub ety: Ty<'t>,
}

impl<'t> Val<'t> {
    pub fn unit() -> Val<'t> {
        Val::Agg(Rc::new(vec![]))
    }
    pub fn agg(v: Vec<Val<'t>>) -> Val<'t> {
        Val::Agg(Rc::new(v))
    }
    pub fn k(c: i128) -> Val<'t> {
        Val::Int(Lin::k(c))
    }
    pub fn en(v: u32, f: Vec<Val<'t>>) -> Val<'t> {
        let mut m = BTreeMap::new();
        m.insert(v, Rc::new(f));
        Val::Enum(Lin::k(v as i128), Rc::new(m))
    }
    pub fn none() -> Val<'t> {
        Val::en(0, vec![])
    }
    pub fn some(v: Val<'t>) -> Val<'t> {
        Val::en(1, vec![v])
    }
    pub fn ok(v: Val<'t>) -> Val<'t> {
        Val::en(0, vec![v])
    }
    pub fn err(v: Val<'t>) -> Val<'t> {
        Val::en(1, vec![v])
    }
    pub fn seq_len(&self) -> Option<Lin> {
        match self {
            Val::Rope(r) => Some(r.len()),
            Val::Seq(s) => Some(s.len.clone()),
            Val::Vecv(_, c) => c.seq_len(),
            _ => None,
        }
    }
    pub fn syms(&self, out: &mut BTreeSet<Sym>) {
        let l = |l: &Lin, out: &mut BTreeSet<Sym>| out.extend(l.t.iter().map(|x| x.0));
        match self {
            Val::Uninit | Val::Top(_) | Val::FnPtr(_) => {}
            Val::Int(x) => l(x, out),
            Val::Bool(c) => c.syms(out),
            Val::Agg(v) => v.iter().for_each(|x| x.syms(out)),
            Val::Enum(d, m) => {
                l(d, out);
                m.values().for_each(|v| v.iter().for_each(|x| x.syms(out)));
            }
            Val::Ref(p) => place_syms(p, out),
            Val::Slice(p, a, b) => {
                place_syms(p, out);
                l(a, out);
                l(b, out);
            }
            Val::Rope(r) => r.syms(out),
            Val::Seq(s) => {
                l(&s.len, out);
                if let Some(e) = &s.elems {
                    e.iter().for_each(|x| x.syms(out))
                }
            }
            Val::Vecv(c, v) => {
                l(c, out);
                v.syms(out)
            }
            Val::Dyn(v, _) => v.syms(out),
        }
    }
    pub fn objs(&self, out: &mut Vec<ObjId>) {
        match self {
            Val::Agg(v) => v.iter().for_each(|x| x.objs(out)),
            Val::Enum(_, m) => m.values().for_each(|v| v.iter().for_each(|x| x.objs(out))),
            Val::Ref(p) | Val::Slice(p, _, _) => out.push(p.obj),
            Val::Seq(s) => {
                if let Some(e) = &s.elems {
                    e.iter().for_each(|x| x.objs(out))
                }
            }
            Val::Vecv(_, v) => v.objs(out),
            Val::Dyn(v, _) => v.objs(out),
            _ => {}
        }
    }
}

pub fn place_syms(p: &Place, out: &mut BTreeSet<Sym>) {
    for x in p.pr.iter() {
        if let Pr::I(l) = x {
            out.extend(l.t.iter().map(|x| x.0));
        }
    }
}

#[derive(Clone, Debug)]
pub struct State<'t> {
    pub objs: BTreeMap<ObjId, Val<'t>>,
    pub facts: Facts,
    /// branch decisions since the last join, for reports
    pub trace: Option<Rc<TraceN>>,
}

pub struct TraceN {
    pub what: String,
    pub prev: Option<Rc<TraceN>>,
}

impl std::fmt::Debug for TraceN {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "..")
    }
}

impl<'t> State<'t> {
    pub fn new() -> State<'t> {
        State { objs: BTreeMap::new(), facts: Facts::default(), trace: None }
    }
    pub fn note(&mut self, what: String) {
        self.trace = Some(Rc::new(TraceN { what, prev: self.trace.take() }));
    }
    pub fn trace_str(&self, n: usize) -> Vec<String> {
        let mut v = vec![];
        let mut c = self.trace.clone();
        while let Some(t) = c {
            v.push(t.what.clone());
            if v.len() >= n {
                break;
            }
            c = t.prev.clone();
        }
        v.reverse();
        v
    }
}
