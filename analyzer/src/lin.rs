//! Linear expressions over symbols, and the domain of linear facts of a state.
//!
//! A symbol stands for one fixed mathematical integer along a path. Facts are conjunctions of
//! linear equalities (kept in solved form), inequalities `l <= 0` and disequalities `l != 0`,
//! plus an interval per symbol. Entailment is decided by interval reasoning and bounded
//! Fourier-Motzkin elimination with integer tightening; giving up means "not entailed".
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet, HashMap};

pub type Sym = u32;

#[derive(Clone, PartialEq, Eq, Hash, PartialOrd, Ord, Default)]
pub struct Lin {
    pub c: i128,
    pub t: Vec<(Sym, i128)>,
}

impl std::fmt::Debug for Lin {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        let mut first = true;
        for (s, k) in &self.t {
            if *k == 1 {
                write!(f, "{}s{}", if first { "" } else { "+" }, s)?;
            } else if *k == -1 {
                write!(f, "-s{}", s)?;
            } else {
                write!(f, "{}{}*s{}", if first || *k < 0 { "" } else { "+" }, k, s)?;
            }
            first = false;
        }
        if first {
            write!(f, "{}", self.c)
        } else if self.c != 0 {
            write!(f, "{}{}", if self.c > 0 { "+" } else { "" }, self.c)
        } else {
            Ok(())
        }
    }
}

pub const LIM: i128 = 1 << 100;

impl Lin {
    pub fn k(c: i128) -> Lin {
        Lin { c, t: vec![] }
    }
    pub fn s(s: Sym) -> Lin {
        Lin { c: 0, t: vec![(s, 1)] }
    }
    pub fn as_const(&self) -> Option<i128> {
        if self.t.is_empty() {
            Some(self.c)
        } else {
            None
        }
    }
    pub fn as_sym(&self) -> Option<Sym> {
        if self.c == 0 && self.t.len() == 1 && self.t[0].1 == 1 {
            Some(self.t[0].0)
        } else {
            None
        }
    }
    pub fn coef(&self, s: Sym) -> i128 {
        match self.t.binary_search_by_key(&s, |x| x.0) {
            Ok(i) => self.t[i].1,
            Err(_) => 0,
        }
    }
    pub fn add_scaled(&self, o: &Lin, k: i128) -> Lin {
        if k == 0 {
            return self.clone();
        }
        let mut t = Vec::with_capacity(self.t.len() + o.t.len());
        let (mut i, mut j) = (0, 0);
        while i < self.t.len() || j < o.t.len() {
            if j >= o.t.len() || (i < self.t.len() && self.t[i].0 < o.t[j].0) {
                t.push(self.t[i]);
                i += 1;
            } else if i >= self.t.len() || o.t[j].0 < self.t[i].0 {
                t.push((o.t[j].0, o.t[j].1 * k));
                j += 1;
            } else {
                let v = self.t[i].1 + o.t[j].1 * k;
                if v != 0 {
                    t.push((self.t[i].0, v));
                }
                i += 1;
                j += 1;
            }
        }
        Lin { c: self.c + o.c * k, t }
    }
    pub fn add(&self, o: &Lin) -> Lin {
        self.add_scaled(o, 1)
    }
    pub fn sub(&self, o: &Lin) -> Lin {
        self.add_scaled(o, -1)
    }
    pub fn addk(&self, k: i128) -> Lin {
        Lin { c: self.c + k, t: self.t.clone() }
    }
    pub fn scale(&self, k: i128) -> Lin {
        if k == 0 {
            return Lin::k(0);
        }
        Lin { c: self.c * k, t: self.t.iter().map(|x| (x.0, x.1 * k)).collect() }
    }
    pub fn neg(&self) -> Lin {
        self.scale(-1)
    }
    pub fn subst1(&self, s: Sym, by: &Lin) -> Lin {
        let k = self.coef(s);
        if k == 0 {
            return self.clone();
        }
        let mut r = self.clone();
        r.t.retain(|x| x.0 != s);
        r.add_scaled(by, k)
    }
    pub fn map(&self, f: &mut dyn FnMut(Sym) -> Lin) -> Lin {
        let mut r = Lin::k(self.c);
        for &(s, k) in &self.t {
            let l = f(s);
            r = r.add_scaled(&l, k);
        }
        r
    }
    pub fn big(&self) -> bool {
        self.c.abs() > LIM || self.t.iter().any(|x| x.1.abs() > LIM)
    }
    /// Divide an inequality `self <= 0` by the gcd of its coefficients, rounding for integers.
    pub fn tighten_le(mut self) -> Lin {
        let mut g: i128 = 0;
        for x in &self.t {
            g = gcd(g, x.1.abs());
        }
        if g > 1 {
            for x in &mut self.t {
                x.1 /= g;
            }
            // sum + c <= 0  =>  sum/g <= floor(-c/g)  => c' = -floor(-c/g) = ceil(c/g)
            self.c = -((-self.c).div_euclid(g));
        }
        self
    }
}

fn gcd(a: i128, b: i128) -> i128 {
    if b == 0 {
        a
    } else {
        gcd(b, a % b)
    }
}

/// What a symbol is defined as, if it is a pure function of other symbols.
#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum Def {
    Free,
    /// Element of an immutable unknown byte sequence
    Elem(u32, Lin),
    /// Non-linear operation; `bits` is the width of the operation
    Op(Op, u32, Vec<Lin>),
    /// 1 if the condition holds, else 0
    Cond(Box<Cond>),
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Op {
    And,
    Or,
    Xor,
    Shl,
    Shr,
    Mul,
    Div,
    Rem,
    /// truncation to `bits`
    Trunc,
    /// reinterpretation as signed
    Sext,
    Tz,
    Pop,
    Lz,
    Npot,
    Not,
}

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum Cond {
    True,
    False,
    /// lin <= 0
    Le(Lin),
    Eq(Lin),
    Ne(Lin),
    And(Vec<Cond>),
    Or(Vec<Cond>),
}

impl Cond {
    pub fn not(&self) -> Cond {
        match self {
            Cond::True => Cond::False,
            Cond::False => Cond::True,
            Cond::Le(l) => Cond::Le(l.neg().addk(1)),
            Cond::Eq(l) => Cond::Ne(l.clone()),
            Cond::Ne(l) => Cond::Eq(l.clone()),
            Cond::And(v) => Cond::Or(v.iter().map(|c| c.not()).collect()),
            Cond::Or(v) => Cond::And(v.iter().map(|c| c.not()).collect()),
        }
    }
    pub fn simp(self) -> Cond {
        match self {
            Cond::Le(ref l) => match l.as_const() {
                Some(c) => b(c <= 0),
                None => self,
            },
            Cond::Eq(ref l) => match l.as_const() {
                Some(c) => b(c == 0),
                None => self,
            },
            Cond::Ne(ref l) => match l.as_const() {
                Some(c) => b(c != 0),
                None => self,
            },
            Cond::And(v) => {
                let mut r = vec![];
                for c in v {
                    match c.simp() {
                        Cond::True => {}
                        Cond::False => return Cond::False,
                        c => r.push(c),
                    }
                }
                match r.len() {
                    0 => Cond::True,
                    1 => r.pop().unwrap(),
                    _ => Cond::And(r),
                }
            }
            Cond::Or(v) => {
                let mut r = vec![];
                for c in v {
                    match c.simp() {
                        Cond::False => {}
                        Cond::True => return Cond::True,
                        c => r.push(c),
                    }
                }
                match r.len() {
                    0 => Cond::False,
                    1 => r.pop().unwrap(),
                    _ => Cond::Or(r),
                }
            }
            c => c,
        }
    }
    pub fn map(&self, f: &mut dyn FnMut(Sym) -> Lin) -> Cond {
        match self {
            Cond::True | Cond::False => self.clone(),
            Cond::Le(l) => Cond::Le(l.map(f)),
            Cond::Eq(l) => Cond::Eq(l.map(f)),
            Cond::Ne(l) => Cond::Ne(l.map(f)),
            Cond::And(v) => Cond::And(v.iter().map(|c| c.map(f)).collect()),
            Cond::Or(v) => Cond::Or(v.iter().map(|c| c.map(f)).collect()),
        }
        .simp()
    }
    pub fn syms(&self, out: &mut BTreeSet<Sym>) {
        match self {
            Cond::True | Cond::False => {}
            Cond::Le(l) | Cond::Eq(l) | Cond::Ne(l) => out.extend(l.t.iter().map(|x| x.0)),
            Cond::And(v) | Cond::Or(v) => v.iter().for_each(|c| c.syms(out)),
        }
    }
}
pub fn b(x: bool) -> Cond {
    if x {
        Cond::True
    } else {
        Cond::False
    }
}

pub struct SymInfo {
    pub lo: i128,
    pub hi: i128,
    pub def: Def,
    pub name: String,
    /// Inequalities (<= 0) that always hold for this symbol
    pub axioms: Vec<Lin>,
}

#[derive(Default)]
pub struct SymTab {
    pub v: Vec<SymInfo>,
    pub intern: HashMap<Def, Sym>,
    pub bases: Vec<String>,
}

thread_local! {
    pub static TAB: RefCell<SymTab> = RefCell::new(SymTab::default());
}

pub fn n_syms() -> Sym {
    TAB.with(|t| t.borrow().v.len() as Sym)
}
pub fn fresh(lo: i128, hi: i128, name: &str) -> Sym {
    TAB.with(|t| {
        let mut t = t.borrow_mut();
        t.v.push(SymInfo { lo, hi, def: Def::Free, name: name.into(), axioms: vec![] });
        (t.v.len() - 1) as Sym
    })
}
pub fn sym_name(s: Sym) -> String {
    TAB.with(|t| t.borrow().v[s as usize].name.clone())
}
pub fn new_base(name: &str) -> u32 {
    TAB.with(|t| {
        let mut t = t.borrow_mut();
        t.bases.push(name.into());
        (t.bases.len() - 1) as u32
    })
}
pub fn base_name(b: u32) -> String {
    TAB.with(|t| t.borrow().bases[b as usize].clone())
}
pub fn range(s: Sym) -> (i128, i128) {
    TAB.with(|t| {
        let t = t.borrow();
        (t.v[s as usize].lo, t.v[s as usize].hi)
    })
}
pub fn def(s: Sym) -> Def {
    TAB.with(|t| t.borrow().v[s as usize].def.clone())
}
pub fn axioms(s: Sym) -> Vec<Lin> {
    TAB.with(|t| t.borrow().v[s as usize].axioms.clone())
}
pub fn intern(d: Def, lo: i128, hi: i128) -> (Sym, bool) {
    TAB.with(|t| {
        let mut t = t.borrow_mut();
        if let Some(&s) = t.intern.get(&d) {
            return (s, false);
        }
        let s = t.v.len() as Sym;
        t.v.push(SymInfo { lo, hi, def: d.clone(), name: String::new(), axioms: vec![] });
        t.intern.insert(d, s);
        (s, true)
    })
}
pub fn add_axioms(s: Sym, ax: Vec<Lin>) {
    TAB.with(|t| t.borrow_mut().v[s as usize].axioms.extend(ax))
}
pub fn elem(base: u32, idx: &Lin) -> Lin {
    Lin::s(intern(Def::Elem(base, idx.clone()), 0, 255).0)
}

fn mask(bits: u32) -> i128 {
    if bits >= 127 {
        i128::MAX
    } else {
        (1i128 << bits) - 1
    }
}

/// Concrete evaluation of an operation on non-negative operands (unless noted).
pub fn eval_op(op: Op, bits: u32, a: &[i128]) -> Option<i128> {
    let m = mask(bits);
    Some(match op {
        Op::And => a[0] & a[1],
        Op::Or => a[0] | a[1],
        Op::Xor => a[0] ^ a[1],
        Op::Shl => {
            if a[1] < 0 || a[1] >= bits as i128 {
                return None;
            }
            (a[0].checked_shl(a[1] as u32)?) & m
        }
        Op::Shr => {
            if a[1] < 0 || a[1] >= bits as i128 {
                return None;
            }
            a[0] >> a[1]
        }
        Op::Mul => a[0].checked_mul(a[1])?,
        Op::Div => a[0].checked_div(a[1])?,
        Op::Rem => a[0].checked_rem(a[1])?,
        Op::Trunc => a[0] & m,
        Op::Sext => {
            let v = a[0] & m;
            if v >> (bits - 1) & 1 == 1 {
                v - (m + 1)
            } else {
                v
            }
        }
        Op::Tz => {
            if a[0] == 0 {
                bits as i128
            } else {
                a[0].trailing_zeros() as i128
            }
        }
        Op::Lz => (bits as i128) - (128 - (a[0] & m).leading_zeros() as i128),
        Op::Pop => (a[0] & m).count_ones() as i128,
        Op::Npot => {
            if a[0] <= 1 {
                1
            } else {
                (a[0] as u128).checked_next_power_of_two()? as i128
            }
        }
        Op::Not => !a[0] & m,
    })
}

/// Conjunction of facts of a state.
#[derive(Clone, Default, Debug)]
pub struct Facts {
    pub eqs: BTreeMap<Sym, Lin>,
    pub le: Vec<Lin>,
    pub ne: Vec<Lin>,
    pub rng: BTreeMap<Sym, (i128, i128)>,
    pub bottom: bool,
}

thread_local! { pub static FM_CALLS: RefCell<(u64,u64,u64)> = RefCell::new((0,0,0)); }

impl Facts {
    pub fn norm(&self, l: &Lin) -> Lin {
        if l.t.iter().all(|x| !self.eqs.contains_key(&x.0)) {
            return l.clone();
        }
        let mut r = Lin::k(l.c);
        for &(s, k) in &l.t {
            match self.eqs.get(&s) {
                Some(d) => r = r.add_scaled(d, k),
                None => r = r.add_scaled(&Lin::s(s), k),
            }
        }
        r
    }
    pub fn srange(&self, s: Sym) -> (i128, i128) {
        let (lo, hi) = range(s);
        match self.rng.get(&s) {
            Some(&(a, b)) => (lo.max(a), hi.min(b)),
            None => (lo, hi),
        }
    }
    /// Interval bounds of a (normalised) linear expression
    pub fn bounds(&self, l: &Lin) -> (i128, i128) {
        let (mut lo, mut hi) = (l.c, l.c);
        for &(s, k) in &l.t {
            let (a, b) = self.srange(s);
            if k > 0 {
                lo = lo.saturating_add(a.saturating_mul(k));
                hi = hi.saturating_add(b.saturating_mul(k));
            } else {
                lo = lo.saturating_add(b.saturating_mul(k));
                hi = hi.saturating_add(a.saturating_mul(k));
            }
        }
        (lo, hi)
    }
    pub fn bounds_n(&self, l: &Lin) -> (i128, i128) {
        self.bounds(&self.norm(l))
    }
    /// Tightest provable constant bounds, by interval and probing with FM
    pub fn tight_bounds(&self, l: &Lin) -> (i128, i128) {
        let n = self.norm(l);
        let (mut lo, mut hi) = self.bounds(&n);
        if n.t.is_empty() {
            return (lo, hi);
        }
        // probe: constraints that directly bound
        if let Some(v) = self.fm_max(&n) {
            hi = hi.min(v);
        }
        if let Some(v) = self.fm_max(&n.neg()) {
            lo = lo.max(-v);
        }
        (lo, hi)
    }

    pub fn assume(&mut self, c: &Cond) {
        if self.bottom {
            return;
        }
        match c {
            Cond::True => {}
            Cond::False => self.bottom = true,
            Cond::Le(l) => self.assume_le(l),
            Cond::Eq(l) => self.assume_eq(l),
            Cond::Ne(l) => self.assume_ne(l),
            Cond::And(v) => v.iter().for_each(|c| self.assume(c)),
            Cond::Or(v) => {
                // keep only if all but one alternative are refuted
                let mut rest = vec![];
                for c in v {
                    if !self.refutes(c) {
                        rest.push(c.clone());
                    }
                }
                match rest.len() {
                    0 => self.bottom = true,
                    1 => {
                        let c = rest[0].clone();
                        self.assume(&c)
                    }
                    _ => {}
                }
            }
        }
    }
    pub fn refutes(&self, c: &Cond) -> bool {
        match c {
            Cond::True => false,
            Cond::False => true,
            Cond::Le(l) => self.entails_le(&l.neg().addk(1)),
            Cond::Eq(l) => self.entails_ne(l),
            Cond::Ne(l) => self.entails_eq(l),
            Cond::And(v) => v.iter().any(|c| self.refutes(c)),
            Cond::Or(v) => v.iter().all(|c| self.refutes(c)),
        }
    }
    pub fn entails(&self, c: &Cond) -> bool {
        self.refutes(&c.not())
    }

    pub fn assume_le(&mut self, l: &Lin) {
        if self.bottom {
            return;
        }
        let n = self.norm(l).tighten_le();
        let (lo, hi) = self.bounds(&n);
        if hi <= 0 {
            return;
        }
        if lo > 0 {
            self.bottom = true;
            return;
        }
        if n.t.len() == 1 {
            let (s, k) = n.t[0];
            let (a, b) = self.srange(s);
            let (mut a, mut b) = (a, b);
            // k*s + c <= 0
            if k > 0 {
                b = b.min((-n.c).div_euclid(k));
            } else {
                // s >= c/(-k) => ceil
                a = a.max(-((-n.c).div_euclid(-k)));
            }
            self.set_range(s, a, b);
        } else {
            if self.le.contains(&n) {
                return;
            }
            if self.infeasible_with(&n) {
                self.bottom = true;
                return;
            }
            // equality from two opposite inequalities
            let neg = n.neg();
            if self.le.contains(&neg) {
                self.assume_eq(&n);
                return;
            }
            self.le.push(n);
            self.recheck_ne();
        }
    }
    fn set_range(&mut self, s: Sym, a: i128, b: i128) {
        if a > b {
            self.bottom = true;
            return;
        }
        // disequalities at the borders
        let (mut a, mut b) = (a, b);
        loop {
            let mut ch = false;
            for n in &self.ne {
                if n.t.len() == 1 && n.t[0].0 == s {
                    let k = n.t[0].1;
                    if n.c % k == 0 {
                        let v = -n.c / k;
                        if v == a {
                            a += 1;
                            ch = true;
                        } else if v == b {
                            b -= 1;
                            ch = true;
                        }
                    }
                }
            }
            if !ch || a > b {
                break;
            }
        }
        if a > b {
            self.bottom = true;
            return;
        }
        self.rng.insert(s, (a, b));
        if a == b {
            self.assume_eq(&Lin { c: -a, t: vec![(s, 1)] });
            return;
        }
        if !self.le.is_empty() || !axioms(s).is_empty() {
            // feasibility with the relational part
            if self.infeasible_syms(&[s]) {
                self.bottom = true;
            }
        }
        self.recheck_ne();
    }
    fn recheck_ne(&mut self) {
        if self.ne.is_empty() || self.bottom {
            return;
        }
        let ne = self.ne.clone();
        for n in ne {
            if n.t.len() < 2 {
                continue;
            }
            if self.entails_le(&n) {
                let l = n.addk(1);
                if !self.le.contains(&l) {
                    self.ne.retain(|x| x != &n);
                    self.assume_le(&l);
                }
            } else if self.entails_le(&n.neg()) {
                let l = n.neg().addk(1);
                if !self.le.contains(&l) {
                    self.ne.retain(|x| x != &n);
                    self.assume_le(&l);
                }
            }
            if self.bottom {
                return;
            }
        }
    }
    pub fn assume_eq(&mut self, l: &Lin) {
        if self.bottom {
            return;
        }
        let n = self.norm(l);
        if n.t.is_empty() {
            if n.c != 0 {
                self.bottom = true;
            }
            return;
        }
        let (lo, hi) = self.bounds(&n);
        if lo > 0 || hi < 0 {
            self.bottom = true;
            return;
        }
        // divide by gcd
        let mut g = 0;
        for x in &n.t {
            g = gcd(g, x.1.abs());
        }
        if n.c % g != 0 {
            self.bottom = true;
            return;
        }
        let n = Lin { c: n.c / g, t: n.t.iter().map(|x| (x.0, x.1 / g)).collect() };
        // pick the newest symbol with unit coefficient
        // prefer replacing free symbols over defined ones? newest is simplest and deterministic
        let pick = n.t.iter().rev().find(|x| x.1.abs() == 1).copied();
        let Some((s, k)) = pick else {
            self.le.push(n.clone());
            self.le.push(n.neg());
            return;
        };
        // k*s + rest = 0 => s = -rest/k
        let mut rest = n.clone();
        rest.t.retain(|x| x.0 != s);
        let by = rest.scale(-k);
        let (a, bb) = self.srange(s);
        let ax = axioms(s);
        self.rng.remove(&s);
        for v in self.eqs.values_mut() {
            if v.coef(s) != 0 {
                *v = v.subst1(s, &by);
            }
        }
        self.eqs.insert(s, by.clone());
        let le = std::mem::take(&mut self.le);
        let mut redo = vec![];
        for x in le {
            if x.coef(s) != 0 {
                redo.push(x.subst1(s, &by));
            } else {
                self.le.push(x);
            }
        }
        let ne = std::mem::take(&mut self.ne);
        let mut redo_ne = vec![];
        for x in ne {
            if x.coef(s) != 0 {
                redo_ne.push(x.subst1(s, &by));
            } else {
                self.ne.push(x);
            }
        }
        for x in redo {
            self.assume_le(&x);
        }
        // the range of s carries over
        self.assume_le(&by.addk(-bb));
        self.assume_le(&by.neg().addk(a));
        for x in ax {
            self.assume_le(&x);
        }
        // axioms of defined symbols mentioning s are found through `closure`
        for x in redo_ne {
            self.assume_ne(&x);
        }
    }
    pub fn assume_ne(&mut self, l: &Lin) {
        if self.bottom {
            return;
        }
        let n = self.norm(l);
        if n.t.is_empty() {
            if n.c == 0 {
                self.bottom = true;
            }
            return;
        }
        let (lo, hi) = self.bounds(&n);
        if lo > 0 || hi < 0 {
            return;
        }
        if self.entails_eq(&n) {
            self.bottom = true;
            return;
        }
        if self.entails_le(&n) {
            self.assume_le(&n.addk(1));
            return;
        }
        if self.entails_le(&n.neg()) {
            self.assume_le(&n.neg().addk(1));
            return;
        }
        if !self.ne.contains(&n) {
            self.ne.push(n);
        }
    }
    pub fn entails_le(&self, l: &Lin) -> bool {
        if self.bottom {
            return true;
        }
        let n = self.norm(l);
        let (lo, hi) = self.bounds(&n);
        if hi <= 0 {
            return true;
        }
        if lo > 0 {
            return false;
        }
        // implied by a single fact
        if self.dominated(&n, usize::MAX) {
            return true;
        }
        // infeasible with l >= 1
        self.infeasible_with(&n.neg().addk(1))
    }
    pub fn entails_eq(&self, l: &Lin) -> bool {
        let n = self.norm(l);
        if n.t.is_empty() {
            return n.c == 0 || self.bottom;
        }
        self.entails_le(&n) && self.entails_le(&n.neg())
    }
    pub fn entails_ne(&self, l: &Lin) -> bool {
        if self.bottom {
            return true;
        }
        let n = self.norm(l);
        if n.t.is_empty() {
            return n.c != 0;
        }
        let (lo, hi) = self.bounds(&n);
        if lo > 0 || hi < 0 {
            return true;
        }
        let neg = n.neg();
        if self.ne.iter().any(|x| *x == n || *x == neg) {
            return true;
        }
        // equality infeasible?
        self.infeasible_multi(&[n.clone(), neg])
    }
    fn infeasible_with(&self, n: &Lin) -> bool {
        self.infeasible_multi(std::slice::from_ref(n))
    }
    fn infeasible_syms(&self, s: &[Sym]) -> bool {
        let seed: Vec<Lin> = s.iter().map(|&s| Lin { c: 0, t: vec![(s, 0)] }).collect();
        self.infeasible_multi(&seed)
    }
    /// Collect the constraints connected to `seed`
    fn closure(&self, seed: &[Lin], depth: usize) -> (Vec<Lin>, BTreeSet<Sym>) {
        let mut syms: BTreeSet<Sym> = BTreeSet::new();
        let mut work: Vec<Sym> = vec![];
        let mut out: Vec<Lin> = vec![];
        for l in seed {
            if l.t.iter().any(|x| x.1 != 0) {
                out.push(l.clone());
            }
            for x in &l.t {
                if syms.insert(x.0) {
                    work.push(x.0);
                }
            }
        }
        let mut used = vec![false; self.le.len()];
        let mut level = 0;
        while !work.is_empty() && level < depth {
            level += 1;
            let cur: BTreeSet<Sym> = work.drain(..).collect();
            for (i, l) in self.le.iter().enumerate() {
                if !used[i] && l.t.iter().any(|x| cur.contains(&x.0)) {
                    used[i] = true;
                    out.push(l.clone());
                    for x in &l.t {
                        if syms.insert(x.0) {
                            work.push(x.0);
                        }
                    }
                }
            }
            for &s in &cur {
                for a in axioms(s) {
                    let n = self.norm(&a);
                    if n.t.is_empty() {
                        if n.c > 0 {
                            out.push(n);
                        }
                        continue;
                    }
                    for x in &n.t {
                        if syms.insert(x.0) {
                            work.push(x.0);
                        }
                    }
                    out.push(n);
                }
            }
        }
        (out, syms)
    }
    /// Do the facts contradict what defines the symbols they are about?
    pub fn contradictory(&self) -> bool {
        if self.bottom {
            return true;
        }
        let mut ax = vec![];
        for s in self.rng.keys() {
            for a in axioms(*s) {
                let n = self.norm(&a);
                if n.t.is_empty() {
                    if n.c > 0 {
                        return true;
                    }
                } else {
                    ax.push(n);
                }
            }
        }
        !ax.is_empty() && ax.len() <= 80 && self.infeasible_multi(&ax)
    }
    fn infeasible_multi(&self, extra: &[Lin]) -> bool {
        if self.le.is_empty() && extra.len() == 1 && extra[0].t.iter().all(|x| TAB.with(|t| t.borrow().v[x.0 as usize].axioms.is_empty())) {
            let (lo, _) = self.bounds(&extra[0]);
            return lo > 0;
        }
        for d in [2usize, 6] {
            let (cons, syms) = self.closure(extra, d);
            if self.fm(cons, syms, None).is_none() {
                return true;
            }
            if d == 2 && self.le.len() < 3 {
                break;
            }
        }
        false
    }
    /// Upper bound of `l` implied by the facts.
    pub fn fm_max(&self, l: &Lin) -> Option<i128> {
        let z: Sym = Sym::MAX; // pseudo symbol: z = l
        let (mut cons, mut syms) = self.closure(std::slice::from_ref(l), 4);
        cons.retain(|x| x != l);
        // z - l <= 0 and l - z <= 0
        let zl = Lin { c: -l.c, t: { let mut t: Vec<_> = l.t.iter().map(|x| (x.0, -x.1)).collect(); t.push((z, 1)); t } };
        cons.push(zl.clone());
        cons.push(zl.neg());
        syms.remove(&z);
        match self.fm(cons, syms, Some(z)) {
            Some(Some(v)) => Some(v),
            _ => None,
        }
    }
    /// Fourier-Motzkin. None: infeasible. Some(x): not shown infeasible; x: upper bound of `keep`.
    fn fm(&self, cons: Vec<Lin>, syms: BTreeSet<Sym>, keep: Option<Sym>) -> Option<Option<i128>> {
        FM_CALLS.with(|x| x.borrow_mut().0 += 1);
        let mut cs: Vec<Lin> = vec![];
        for c in cons {
            let n = c.tighten_le();
            if n.t.is_empty() {
                if n.c > 0 {
                    return None;
                }
                continue;
            }
            if !cs.contains(&n) {
                cs.push(n);
            }
        }
        for &s in &syms {
            let (lo, hi) = self.srange(s);
            if lo > -LIM {
                cs.push(Lin { c: lo, t: vec![(s, -1)] });
            }
            if hi < LIM {
                cs.push(Lin { c: -hi, t: vec![(s, 1)] });
            }
        }
        let mut rest: Vec<Sym> = syms.into_iter().collect();
        while !rest.is_empty() {
            // cheapest symbol
            let mut best: Option<(usize, i64)> = None;
            for (i, &s) in rest.iter().enumerate() {
                let (mut p, mut n) = (0i64, 0i64);
                for c in &cs {
                    let k = c.coef(s);
                    if k > 0 {
                        p += 1
                    } else if k < 0 {
                        n += 1
                    }
                }
                let cost = p * n - p - n;
                if best.map_or(true, |b| cost < b.1) {
                    best = Some((i, cost));
                }
            }
            let (i, _) = best.unwrap();
            let s = rest.swap_remove(i);
            let mut pos = vec![];
            let mut neg = vec![];
            let mut oth: Vec<Lin> = vec![];
            for c in cs {
                let k = c.coef(s);
                if k > 0 {
                    pos.push(c)
                } else if k < 0 {
                    neg.push(c)
                } else {
                    oth.push(c)
                }
            }
            if pos.len() * neg.len() + oth.len() > 900 {
                FM_CALLS.with(|x| x.borrow_mut().1 += 1);
                return Some(None);
            }
            let mut seen: std::collections::HashMap<Vec<(Sym, i128)>, usize> = oth.iter().enumerate().map(|(i, c)| (c.t.clone(), i)).collect();
            for p in &pos {
                for n in &neg {
                    let a = p.coef(s);
                    let bb = -n.coef(s);
                    let g = gcd(a, bb);
                    let r = p.scale(bb / g).add_scaled(n, a / g);
                    if r.big() {
                        return Some(None);
                    }
                    let r = r.tighten_le();
                    if r.t.is_empty() {
                        if r.c > 0 {
                            return None;
                        }
                        continue;
                    }
                    match seen.get(&r.t) {
                        Some(&i) => {
                            if r.c > oth[i].c {
                                oth[i].c = r.c;
                            }
                        }
                        None => {
                            seen.insert(r.t.clone(), oth.len());
                            oth.push(r);
                        }
                    }
                }
            }
            cs = oth;
        }
        if let Some(z) = keep {
            let mut hi = None;
            let mut lo = i128::MIN;
            for c in &cs {
                if c.t.len() == 1 && c.t[0].0 == z {
                    let k = c.t[0].1;
                    if k > 0 {
                        let v = (-c.c).div_euclid(k);
                        hi = Some(hi.map_or(v, |h: i128| h.min(v)));
                    } else {
                        lo = lo.max(-((-c.c).div_euclid(-k)));
                    }
                }
            }
            if hi.map_or(false, |h| h < lo) {
                return None;
            }
            return Some(hi);
        }
        Some(None)
    }
    /// Is n <= 0 implied by one of the inequalities (other than number `skip`) and the ranges?
    fn dominated(&self, n: &Lin, skip: usize) -> bool {
        self.le.iter().enumerate().any(|(i, f)| i != skip && f.t.iter().any(|x| n.coef(x.0) != 0) && self.bounds(&n.sub(f)).1 <= 0)
    }
    pub fn is_infeasible(&self) -> bool {
        if self.bottom {
            return true;
        }
        if self.le.is_empty() {
            return false;
        }
        let mut syms = BTreeSet::new();
        for l in &self.le {
            syms.extend(l.t.iter().map(|x| x.0));
        }
        self.fm(self.le.clone(), syms, None).is_none()
    }
    /// Eliminate symbols outside `keep`. The result is implied by the facts; true: and it is equivalent
    /// to the existence of values for the eliminated symbols.
    pub fn project(&mut self, keep: &dyn Fn(Sym) -> bool) -> bool {
        let mut exact = true;
        // equalities: eliminate dead symbols that define live ones where possible
        let dead: Vec<Sym> = self.eqs.keys().copied().filter(|&s| !keep(s)).collect();
        for s in dead {
            // s = e. If e has a dead symbol with unit coefficient that is not a key, s itself is dead: drop
            self.eqs.remove(&s);
        }
        // live s = e(dead d ...): solve for d to re-express other facts
        loop {
            let mut found = None;
            'o: for (s, e) in &self.eqs {
                for &(d, k) in &e.t {
                    if !keep(d) && k.abs() == 1 {
                        found = Some((*s, d, k));
                        break 'o;
                    }
                }
            }
            let Some((s, d, k)) = found else { break };
            let e = self.eqs.remove(&s).unwrap();
            // s = e' + k d => d = k (s - e')
            let mut ep = e.clone();
            ep.t.retain(|x| x.0 != d);
            let by = Lin::s(s).sub(&ep).scale(k);
            for v in self.eqs.values_mut() {
                if v.coef(d) != 0 {
                    *v = v.subst1(d, &by);
                }
            }
            let (lo, hi) = self.srange(d);
            let mut le: Vec<Lin> = self.le.iter().map(|l| l.subst1(d, &by)).collect();
            le.push(by.addk(-hi));
            le.push(by.neg().addk(lo));
            self.le.clear();
            self.ne = self.ne.iter().map(|l| l.subst1(d, &by)).collect();
            for l in le {
                self.assume_le(&l);
            }
        }
        // the same for dead symbols with larger coefficients: multiples of them can be replaced
        loop {
            let mut found: Option<(Sym, Sym, i128)> = None;
            for (s, e) in &self.eqs {
                for &(d, k) in &e.t {
                    if !keep(d) && found.map_or(true, |f| k.abs() < f.2.abs()) {
                        found = Some((*s, d, k));
                    }
                }
            }
            let Some((s, d, k)) = found else { break };
            exact = false;
            let e = self.eqs.remove(&s).unwrap();
            let mut rest = e.clone();
            rest.t.retain(|x| x.0 != d);
            // k d = s - rest
            let kd = Lin::s(s).sub(&rest);
            let rep = |l: &Lin| -> Lin {
                let c = l.coef(d);
                if c != 0 && c % k == 0 {
                    let mut r = l.clone();
                    r.t.retain(|x| x.0 != d);
                    r.add_scaled(&kd, c / k)
                } else {
                    l.clone()
                }
            };
            for v in self.eqs.values_mut() {
                *v = rep(v);
            }
            let (lo, hi) = self.srange(d);
            let mut le: Vec<Lin> = self.le.iter().map(|l| rep(l)).collect();
            let a = if k > 0 { kd.clone() } else { kd.neg() };
            le.push(a.addk(-hi.saturating_mul(k.abs())));
            le.push(a.neg().addk(lo.saturating_mul(k.abs())));
            self.le.clear();
            self.ne = self.ne.iter().map(|l| rep(l)).collect();
            for l in le {
                self.assume_le(&l);
            }
        }
        let n0 = self.eqs.len();
        self.eqs.retain(|_, e| e.t.iter().all(|x| keep(x.0)));
        exact &= n0 == self.eqs.len();
        // inequalities: eliminate each dead symbol by FM if cheap, else drop
        let mut deads: BTreeSet<Sym> = BTreeSet::new();
        for l in &self.le {
            for x in &l.t {
                if !keep(x.0) {
                    deads.insert(x.0);
                }
            }
        }
        for d in deads {
            let (pos, rest): (Vec<Lin>, Vec<Lin>) = self.le.drain(..).partition(|l| l.coef(d) > 0);
            let (neg, oth): (Vec<Lin>, Vec<Lin>) = rest.into_iter().partition(|l| l.coef(d) < 0);
            self.le = oth;
            let mut pos = pos;
            let mut neg = neg;
            let (lo, hi) = self.srange(d);
            pos.push(Lin { c: -hi, t: vec![(d, 1)] });
            neg.push(Lin { c: lo, t: vec![(d, -1)] });
            if pos.len() * neg.len() <= 40 {
                for p in &pos {
                    for n in &neg {
                        let a = p.coef(d);
                        let bb = -n.coef(d);
                        let g = gcd(a, bb);
                        let r = p.scale(bb / g).add_scaled(n, a / g).tighten_le();
                        exact &= a == 1 || bb == 1;
                        if r.big() {
                            exact = false;
                            continue;
                        }
                        let (_, h) = self.bounds(&r);
                        if h > 0 && !self.le.contains(&r) {
                            if r.t.len() == 1 {
                                self.assume_le(&r);
                            } else {
                                self.le.push(r);
                            }
                        }
                    }
                }
            } else {
                exact = false;
            }
        }
        let mut i = 0;
        while i < self.le.len() {
            let l = self.le[i].clone();
            if self.dominated(&l, i) {
                self.le.remove(i);
            } else {
                i += 1;
            }
        }
        self.ne.retain(|l| l.t.iter().all(|x| keep(x.0)));
        self.rng.retain(|s, _| keep(*s));
        exact
    }
    pub fn syms(&self, out: &mut BTreeSet<Sym>) {
        for (s, e) in &self.eqs {
            out.insert(*s);
            out.extend(e.t.iter().map(|x| x.0));
        }
        for l in self.le.iter().chain(&self.ne) {
            out.extend(l.t.iter().map(|x| x.0));
        }
        out.extend(self.rng.keys());
    }
    /// All facts as conditions (for re-checking or instantiating elsewhere)
    pub fn all(&self) -> Vec<Cond> {
        let mut r = vec![];
        for (s, e) in &self.eqs {
            r.push(Cond::Eq(Lin::s(*s).sub(e)));
        }
        for (s, (a, b)) in &self.rng {
            let (lo, hi) = range(*s);
            if *a > lo {
                r.push(Cond::Le(Lin { c: *a, t: vec![(*s, -1)] }));
            }
            if *b < hi {
                r.push(Cond::Le(Lin { c: -*b, t: vec![(*s, 1)] }));
            }
        }
        for l in &self.le {
            r.push(Cond::Le(l.clone()));
        }
        for l in &self.ne {
            r.push(Cond::Ne(l.clone()));
        }
        r
    }
}

// ------------------------------------------------------------------ evaluation over leaf values

/// Evaluate a linear expression given values of leaf symbols.
pub fn eval_lin(l: &Lin, env: &dyn Fn(Sym) -> Option<i128>, memo: &mut HashMap<Sym, Option<i128>>) -> Option<i128> {
    let mut r = l.c;
    for &(s, k) in &l.t {
        r = r.checked_add(eval_sym(s, env, memo)?.checked_mul(k)?)?;
    }
    Some(r)
}
pub fn eval_sym(s: Sym, env: &dyn Fn(Sym) -> Option<i128>, memo: &mut HashMap<Sym, Option<i128>>) -> Option<i128> {
    if let Some(v) = env(s) {
        return Some(v);
    }
    if let Some(v) = memo.get(&s) {
        return *v;
    }
    let v = match def(s) {
        Def::Free | Def::Elem(..) => None,
        Def::Op(op, bits, a) => {
            let mut v = vec![];
            let mut ok = true;
            for x in &a {
                match eval_lin(x, env, memo) {
                    Some(y) => v.push(y),
                    None => {
                        ok = false;
                        break;
                    }
                }
            }
            if ok {
                eval_op(op, bits, &v)
            } else {
                None
            }
        }
        Def::Cond(c) => eval_cond(&c, env, memo).map(|b| b as i128),
    };
    memo.insert(s, v);
    v
}
pub fn eval_cond(c: &Cond, env: &dyn Fn(Sym) -> Option<i128>, memo: &mut HashMap<Sym, Option<i128>>) -> Option<bool> {
    Some(match c {
        Cond::True => true,
        Cond::False => false,
        Cond::Le(l) => eval_lin(l, env, memo)? <= 0,
        Cond::Eq(l) => eval_lin(l, env, memo)? == 0,
        Cond::Ne(l) => eval_lin(l, env, memo)? != 0,
        Cond::And(v) => {
            let mut unk = false;
            for c in v {
                match eval_cond(c, env, memo) {
                    Some(false) => return Some(false),
                    None => unk = true,
                    _ => {}
                }
            }
            if unk {
                return None;
            }
            true
        }
        Cond::Or(v) => {
            let mut unk = false;
            for c in v {
                match eval_cond(c, env, memo) {
                    Some(true) => return Some(true),
                    None => unk = true,
                    _ => {}
                }
            }
            if unk {
                return None;
            }
            false
        }
    })
}
/// Leaf symbols (not defined by others) that `s` depends on
pub fn leaves(s: Sym, out: &mut BTreeSet<Sym>) {
    match def(s) {
        Def::Free | Def::Elem(..) => {
            out.insert(s);
        }
        Def::Op(_, _, a) => {
            for l in &a {
                for x in &l.t {
                    leaves(x.0, out)
                }
            }
        }
        Def::Cond(c) => {
            let mut ss = BTreeSet::new();
            c.syms(&mut ss);
            for x in ss {
                leaves(x, out)
            }
        }
    }
}
pub fn leaves_lin(l: &Lin, out: &mut BTreeSet<Sym>) {
    for x in &l.t {
        leaves(x.0, out)
    }
}
