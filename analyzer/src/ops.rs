//! Construction of non-linear terms: constant folding, ranges and linear axioms.
use crate::lin::*;
use std::collections::{BTreeMap, BTreeSet, HashMap};

pub fn maskb(bits: u32) -> i128 {
    if bits >= 126 {
        i128::MAX
    } else {
        (1i128 << bits) - 1
    }
}
fn cover(hi: i128) -> i128 {
    // smallest 2^k-1 >= hi
    if hi <= 0 {
        return 0;
    }
    let k = 128 - hi.leading_zeros();
    maskb(k)
}

/// Bits that may be one in the (non-negative) value
pub fn mayone_sym(s: Sym, f: Option<&Facts>) -> i128 {
    let (lo, hi) = match f {
        Some(f) => f.srange(s),
        None => range(s),
    };
    if lo < 0 {
        return -1;
    }
    let c = cover(hi);
    match def(s) {
        Def::Op(Op::And, _, a) => {
            let x = mayone(&a[0], f);
            let y = mayone(&a[1], f);
            x & y & c
        }
        Def::Op(Op::Or, _, a) | Def::Op(Op::Xor, _, a) => (mayone(&a[0], f) | mayone(&a[1], f)) & c,
        Def::Op(Op::Shr, _, a) => match a[1].as_const() {
            Some(k) if mayone(&a[0], f) >= 0 => (mayone(&a[0], f) >> k) & c,
            _ => c,
        },
        Def::Op(Op::Trunc, b, a) => {
            let m = mayone(&a[0], f);
            if m < 0 {
                c
            } else {
                m & maskb(b) & c
            }
        }
        _ => c,
    }
}
pub fn mayone(l: &Lin, f: Option<&Facts>) -> i128 {
    if l.c < 0 {
        return -1;
    }
    let mut acc = l.c;
    for &(s, k) in &l.t {
        if k < 0 {
            return -1;
        }
        if k.count_ones() != 1 {
            // not a shift: use the range
            let (lo, hi) = match f {
                Some(f) => f.bounds(l),
                None => brange(l),
            };
            return if lo < 0 { -1 } else { cover(hi) };
        }
        let m = mayone_sym(s, f);
        if m < 0 {
            return -1;
        }
        let sh = k.trailing_zeros();
        if m > (i128::MAX >> (sh + 1)) {
            return -1;
        }
        let m = m << sh;
        if m & acc != 0 {
            let (lo, hi) = match f {
                Some(f) => f.bounds(l),
                None => brange(l),
            };
            return if lo < 0 { -1 } else { cover(hi) };
        }
        acc |= m;
    }
    acc
}
fn brange(l: &Lin) -> (i128, i128) {
    Facts::default().bounds(l)
}

pub fn mk_op(op: Op, bits: u32, a: &[Lin]) -> Lin {
    mk_op_f(None, op, bits, a)
}

/// `a` under an operation, on operands that are non-negative where the operation requires it.
pub fn mk_op_f(f: Option<&Facts>, op: Op, bits: u32, args: &[Lin]) -> Lin {
    let a: Vec<Lin> = match f {
        Some(f) => args.iter().map(|l| f.norm(l)).collect(),
        None => args.to_vec(),
    };
    let consts: Vec<Option<i128>> = a.iter().map(|l| l.as_const()).collect();
    if consts.iter().all(|c| c.is_some()) {
        let v: Vec<i128> = consts.iter().map(|c| c.unwrap()).collect();
        if let Some(r) = eval_op(op, bits, &v) {
            return Lin::k(r);
        }
    }
    let bnd = |l: &Lin| -> (i128, i128) {
        match f {
            Some(f) => {
                let b = f.bounds(l);
                if b.0 < 0 {
                    (f.tight_bounds(l).0, b.1)
                } else {
                    b
                }
            }
            None => brange(l),
        }
    };
    let m = maskb(bits);
    // ranges must be valid independently of facts: only the symbol's own range is stored; the
    // facts are used for simplifications that hold on the current path.
    match op {
        Op::And => {
            let (x, y) = if consts[0].is_some() { (a[1].clone(), a[0].clone()) } else { (a[0].clone(), a[1].clone()) };
            let mx = mayone(&x, f);
            let my = mayone(&y, f);
            if mx >= 0 && my >= 0 && mx & my == 0 {
                return Lin::k(0);
            }
            if let Some(c) = y.as_const() {
                if mx >= 0 && mx & !c == 0 {
                    return x;
                }
                // mask of low bits of a sum whose other terms are multiples of 2^k
                if c >= 0 && (c + 1).count_ones() == 1 {
                    if let Some(l) = low_part(&x, c + 1, f) {
                        return l;
                    }
                }
            }
            let x0 = mayone(&x, None);
            let y0 = mayone(&y, None);
            let hi = if x0 < 0 { if y0 < 0 { m } else { y0 } } else if y0 < 0 { x0 } else { x0 & y0 };
            let (s, new) = intern(Def::Op(op, bits, vec![x.clone(), y.clone()]), 0, hi.min(m));
            if new {
                let mut ax = vec![];
                if x0 >= 0 {
                    ax.push(Lin::s(s).sub(&x));
                }
                if y0 >= 0 && y.as_const().is_none() {
                    ax.push(Lin::s(s).sub(&y));
                }
                // a single high bit: x >= bit * ...
                if let Some(c) = y.as_const() {
                    if x0 >= 0 && c > 0 {
                        // x - (x & c) <= the remaining bits
                        let rest = x0 & !c;
                        ax.push(x.sub(&Lin::s(s)).addk(-rest));
                    }
                }
                add_axioms(s, ax);
            }
            Lin::s(s)
        }
        Op::Or | Op::Xor => {
            let mx = mayone(&a[0], f);
            let my = mayone(&a[1], f);
            if mx >= 0 && my >= 0 && mx & my == 0 {
                return a[0].add(&a[1]);
            }
            let (mut x, mut y) = (a[0].clone(), a[1].clone());
            if y < x {
                std::mem::swap(&mut x, &mut y);
            }
            let x0 = mayone(&x, None);
            let y0 = mayone(&y, None);
            let hi = if x0 < 0 || y0 < 0 { m } else { (x0 | y0).min(m) };
            let (s, new) = intern(Def::Op(op, bits, vec![x.clone(), y.clone()]), 0, hi);
            if new && op == Op::Or && x0 >= 0 && y0 >= 0 {
                add_axioms(s, vec![x.sub(&Lin::s(s)), y.sub(&Lin::s(s)), Lin::s(s).sub(&x).sub(&y)]);
            }
            Lin::s(s)
        }
        Op::Not => {
            let (lo, hi) = bnd(&a[0]);
            if lo >= 0 && hi <= m {
                return a[0].neg().addk(m);
            }
            let (s, _) = intern(Def::Op(op, bits, a), 0, m);
            Lin::s(s)
        }
        Op::Shl => {
            if let Some(k) = consts[1] {
                if k >= 0 && k < bits as i128 {
                    let r = a[0].scale(1i128 << k.min(90));
                    let (lo, hi) = bnd(&r);
                    if lo >= 0 && hi <= m {
                        return r;
                    }
                    return mk_op_f(f, Op::Trunc, bits, &[r]);
                }
            }
            let (lo0, hi0) = brange(&a[0]);
            let (lo1, hi1) = bnd(&a[1]);
            let (l1, h1) = brange(&a[1]);
            let (mut lo, mut hi) = (0, m);
            if lo0 >= 0 && l1 >= 0 && h1 < 60 && hi0 < (1 << 60) && (hi0 << h1) <= m {
                lo = lo0 << l1;
                hi = hi0 << h1;
            }
            let (s, _) = intern(Def::Op(op, bits, a.clone()), lo, hi);
            let _ = (lo1, hi1);
            Lin::s(s)
        }
        Op::Shr => {
            if let Some(k) = consts[1] {
                if k == 0 {
                    return a[0].clone();
                }
                if k > 0 && k < bits as i128 {
                    let p = 1i128 << k;
                    return div_const(f, &a[0], p, Op::Shr, bits, &a);
                }
            }
            let (lo0, hi0) = brange(&a[0]);
            let (s, new) = intern(Def::Op(op, bits, a.clone()), 0, if lo0 >= 0 { hi0 } else { m });
            if new && lo0 >= 0 {
                add_axioms(s, vec![Lin::s(s).sub(&a[0])]);
            }
            Lin::s(s)
        }
        Op::Div => {
            if let Some(k) = consts[1] {
                if k == 1 {
                    return a[0].clone();
                }
                if k > 1 && bnd(&a[0]).0 >= 0 {
                    return div_const(f, &a[0], k, Op::Div, bits, &a);
                }
            }
            let (lo0, hi0) = brange(&a[0]);
            let (s, new) = intern(Def::Op(op, bits, a.clone()), if lo0 >= 0 { 0 } else { -m }, if lo0 >= 0 { hi0 } else { m });
            if new && lo0 >= 0 && brange(&a[1]).0 >= 0 {
                add_axioms(s, vec![Lin::s(s).sub(&a[0])]);
            }
            Lin::s(s)
        }
        Op::Rem => {
            if let Some(k) = consts[1] {
                if k >= 1 && bnd(&a[0]).0 >= 0 {
                    let q = mk_op_f(f, Op::Div, bits, &a);
                    return a[0].sub(&q.scale(k));
                }
            }
            let (lo1, hi1) = brange(&a[1]);
            let (s, new) = intern(Def::Op(op, bits, a.clone()), if brange(&a[0]).0 >= 0 { 0 } else { -m }, if lo1 >= 0 { (hi1 - 1).max(0) } else { m });
            if new && brange(&a[0]).0 >= 0 && lo1 >= 0 {
                add_axioms(s, vec![Lin::s(s).sub(&a[0]), Lin::s(s).sub(&a[1]).addk(if lo1 > 0 { 1 } else { 0 })]);
            }
            Lin::s(s)
        }
        Op::Mul => {
            if let Some(k) = consts[0] {
                return a[1].scale(k);
            }
            if let Some(k) = consts[1] {
                return a[0].scale(k);
            }
            let (mut x, mut y) = (a[0].clone(), a[1].clone());
            if y < x {
                std::mem::swap(&mut x, &mut y);
            }
            // pull out constant factors
            let g = content(&x);
            let h = content(&y);
            if g > 1 || h > 1 {
                let x1 = Lin { c: x.c / g, t: x.t.iter().map(|t| (t.0, t.1 / g)).collect() };
                let y1 = Lin { c: y.c / h, t: y.t.iter().map(|t| (t.0, t.1 / h)).collect() };
                return mk_op_f(f, op, bits, &[x1, y1]).scale(g * h);
            }
            let (a0, a1) = brange(&x);
            let (b0, b1) = brange(&y);
            let c = [a0.saturating_mul(b0), a0.saturating_mul(b1), a1.saturating_mul(b0), a1.saturating_mul(b1)];
            let lo = *c.iter().min().unwrap();
            let hi = *c.iter().max().unwrap();
            let (s, new) = intern(Def::Op(op, bits, vec![x.clone(), y.clone()]), lo.max(-LIM), hi.min(LIM));
            if new && a0 >= 0 && b0 >= 0 && a1 < (1 << 40) && b1 < (1 << 40) {
                // McCormick
                let z = Lin::s(s);
                add_axioms(
                    s,
                    vec![
                        // (x-a0)(y-b0) >= 0
                        x.scale(b0).add(&y.scale(a0)).sub(&z).addk(-a0 * b0),
                        // (a1-x)(b1-y) >= 0
                        x.scale(b1).add(&y.scale(a1)).sub(&z).addk(-a1 * b1),
                        // (x-a0)(b1-y) >= 0 : z <= x b1 - a0 b1 + a0 y
                        z.sub(&x.scale(b1)).sub(&y.scale(a0)).addk(a0 * b1),
                        z.sub(&y.scale(a1)).sub(&x.scale(b0)).addk(b0 * a1),
                    ],
                );
            }
            Lin::s(s)
        }
        Op::Trunc => {
            let (lo, hi) = bnd(&a[0]);
            if lo >= 0 && hi <= m {
                return a[0].clone();
            }
            // drop terms that are multiples of 2^bits
            let p = m + 1;
            let mut x = a[0].clone();
            x.t.retain(|t| t.1 % p != 0);
            x.c = x.c.rem_euclid(p);
            if x != a[0] {
                return mk_op_f(f, op, bits, &[x]);
            }
            if let Some(l) = low_part(&x, p, f) {
                return l;
            }
            if let Some(s) = x.as_sym() {
                if let Def::Op(Op::Trunc, b2, inner) = def(s) {
                    if b2 >= bits {
                        return mk_op_f(f, op, bits, &inner);
                    }
                }
            }
            let (l0, _) = brange(&x);
            let (s, new) = intern(Def::Op(op, bits, vec![x.clone()]), 0, m);
            if new && l0 >= 0 {
                add_axioms(s, vec![Lin::s(s).sub(&x)]);
                if x.as_sym().is_some() && p < 1 << 60 {
                    // x = p * (x >> bits) + s
                    let h = mk_op(Op::Shr, 64, &[x.clone(), Lin::k(bits as i128)]);
                    let r = Lin::s(s).add(&h.scale(p)).sub(&x);
                    add_axioms(s, vec![r.neg(), r]);
                }
            }
            Lin::s(s)
        }
        Op::Sext => {
            let half = 1i128 << (bits - 1);
            let (lo, hi) = bnd(&a[0]);
            if lo >= -half && hi < half {
                return a[0].clone();
            }
            if lo >= half && hi <= m {
                return a[0].addk(-(m + 1));
            }
            let (s, _) = intern(Def::Op(op, bits, a), -half, half - 1);
            Lin::s(s)
        }
        Op::Tz | Op::Pop | Op::Lz | Op::Npot => {
            let mut a = a;
            if op == Op::Tz && f.is_some() {
                // keep composite terms in one piece for enumeration
                a = args.to_vec();
                if let Some(f) = f {
                    a = a.iter().map(|l| f.norm(l)).collect();
                }
            }
            let (lo0, hi0) = bnd(&a[0]);
            let (l0, h0) = brange(&a[0]);
            let np = |x: i128| eval_op(Op::Npot, bits, &[x.max(0)]).unwrap_or(m);
            let (lo, hi) = match op {
                Op::Npot => (np(l0), np(h0.min(m))),
                _ => (0, bits as i128),
            };
            let _ = (lo0, hi0);
            let (s, new) = intern(Def::Op(op, bits, a.clone()), lo, hi.min(m));
            if new && op == Op::Npot {
                add_axioms(s, vec![a[0].sub(&Lin::s(s)), Lin::s(s).sub(&a[0].scale(2)).addk(-1)]);
            }
            if new {
                if let Some((lo, hi)) = enum_range(s) {
                    TAB.with(|t| {
                        let mut t = t.borrow_mut();
                        let i = &mut t.v[s as usize];
                        i.lo = i.lo.max(lo);
                        i.hi = i.hi.min(hi);
                    });
                }
            }
            Lin::s(s)
        }
    }
}

fn content(l: &Lin) -> i128 {
    let mut g = l.c.abs();
    for t in &l.t {
        let (mut a, mut b) = (g, t.1.abs());
        while b != 0 {
            let r = a % b;
            a = b;
            b = r;
        }
        g = a;
    }
    g.max(1)
}

/// x mod p if the terms with coefficients that are no multiples of p have a range within 0..p
fn low_part(x: &Lin, p: i128, f: Option<&Facts>) -> Option<Lin> {
    let mut lo = Lin::k(x.c.rem_euclid(p));
    for t in &x.t {
        if t.1 % p != 0 {
            lo.t.push(*t);
        }
    }
    let b = match f {
        Some(f) => f.bounds(&lo),
        None => brange(&lo),
    };
    if b.0 >= 0 && b.1 < p {
        Some(lo)
    } else {
        None
    }
}

fn div_const(f: Option<&Facts>, x: &Lin, k: i128, op: Op, bits: u32, a: &[Lin]) -> Lin {
    // split into a multiple of k and a rest within 0..k
    let mut hi = Lin::k(x.c.div_euclid(k));
    let mut lo = Lin::k(x.c.rem_euclid(k));
    for t in &x.t {
        if t.1 % k == 0 {
            hi.t.push((t.0, t.1 / k));
        } else {
            lo.t.push(*t);
        }
    }
    let b = match f {
        Some(f) => f.bounds(&lo),
        None => brange(&lo),
    };
    if b.0 >= 0 && b.1 < k {
        return hi;
    }
    // floor((k * hi + lo) / k) = hi + floor(lo / k)
    let (x, hi) = if brange(&lo).0 >= 0 { (lo, hi) } else { (x.clone(), Lin::k(0)) };
    let (l0, h0) = brange(&x);
    // one symbol for the quotient however it is computed
    let d = if l0 >= 0 && (k as u128).is_power_of_two() && k.trailing_zeros() < 64 {
        Def::Op(Op::Shr, 64, vec![x.clone(), Lin::k(k.trailing_zeros() as i128)])
    } else {
        let mut a = a.to_vec();
        a[0] = x.clone();
        Def::Op(op, bits, a)
    };
    let (s, new) = intern(d, if l0 >= 0 { l0.div_euclid(k) } else { 0 }, h0.max(0).div_euclid(k));
    if new {
        let z = Lin::s(s);
        add_axioms(s, vec![z.scale(k).sub(&x), x.sub(&z.scale(k)).addk(-(k - 1))]);
    }
    hi.add(&Lin::s(s))
}

/// Symbols to enumerate for evaluating `s`, as deep as their ranges allow.
fn support(s: Sym, f: &Facts, max: i128, out: &mut BTreeSet<Sym>) -> bool {
    let (lo, hi) = f.srange(s);
    let children: Option<Vec<Sym>> = match def(s) {
        Def::Free | Def::Elem(..) => None,
        Def::Op(_, _, a) => Some(a.iter().flat_map(|l| l.t.iter().map(|x| x.0)).collect()),
        Def::Cond(c) => {
            let mut ss = BTreeSet::new();
            c.syms(&mut ss);
            Some(ss.into_iter().collect())
        }
    };
    if let Some(ch) = children {
        let mut tmp = BTreeSet::new();
        if ch.iter().all(|c| support(*c, f, max, &mut tmp)) {
            out.extend(tmp);
            return true;
        }
    }
    if let Some(e) = f.eqs.get(&s) {
        let mut tmp = BTreeSet::new();
        if e.t.iter().all(|c| support(c.0, f, max, &mut tmp)) {
            out.extend(tmp);
            return true;
        }
    }
    if hi - lo < max {
        out.insert(s);
        return true;
    }
    false
}

fn enum_range(s: Sym) -> Option<(i128, i128)> {
    let f = Facts::default();
    let mut sup = BTreeSet::new();
    if !support(s, &f, 70000, &mut sup) || sup.contains(&s) {
        return None;
    }
    let mut lo = i128::MAX;
    let mut hi = i128::MIN;
    let ok = enumerate(&sup, &f, 70000, &mut |env| {
        let mut memo = HashMap::new();
        match eval_sym(s, &|x| env.get(&x).copied(), &mut memo) {
            Some(v) => {
                lo = lo.min(v);
                hi = hi.max(v);
                true
            }
            None => false,
        }
    });
    if ok && lo <= hi {
        Some((lo, hi))
    } else {
        None
    }
}

/// Calls `g` for every assignment of the support; stops and returns false if `g` does.
pub fn enumerate(sup: &BTreeSet<Sym>, f: &Facts, max: i128, g: &mut dyn FnMut(&BTreeMap<Sym, i128>) -> bool) -> bool {
    let v: Vec<(Sym, i128, i128)> = sup.iter().map(|s| { let (a, b) = f.srange(*s); (*s, a, b) }).collect();
    let mut n: i128 = 1;
    for x in &v {
        n = n.saturating_mul(x.2 - x.1 + 1);
    }
    if n > max || n <= 0 {
        return false;
    }
    let mut env: BTreeMap<Sym, i128> = v.iter().map(|x| (x.0, x.1)).collect();
    loop {
        if !g(&env) {
            return false;
        }
        let mut i = 0;
        loop {
            if i == v.len() {
                return true;
            }
            let e = env.get_mut(&v[i].0).unwrap();
            if *e < v[i].2 {
                *e += 1;
                break;
            }
            *e = v[i].1;
            i += 1;
        }
    }
}

/// Decide a condition by enumerating the values of the few small symbols it depends on, keeping
/// those assignments that the facts allow. True: holds for all of them.
pub fn enum_entails(f: &Facts, c: &Cond) -> bool {
    let mut ss = BTreeSet::new();
    let c = c.map(&mut |s| f.norm(&Lin::s(s)));
    c.syms(&mut ss);
    let mut sup = BTreeSet::new();
    for s in &ss {
        if !support(*s, f, 1 << 17, &mut sup) {
            return false;
        }
    }
    if sup.len() > 4 {
        return false;
    }
    // facts over the same support
    let mut facts: Vec<Cond> = vec![];
    for k in f.all() {
        let mut ks = BTreeSet::new();
        k.syms(&mut ks);
        if ks.iter().all(|s| { let mut o = BTreeSet::new(); covered(*s, &sup, &mut o) }) {
            facts.push(k);
        }
    }
    enumerate(&sup, f, 1 << 18, &mut |env| {
        let mut memo = HashMap::new();
        let e = |x: Sym| env.get(&x).copied();
        for k in &facts {
            if eval_cond(k, &e, &mut memo) == Some(false) {
                return true;
            }
        }
        eval_cond(&c, &e, &mut memo) == Some(true)
    })
}
fn covered(s: Sym, sup: &BTreeSet<Sym>, seen: &mut BTreeSet<Sym>) -> bool {
    if sup.contains(&s) {
        return true;
    }
    if !seen.insert(s) {
        return true;
    }
    match def(s) {
        Def::Free | Def::Elem(..) => false,
        Def::Op(_, _, a) => a.iter().all(|l| l.t.iter().all(|x| covered(x.0, sup, seen))),
        Def::Cond(c) => {
            let mut ss = BTreeSet::new();
            c.syms(&mut ss);
            ss.iter().all(|x| covered(*x, sup, seen))
        }
    }
}

/// Entailment by the linear domain, then by enumeration.
pub fn holds(f: &Facts, c: &Cond) -> bool {
    if f.bottom {
        return true;
    }
    match c {
        Cond::And(v) => return v.iter().all(|c| holds(f, c)),
        _ => {}
    }
    f.entails(c) || enum_entails(f, c)
}
