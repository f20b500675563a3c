//! The symbolic scalar: an implementation of the library's own `Numeric` trait, so that the real,
//! compiled library code computes verification conditions instead of floats.
use crate::poly::*;
use crate::q::Q;
use crate::state::*;
use multicalc::random::{RandomScalar, RandomSource};
use multicalc::scalar::{Numeric, Primal};
use std::cmp::Ordering;
use std::ops::*;
use std::rc::Rc;

#[derive(Clone, Copy)]
pub enum Sym {
    /// small rational constant
    R(i32, i32),
    Eps(i32),
    Pi(i32),
    NaN,
    PInf,
    NInf,
    Max,
    MinPos,
    N(u32),
}
use Sym::*;

fn pow2(e: i64) -> Q {
    use num_bigint::BigInt;
    let one = BigInt::from(1);
    if e >= 0 { Q::from_numden(one << e as usize, BigInt::from(1)) } else { Q::from_numden(one.clone(), one << (-e) as usize) }
}
impl St {
    pub fn val(&mut self, s: Sym) -> Val {
        match s {
            R(n, d) => Val::F(Rc::new(Frac::konst(Q::new(n as i64, d as i64)))),
            Eps(k) => Val::F(Rc::new(Frac::konst(pow2(-52).mul(&Q::int(k as i64))))),
            Pi(k) => {
                let p = self.pi_atom();
                Val::F(Rc::new(Frac::atom(p).scale(&Q::int(k as i64))))
            }
            NaN => Val::NaN,
            PInf => Val::PInf,
            NInf => Val::NInf,
            Max => {
                let m = self.max_atom();
                Val::F(Rc::new(Frac::atom(m)))
            }
            MinPos => Val::F(Rc::new(Frac::konst(pow2(-1022)))),
            N(i) => self.nodes[i as usize].clone(),
        }
    }
    pub fn pi_atom(&mut self) -> u32 {
        if let Some(p) = self.pi {
            return p;
        }
        let p = self.new_atom("pi".into(), Kind::Pi, vec![], 4, None);
        self.pi = Some(p);
        p
    }
    fn max_atom(&mut self) -> u32 {
        if let Some(p) = self.maxa {
            return p;
        }
        let p = self.new_atom("MAX".into(), Kind::Max, vec![], 4, None);
        self.maxa = Some(p);
        p
    }
    pub fn put(&mut self, v: Val) -> Sym {
        match v {
            Val::NaN => NaN,
            Val::PInf => PInf,
            Val::NInf => NInf,
            Val::F(f) => {
                if let Some(Q::S(n, d)) = f.as_const() {
                    if let (Ok(n), Ok(d)) = (i32::try_from(n), i32::try_from(d)) {
                        return R(n, d);
                    }
                }
                self.nodes.push(Val::F(f));
                N(self.nodes.len() as u32 - 1)
            }
        }
    }
    fn putf(&mut self, f: Frac) -> Sym {
        self.put(Val::F(Rc::new(f)))
    }
    /// Interned application of a primitive to arguments (congruence by exact algebra).
    pub fn app(&mut self, kind: Kind, name: &str, args: Vec<Rc<Frac>>, mask: u8, rel: Option<Rel>) -> u32 {
        if let Some(i) = self.find_app(&kind, name, &args) {
            return i;
        }
        let shown: Vec<String> = args.iter().map(|a| self.show(a)).collect();
        let nm = if kind == Kind::Opaque {
            format!("{name}#{}", self.atoms.len())
        } else {
            let mut s = shown.join(",");
            if s.len() > 60 {
                s = format!("..{}", self.atoms.len());
            }
            format!("{name}({s})")
        };
        self.new_atom(nm, kind, args, mask, rel)
    }
    fn find_app(&mut self, kind: &Kind, name: &str, args: &[Rc<Frac>]) -> Option<u32> {
        for i in 0..self.atoms.len() {
            if self.atoms[i].kind != *kind || self.atoms[i].args.len() != args.len() {
                continue;
            }
            if *kind == Kind::Opaque && self.atoms[i].name.split('#').next() != Some(name) {
                continue;
            }
            let mut same = true;
            for k in 0..args.len() {
                let a = self.atoms[i].args[k].clone();
                if *a == *args[k] {
                    continue;
                }
                let d = self.alg.sub(&a, &args[k]);
                let r = self.alg.reduce(d.num);
                if !r.num.is_zero() {
                    same = false;
                    break;
                }
            }
            if same {
                return Some(i as u32);
            }
        }
        None
    }
    pub fn mask_frac(&self, f: &Frac) -> u8 {
        let mut m = self.mask(&f.num);
        for &(d, k) in &f.den {
            let dm = self.mask(&self.alg.factors[d as usize]) & 5;
            let dm = if k % 2 == 0 { 4 } else { dm };
            m = mul_mask(m, dm);
        }
        m
    }
    pub fn decide(&mut self, f: &Frac, op: Op) -> bool {
        let c = self.con(f, op);
        self.branch(c)
    }
    pub fn abs(&mut self, f: &Frac) -> Frac {
        let m = self.mask_frac(f);
        if m & 1 == 0 {
            return f.clone();
        }
        if m & 4 == 0 {
            return f.neg();
        }
        // pull out constants and the known-sign denominators
        let (lead, common, prim) = f.num.split();
        let mut out = Frac::konst(lead.abs());
        for &(a, e) in &common {
            let p = Frac::atom(a);
            let b = if e % 2 == 0 || self.mask(&p.num) & 1 == 0 { self.alg.pow(&p, e as u32) } else {
                let x = self.abs_atom(&p);
                self.alg.pow(&x, e as u32)
            };
            out = self.alg.mul(&out, &b);
        }
        if prim.as_const().is_none() {
            let p = Frac::poly(prim);
            let b = if self.mask(&p.num) & 1 == 0 { p } else if self.mask(&p.num) & 4 == 0 { p.neg() } else { self.abs_atom(&p) };
            out = self.alg.mul(&out, &b);
        }
        for &(d, k) in &f.den {
            let p = Frac::poly((*self.alg.factors[d as usize]).clone());
            let pk = self.alg.pow(&p, k as u32);
            let m = self.mask(&p.num);
            let b = if k % 2 == 0 || m & 1 == 0 {
                pk
            } else if m & 4 == 0 {
                pk.neg()
            } else {
                let x = self.abs_atom(&p);
                // |x| is non-zero because x is
                if let Form::C(c) = self.con(&x, Op::Gt) {
                    let cc = Form::C(c);
                    self.assume_form(cc);
                }
                self.alg.pow(&x, k as u32)
            };
            let i = self.alg.inv(&b);
            out = self.alg.mul(&out, &i);
        }
        out
    }
    fn abs_atom(&mut self, p: &Frac) -> Frac {
        let m = self.mask(&p.num);
        if m & 1 == 0 {
            return p.clone();
        }
        if m & 4 == 0 {
            return p.neg();
        }
        let (lead, _, _) = p.num.split();
        let p = if lead.sign() < 0 { p.neg() } else { p.clone() };
        if p.num.t.len() <= 4 && p.den.len() <= 1 && !self.atoms.iter().any(|a| a.kind == Kind::Abs && *a.args[0] == p) {
            for (op, q) in [(Op::Ge, p.clone()), (Op::Le, p.neg())] {
                let f = self.con(&p, op);
                let f = Form::Not(Box::new(f));
                if self.sat(&f, 100).0 == crate::smt::Ans::Unsat {
                    return q;
                }
            }
        }
        let sq = self.alg.mul(&p, &p);
        let a = self.app(Kind::Abs, "abs", vec![Rc::new(p)], if m & 2 == 0 { 4 } else { 6 }, Some(Rel { pow: 2, rhs: sq }));
        Frac::atom(a)
    }
    /// Square root of a rational function known to be nonnegative.
    pub fn sqrt(&mut self, f: &Frac) -> Frac {
        if f.is_zero() {
            return f.clone();
        }
        // known square roots: an existing nonnegative expression whose square is `f`
        for i in 0..self.atoms.len() {
            if self.atoms[i].kind == Kind::Sqrt {
                let a = self.atoms[i].args[0].clone();
                if *a == *f {
                    return Frac::atom(i as u32);
                }
            }
        }
        let (lead, common, mut prim) = f.num.split();
        let mut lead = lead;
        if lead.sign() < 0 {
            lead = lead.neg();
            prim = prim.neg();
        }
        let (outside, inside) = lead.split_square();
        let mut out = Frac::konst(outside);
        let mut ins = Frac::konst(inside);
        for &(a, e) in &common {
            let p = Frac::atom(a);
            let h = self.abs(&p);
            let hp = self.alg.pow(&h, (e / 2) as u32);
            out = self.alg.mul(&out, &hp);
            if e % 2 == 1 {
                ins = self.alg.mul(&ins, &p);
            }
        }
        if prim.as_const().is_none() {
            if let Some(r) = self.poly_sqrt(&prim) {
                let h = self.abs(&Frac::poly(r));
                out = self.alg.mul(&out, &h);
            } else {
                ins = self.alg.mul(&ins, &Frac::poly(prim));
            }
        } else if let Some(c) = prim.as_const() {
            ins = ins.scale(&c);
        }
        // sqrt(n/d) = sqrt(n*d)/|d|
        for &(d, k) in &f.den {
            let p = Frac::poly((*self.alg.factors[d as usize]).clone());
            let half = (k as u32).div_ceil(2);
            let h = self.abs(&p);
            let hp = self.alg.pow(&h, half);
            let i = self.alg.inv(&hp);
            out = self.alg.mul(&out, &i);
            if k % 2 == 1 {
                ins = self.alg.mul(&ins, &p);
            }
        }
        if let Some(c) = ins.as_const() {
            if let Some(r) = c.sqrt_exact() {
                return out.scale(&r);
            }
        }
        let strict = self.mask_frac(&ins) & 2 == 0;
        let rel = Rel { pow: 2, rhs: ins.clone() };
        let a = self.app(Kind::Sqrt, "sqrt", vec![Rc::new(ins)], if strict { 4 } else { 6 }, Some(rel));
        self.alg.mul(&out, &Frac::atom(a))
    }
    /// Polynomial square root modulo the atom relations, when there is an obvious one.
    fn poly_sqrt(&mut self, p: &Poly) -> Option<Poly> {
        if p.t.len() < 2 || p.t.len() > 40 {
            // 1 - sin^2 is one minus a square and is handled below
        }
        // 1 - s^2 with s a sine atom: cos
        if p.t.len() == 2 {
            for i in 0..self.atoms.len() {
                if self.atoms[i].kind == Kind::Cos {
                    let c = Poly::atom(i as u32);
                    let sq = self.alg.reduce(c.mul(&c));
                    if sq.den.is_empty() && sq.num == *p {
                        return Some(c);
                    }
                    if sq.den.is_empty() && sq.num.neg() == *p {
                        return None;
                    }
                }
            }
        }
        // classical square-root extraction
        let (lm, lq) = p.t.last()?.clone();
        let r0 = lq.sqrt_exact()?;
        let mut m0 = Mono::new();
        for &(a, e) in &lm {
            if e % 2 != 0 {
                return None;
            }
            m0.push((a, e / 2));
        }
        let mut root = Poly { t: vec![(m0.clone(), r0.clone())] };
        let two_lead = r0.mul(&Q::int(2)).inv();
        for _ in 0..30 {
            let rem = p.sub(&root.mul(&root));
            if rem.is_zero() {
                return Some(root);
            }
            let (m, q) = rem.t.last()?.clone();
            let d = mdiv(&m, &m0)?;
            let term = Poly { t: vec![(d.clone(), q.mul(&two_lead))] };
            if mcmp(&d, &root.t[0].0) != Ordering::Less {
                return None;
            }
            root = root.add(&term);
        }
        None
    }
    fn base_trig(&mut self, base: Frac) -> (Frac, Frac) {
        // sin/cos of an atan2 atom
        if base.den.is_empty() && base.num.t.len() == 1 {
            let (m, q) = &base.num.t[0];
            if q.is_one() && m.len() == 1 && m[0].1 == 1 && self.atoms[m[0].0 as usize].kind == Kind::Atan2 {
                let args = self.atoms[m[0].0 as usize].args.clone();
                let (y, x) = (&args[0], &args[1]);
                let yy = self.alg.mul(y, y);
                let xx = self.alg.mul(x, x);
                let h2 = self.alg.add(&yy, &xx);
                let h = self.sqrt(&h2);
                if self.decide(&h, Op::Eq) {
                    return (Frac::konst(Q::zero()), Frac::konst(Q::one()));
                }
                let i = self.alg.inv(&h);
                return (self.alg.mul(y, &i), self.alg.mul(x, &i));
            }
        }
        let (lead, _, _) = base.num.split();
        let (neg, b) = if lead.sign() < 0 { (true, base.neg()) } else { (false, base) };
        let b = Rc::new(b);
        let s = self.app(Kind::Sin, "sin", vec![b.clone()], 7, None);
        let s2 = Frac::poly(Poly::atom(s).mul(&Poly::atom(s)));
        let rhs = self.alg.sub(&Frac::konst(Q::one()), &s2);
        let c = self.app(Kind::Cos, "cos", vec![b], 7, Some(Rel { pow: 2, rhs }));
        debug_assert_eq!(c, s + 1);
        let sf = Frac::atom(s);
        (if neg { sf.neg() } else { sf }, Frac::atom(c))
    }
    fn trig_add(&mut self, a: &(Frac, Frac), b: &(Frac, Frac)) -> (Frac, Frac) {
        let t1 = self.alg.mul(&a.0, &b.1);
        let t2 = self.alg.mul(&a.1, &b.0);
        let s = self.alg.add(&t1, &t2);
        let t3 = self.alg.mul(&a.1, &b.1);
        let t4 = self.alg.mul(&a.0, &b.0);
        let c = self.alg.sub(&t3, &t4);
        (s, c)
    }
    pub fn sincos(&mut self, f: &Frac) -> (Frac, Frac) {
        let one = Frac::konst(Q::one());
        let zero = Frac::konst(Q::zero());
        if f.is_zero() {
            return (zero, one);
        }
        if !f.den.is_empty() {
            let d = self.angle_div;
            let b = f.scale(&Q::new(1, d));
            let p = self.base_trig(b);
            let mut acc = p.clone();
            for _ in 1..d {
                acc = self.trig_add(&acc, &p);
            }
            return acc;
        }
        let mut acc = (zero.clone(), one.clone());
        for (m, q) in f.num.t.clone() {
            let is_pi = m.len() == 1 && m[0].1 == 1 && Some(m[0].0) == self.pi;
            // an even multiple of pi times an integer-valued atom is a whole number of turns
            let whole = m.len() == 2
                && m.iter().all(|v| v.1 == 1)
                && m.iter().any(|v| Some(v.0) == self.pi)
                && m.iter().any(|v| matches!(self.atoms[v.0 as usize].kind, Kind::Round | Kind::Floor))
                && q.div(&Q::int(2)).is_int();
            if whole {
                continue;
            }
            let p: (Frac, Frac);
            if is_pi && q.mul(&Q::int(2)).is_int() {
                let k = q.mul(&Q::int(2));
                let k4 = k.sub(&k.div(&Q::int(4)).floor().mul(&Q::int(4))).to_i64().unwrap();
                let v = [(0, 1), (1, 0), (0, -1), (-1, 0)][k4 as usize];
                p = (Frac::konst(Q::int(v.0)), Frac::konst(Q::int(v.1)));
            } else {
                let single_atan = m.len() == 1 && m[0].1 == 1 && self.atoms[m[0].0 as usize].kind == Kind::Atan2 && q.is_int();
                let d = if single_atan { 1 } else { self.angle_div };
                let (_, den) = q.numden();
                let l = num_integer::Integer::lcm(&den, &num_bigint::BigInt::from(d));
                let lq = Q::from_numden(l, 1.into());
                let n = q.mul(&lq).to_i64();
                match n {
                    Some(n) if n.abs() <= 12 => {
                        let base = Frac::poly(Poly { t: vec![(m.clone(), lq.inv())] });
                        let b = self.base_trig(base);
                        let mut r = b.clone();
                        for _ in 1..n.abs() {
                            r = self.trig_add(&r, &b);
                        }
                        p = if n < 0 { (r.0.neg(), r.1) } else { r };
                    }
                    _ => p = self.base_trig(Frac::poly(Poly { t: vec![(m.clone(), q.clone())] })),
                }
            }
            acc = self.trig_add(&acc, &p);
        }
        acc
    }
    pub fn expf(&mut self, f: &Frac) -> Frac {
        let one = Frac::konst(Q::one());
        if f.is_zero() {
            return one;
        }
        if !f.den.is_empty() {
            let (lead, _, _) = f.num.split();
            let b = if lead.sign() < 0 { f.neg() } else { f.clone() };
            let e = Frac::atom(self.app(Kind::Exp, "exp", vec![Rc::new(b)], 4, None));
            return if lead.sign() < 0 { self.alg.inv(&e) } else { e };
        }
        let mut acc = one;
        for (m, q) in f.num.t.clone() {
            let log = m.len() == 1 && m[0].1 == 1 && self.atoms[m[0].0 as usize].kind == Kind::Log;
            let (n, den) = q.numden();
            let _ = n;
            let l = Q::from_numden(den, 1.into());
            let n = q.mul(&l).to_i64().filter(|n| n.abs() <= 12);
            let (b, k) = match n {
                Some(n) => (Poly { t: vec![(m.clone(), l.inv())] }, n),
                None => (Poly { t: vec![(m.clone(), q.abs())] }, q.sign() as i64),
            };
            let base = if log && l.is_one() && n.is_some() {
                (*self.atoms[m[0].0 as usize].args[0]).clone()
            } else {
                Frac::atom(self.app(Kind::Exp, "exp", vec![Rc::new(Frac::poly(b))], 4, None))
            };
            let mut e = self.alg.pow(&base, k.unsigned_abs() as u32);
            if k < 0 {
                e = self.alg.inv(&e);
            }
            acc = self.alg.mul(&acc, &e);
        }
        acc
    }
    pub fn logf(&mut self, f: &Frac) -> Frac {
        let mut acc = Frac::konst(Q::zero());
        let (lead, common, prim) = f.num.split();
        let mut splits = common.iter().all(|&(a, _)| self.mask(&Poly::atom(a)) == 4) && lead.sign() > 0;
        for &(d, _) in &f.den {
            if self.mask(&self.alg.factors[d as usize].clone()) != 4 {
                splits = false;
            }
        }
        if !splits {
            let a = self.app(Kind::Log, "log", vec![Rc::new(f.clone())], 7, None);
            return Frac::atom(a);
        }
        if !lead.is_one() {
            let (n, d) = lead.numden();
            for (v, s) in [(n, 1), (d, -1)] {
                let q = Q::from_numden(v, 1.into());
                if !q.is_one() {
                    // prime factors of small integers
                    let mut rest = q.clone();
                    if let Some(mut k) = q.to_i64() {
                        rest = Q::one();
                        let mut p = 2;
                        while k > 1 {
                            if p * p > k {
                                p = k;
                            }
                            let mut e = 0;
                            while k % p == 0 {
                                k /= p;
                                e += 1;
                            }
                            if e > 0 {
                                let a = self.app(Kind::Log, "log", vec![Rc::new(Frac::konst(Q::int(p)))], 4, None);
                                acc = self.alg.add(&acc, &Frac::atom(a).scale(&Q::int(e * s)));
                            }
                            p += 1;
                        }
                    }
                    if !rest.is_one() {
                        let a = self.app(Kind::Log, "log", vec![Rc::new(Frac::konst(rest))], 4, None);
                        acc = self.alg.add(&acc, &Frac::atom(a).scale(&Q::int(s)));
                    }
                }
            }
        }
        for &(a, e) in &common {
            let term = if self.atoms[a as usize].kind == Kind::Exp {
                (*self.atoms[a as usize].args[0]).clone()
            } else {
                let i = self.app(Kind::Log, "log", vec![Rc::new(Frac::atom(a))], 7, None);
                Frac::atom(i)
            };
            acc = self.alg.add(&acc, &term.scale(&Q::int(e as i64)));
        }
        if prim.as_const().is_none() {
            let i = self.app(Kind::Log, "log", vec![Rc::new(Frac::poly(prim))], 7, None);
            acc = self.alg.add(&acc, &Frac::atom(i));
        }
        for &(d, k) in &f.den {
            let p = (*self.alg.factors[d as usize]).clone();
            let single = (p.t.len() == 1 && p.t[0].0.len() == 1 && p.t[0].1.is_one()).then(|| p.t[0].0[0]);
            let term = match single {
                Some((a, 1)) if self.atoms[a as usize].kind == Kind::Exp => (*self.atoms[a as usize].args[0]).clone(),
                _ => {
                    let i = self.app(Kind::Log, "log", vec![Rc::new(Frac::poly(p))], 7, None);
                    Frac::atom(i)
                }
            };
            acc = self.alg.sub(&acc, &term.scale(&Q::int(k as i64)));
        }
        acc
    }
    fn atan2f(&mut self, y: &Frac, x: &Frac) -> Frac {
        // y, x = r sin t, r cos t for a known angle t, r > 0
        for i in 0..self.atoms.len() {
            if self.atoms[i].kind != Kind::Sin {
                continue;
            }
            let base = self.atoms[i].args[0].clone();
            for k in [1i64, 2, 3, -1, -2, -3] {
                let t = base.scale(&Q::int(k));
                let (s, c) = self.sincos(&t);
                let a = self.alg.mul(y, &c);
                let b = self.alg.mul(x, &s);
                let cross = self.alg.sub(&a, &b);
                let r = self.alg.reduce(cross.num);
                if !r.num.is_zero() {
                    continue;
                }
                let a = self.alg.mul(y, &s);
                let b = self.alg.mul(x, &c);
                let dot = self.alg.add(&a, &b);
                let pos = self.con(&dot, Op::Gt);
                let neg = Form::Not(Box::new(pos.clone()));
                let ok = matches!(pos, Form::B(true)) || (!matches!(pos, Form::B(false)) && self.sat(&neg, 1000).0 == crate::smt::Ans::Unsat);
                if !ok {
                    continue;
                }
                let p = self.pi_atom();
                let pf = Frac::atom(p);
                let hi = self.alg.sub(&pf, &t);
                let lo = self.alg.add(&pf, &t);
                let f = Form::And(vec![self.con(&hi, Op::Ge), self.con(&lo, Op::Gt)]);
                let nf = Form::Not(Box::new(f));
                if self.sat(&nf, 1000).0 == crate::smt::Ans::Unsat {
                    return t;
                }
                // t - 2 pi round(t / 2 pi)
                let tp = Frac::atom(p).scale(&Q::int(2));
                let ip = self.alg.inv(&tp);
                let turns = self.alg.mul(&t, &ip);
                let n = self.app(Kind::Round, "round", vec![Rc::new(turns)], 7, None);
                let back = self.alg.mul(&tp, &Frac::atom(n));
                return self.alg.sub(&t, &back);
            }
        }
        let zero = Frac::konst(Q::zero());
        if self.decide(y, Op::Eq) {
            if self.decide(x, Op::Ge) {
                return zero;
            }
            let p = self.pi_atom();
            return Frac::atom(p);
        }
        if self.mask_frac(x) == 2 {
            let p = self.pi_atom();
            let h = Frac::atom(p).scale(&Q::new(1, 2));
            return if self.decide(y, Op::Gt) { h } else { h.neg() };
        }
        self.pi_atom();
        // normalise a common positive constant
        let (lead, _, _) = y.num.split();
        let k = lead.abs().inv();
        let a = self.app(Kind::Atan2, "atan2", vec![Rc::new(y.scale(&k)), Rc::new(x.scale(&k))], 7, None);
        Frac::atom(a)
    }
    fn divv(&mut self, a: Val, b: Val) -> Val {
        match (a, b) {
            (Val::NaN, _) | (_, Val::NaN) => Val::NaN,
            (Val::F(x), Val::F(y)) => {
                if self.decide(&y, Op::Eq) {
                    // a zero denominator is taken as +0
                    if self.decide(&x, Op::Eq) {
                        Val::NaN
                    } else if self.decide(&x, Op::Gt) {
                        Val::PInf
                    } else {
                        Val::NInf
                    }
                } else {
                    if let Some(q) = y.as_const() {
                        return Val::F(Rc::new(x.scale(&q.inv())));
                    }
                    let i = self.alg.inv(&y);
                    Val::F(Rc::new(self.alg.mul(&x, &i)))
                }
            }
            (Val::F(_), _) => Val::F(Rc::new(Frac::konst(Q::zero()))),
            (a, Val::F(y)) => {
                let neg = self.decide(&y, Op::Lt);
                if neg { negv(a) } else { a }
            }
            _ => Val::NaN,
        }
    }
    fn mulv(&mut self, a: Val, b: Val) -> Val {
        match (a, b) {
            (Val::NaN, _) | (_, Val::NaN) => Val::NaN,
            (Val::F(x), Val::F(y)) => Val::F(Rc::new(self.alg.mul(&x, &y))),
            (Val::F(x), i) | (i, Val::F(x)) => {
                if self.decide(&x, Op::Eq) {
                    Val::NaN
                } else if self.decide(&x, Op::Gt) {
                    i
                } else {
                    negv(i)
                }
            }
            (a, b) => {
                if matches!((&a, &b), (Val::PInf, Val::PInf) | (Val::NInf, Val::NInf)) { Val::PInf } else { Val::NInf }
            }
        }
    }
    fn addv(&mut self, a: Val, b: Val) -> Val {
        match (a, b) {
            (Val::NaN, _) | (_, Val::NaN) => Val::NaN,
            (Val::F(x), Val::F(y)) => Val::F(Rc::new(self.alg.add(&x, &y))),
            (Val::F(_), i) | (i, Val::F(_)) => i,
            (Val::PInf, Val::PInf) => Val::PInf,
            (Val::NInf, Val::NInf) => Val::NInf,
            _ => Val::NaN,
        }
    }
    /// Comparison formula `a op b`, following IEEE rules for NaN and infinities.
    pub fn cmp_form(&mut self, a: &Val, b: &Val, op: Op) -> Form {
        match (a, b) {
            (Val::NaN, _) | (_, Val::NaN) => Form::B(op == Op::Ne),
            (Val::F(x), Val::F(y)) => {
                if let Some(m) = self.maxa {
                    // every finite value is below MAX
                    let mf = Frac::atom(m);
                    let has = |f: &Frac| f.num.t.iter().any(|t| t.0.iter().any(|p| p.0 == m));
                    let ord = if **y == mf && !has(x) {
                        Some(1u8)
                    } else if **x == mf && !has(y) {
                        Some(4)
                    } else if **y == mf.neg() && !has(x) {
                        Some(4)
                    } else if **x == mf.neg() && !has(y) {
                        Some(1)
                    } else {
                        None
                    };
                    if let Some(o) = ord {
                        return Form::B(op.mask() & o != 0);
                    }
                }
                let d = self.alg.sub(x, y);
                self.con(&d, op)
            }
            _ => {
                let rank = |v: &Val| match v {
                    Val::NInf => -1,
                    Val::PInf => 1,
                    _ => 0,
                };
                let m = match rank(a).cmp(&rank(b)) {
                    Ordering::Less => 1,
                    Ordering::Equal => 2,
                    Ordering::Greater => 4,
                };
                Form::B(op.mask() & m != 0)
            }
        }
    }
    fn cmp(&mut self, a: Sym, b: Sym, op: Op) -> bool {
        let (x, y) = (self.val(a), self.val(b));
        let f = self.cmp_form(&x, &y, op);
        self.branch(f)
    }
    pub fn floorf(&mut self, f: &Frac) -> Frac {
        if let Some(q) = f.as_const() {
            return Frac::konst(q.floor());
        }
        // integer constant shifts come out
        let mut k = Q::zero();
        if f.den.is_empty() {
            if let Some((m, q)) = f.num.t.first() {
                if m.is_empty() {
                    k = q.floor();
                }
            }
        }
        let g = self.alg.sub(f, &Frac::konst(k.clone()));
        if g.is_zero() {
            return Frac::konst(k);
        }
        let a = self.app(Kind::Floor, "floor", vec![Rc::new(g)], 7, None);
        self.alg.add(&Frac::atom(a), &Frac::konst(k))
    }
    pub fn roundf(&mut self, f: &Frac) -> Frac {
        if let Some(q) = f.as_const() {
            let h = Q::new(1, 2);
            return Frac::konst(if q.sign() >= 0 { q.add(&h).floor() } else { q.neg().add(&h).floor().neg() });
        }
        // odd function
        let (lead, _, _) = f.num.split();
        let g = if lead.sign() < 0 { f.neg() } else { f.clone() };
        let a = Frac::atom(self.app(Kind::Round, "round", vec![Rc::new(g)], 7, None));
        if lead.sign() < 0 { a.neg() } else { a }
    }
}
pub fn negv(v: Val) -> Val {
    match v {
        Val::F(f) => Val::F(Rc::new(f.neg())),
        Val::PInf => Val::NInf,
        Val::NInf => Val::PInf,
        Val::NaN => Val::NaN,
    }
}
impl Sym {
    pub fn q(q: Q) -> Sym {
        with(|s| s.putf(Frac::konst(q)))
    }
    pub fn is_num(self) -> bool {
        !matches!(self, NaN | PInf | NInf)
    }
    fn un(self, f: impl FnOnce(&mut St, Rc<Frac>) -> Val, pinf: Sym, ninf: Sym) -> Sym {
        with(|s| match s.val(self) {
            Val::F(x) => {
                let v = f(s, x);
                s.put(v)
            }
            Val::NaN => NaN,
            Val::PInf => pinf,
            Val::NInf => ninf,
        })
    }
}
impl Add for Sym {
    type Output = Sym;
    fn add(self, o: Sym) -> Sym {
        with(|s| {
            let (a, b) = (s.val(self), s.val(o));
            let r = s.addv(a, b);
            s.put(r)
        })
    }
}
impl Neg for Sym {
    type Output = Sym;
    fn neg(self) -> Sym {
        with(|s| {
            let a = s.val(self);
            s.put(negv(a))
        })
    }
}
impl Sub for Sym {
    type Output = Sym;
    fn sub(self, o: Sym) -> Sym {
        with(|s| {
            let (a, b) = (s.val(self), s.val(o));
            let r = s.addv(a, negv(b));
            s.put(r)
        })
    }
}
impl Mul for Sym {
    type Output = Sym;
    fn mul(self, o: Sym) -> Sym {
        with(|s| {
            let (a, b) = (s.val(self), s.val(o));
            let r = s.mulv(a, b);
            s.put(r)
        })
    }
}
impl Div for Sym {
    type Output = Sym;
    fn div(self, o: Sym) -> Sym {
        with(|s| {
            let (a, b) = (s.val(self), s.val(o));
            let r = s.divv(a, b);
            s.put(r)
        })
    }
}
impl AddAssign for Sym {
    fn add_assign(&mut self, o: Sym) {
        *self = *self + o
    }
}
impl SubAssign for Sym {
    fn sub_assign(&mut self, o: Sym) {
        *self = *self - o
    }
}
impl MulAssign for Sym {
    fn mul_assign(&mut self, o: Sym) {
        *self = *self * o
    }
}
impl DivAssign for Sym {
    fn div_assign(&mut self, o: Sym) {
        *self = *self / o
    }
}
impl PartialEq for Sym {
    fn eq(&self, o: &Sym) -> bool {
        with(|s| s.cmp(*self, *o, Op::Eq))
    }
}
impl PartialOrd for Sym {
    fn partial_cmp(&self, o: &Sym) -> Option<Ordering> {
        if matches!(self, NaN) || matches!(o, NaN) {
            return None;
        }
        Some(if with(|s| s.cmp(*self, *o, Op::Lt)) {
            Ordering::Less
        } else if with(|s| s.cmp(*self, *o, Op::Eq)) {
            Ordering::Equal
        } else {
            Ordering::Greater
        })
    }
    fn lt(&self, o: &Sym) -> bool {
        with(|s| s.cmp(*self, *o, Op::Lt))
    }
    fn le(&self, o: &Sym) -> bool {
        with(|s| s.cmp(*self, *o, Op::Le))
    }
    fn gt(&self, o: &Sym) -> bool {
        with(|s| s.cmp(*self, *o, Op::Gt))
    }
    fn ge(&self, o: &Sym) -> bool {
        with(|s| s.cmp(*self, *o, Op::Ge))
    }
}
impl std::fmt::Debug for Sym {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        let t = with(|s| match s.val(*self) {
            Val::F(x) => s.show(&x),
            Val::NaN => "NaN".into(),
            Val::PInf => "inf".into(),
            Val::NInf => "-inf".into(),
        });
        write!(f, "{t}")
    }
}
/// max/min as one term instead of a fork, when the contract asks for it.
fn merge2(a: Sym, b: Sym, kind: Kind) -> Option<Sym> {
    if !with(|s| s.merge) {
        return None;
    }
    with(|s| {
        let (x, y) = (s.val(a), s.val(b));
        let (Val::F(x), Val::F(y)) = (&x, &y) else { return None };
        let gt = { let v = (Val::F(x.clone()), Val::F(y.clone())); s.cmp_form(&v.0, &v.1, Op::Ge) };
        if let Form::B(g) = gt {
            return Some(if g == (kind == Kind::Max2) { a } else { b });
        }
        let (mx, my) = (s.mask_frac(x), s.mask_frac(y));
        let m = match kind {
            Kind::Max2 => if mx == 4 || my == 4 { 4 } else if mx & 1 == 0 || my & 1 == 0 { 6 } else { 7 },
            _ => if mx == 4 && my == 4 { 4 } else if mx & 1 == 0 && my & 1 == 0 { 6 } else { 7 },
        };
        let name = if kind == Kind::Max2 { "max" } else { "min" };
        let i = s.app(kind, name, vec![x.clone(), y.clone()], m, None);
        Some(s.put(Val::F(Rc::new(Frac::atom(i)))))
    })
}
/// NaN payload used to carry a symbolic scalar through `S::from_f64`.
const SMUGGLE: u64 = 0x7ff8_5a5a_0000_0000;
pub fn smuggle(s: Sym) -> f64 {
    match s {
        N(i) => f64::from_bits(SMUGGLE | i as u64),
        NaN => f64::NAN,
        PInf => f64::INFINITY,
        NInf => f64::NEG_INFINITY,
        other => with(|st| {
            let v = st.val(other);
            st.nodes.push(v);
            f64::from_bits(SMUGGLE | (st.nodes.len() as u64 - 1))
        }),
    }
}
impl Numeric for Sym {
    const ZERO: Self = R(0, 1);
    const ONE: Self = R(1, 1);
    const TWO: Self = R(2, 1);
    const THREE: Self = R(3, 1);
    const HALF: Self = R(1, 2);
    const TEN: Self = R(10, 1);
    const HUNDRED: Self = R(100, 1);
    const ONE_HUNDRED_EIGHTY: Self = R(180, 1);
    const PI: Self = Pi(1);
    const TWO_PI: Self = Pi(2);
    const EPSILON: Self = Eps(1);
    const EPSILON_X4: Self = Eps(4);
    const EPSILON_X30: Self = Eps(30);
    const NAN: Self = NaN;
    const INFINITY: Self = PInf;
    const NEG_INFINITY: Self = NInf;
    const MAX: Self = Max;
    const MIN_POSITIVE: Self = MinPos;
    type Constant = Sym;
    fn from_f64(v: f64) -> Self {
        if v.is_nan() {
            if v.to_bits() & 0xffff_ffff_0000_0000 == SMUGGLE {
                return N((v.to_bits() & 0xffff_ffff) as u32);
            }
            return NaN;
        }
        if v == f64::INFINITY {
            return PInf;
        }
        if v == f64::NEG_INFINITY {
            return NInf;
        }
        if v == f64::MAX {
            return Max;
        }
        for (k, d) in [(1, 1), (2, 1), (1, 2), (1, 4), (3, 2), (3, 4), (1, 3), (2, 3), (1, 6), (1, 180)] {
            let p = std::f64::consts::PI * k as f64 / d as f64;
            if v == p {
                return Pi(1) * R(k, d);
            }
            if v == -p {
                return Pi(1) * R(-k, d);
            }
        }
        for n in [2, 3, 5] {
            let r = (n as f64).sqrt();
            if v == r {
                return R(n, 1).sqrt();
            }
            if v == 1.0 / r || v == 1.0 / r + 1.1102230246251565e-16 {
                return R(1, n).sqrt();
            }
        }
        Sym::q(Q::literal(v))
    }
    fn from_u64(v: u64) -> Self {
        Sym::q(Q::from_numden(v.into(), 1.into()))
    }
    fn from_usize(v: usize) -> Self {
        Self::from_u64(v as u64)
    }
    fn abs(self) -> Self {
        self.un(|s, x| Val::F(Rc::new(s.abs(&x))), PInf, PInf)
    }
    fn sqrt(self) -> Self {
        self.un(
            |s, x| {
                if s.decide(&x, Op::Lt) {
                    Val::NaN
                } else {
                    Val::F(Rc::new(s.sqrt(&x)))
                }
            },
            PInf,
            NaN,
        )
    }
    fn cbrt(self) -> Self {
        self.un(
            |s, x| {
                if let Some(q) = x.as_const() {
                    if let Some(r) = q.cbrt_exact() {
                        return Val::F(Rc::new(Frac::konst(r)));
                    }
                }
                let m = s.mask_frac(&x);
                let (lead, common, prim) = x.num.split();
                if x.den.is_empty() && prim.as_const().is_some() && common.len() == 1 && common[0].1 % 3 == 0 {
                    if let Some(r) = lead.cbrt_exact() {
                        let p = s.alg.pow(&Frac::atom(common[0].0), (common[0].1 / 3) as u32);
                        return Val::F(Rc::new(p.scale(&r)));
                    }
                }
                let neg = lead.sign() < 0;
                let y = if neg { x.neg() } else { (*x).clone() };
                let m = if neg { neg_mask(m) } else { m };
                let a = s.app(Kind::Cbrt, "cbrt", vec![Rc::new(y.clone())], m, Some(Rel { pow: 3, rhs: y }));
                let r = Frac::atom(a);
                Val::F(Rc::new(if neg { r.neg() } else { r }))
            },
            PInf,
            NInf,
        )
    }
    fn sin(self) -> Self {
        self.un(|s, x| Val::F(Rc::new(s.sincos(&x).0)), NaN, NaN)
    }
    fn cos(self) -> Self {
        self.un(|s, x| Val::F(Rc::new(s.sincos(&x).1)), NaN, NaN)
    }
    fn tan(self) -> Self {
        self.un(
            |s, x| {
                let (a, c) = s.sincos(&x);
                // cos never vanishes at a float argument
                let f = s.con(&c, Op::Ne);
                s.assume_form(f);
                let i = s.alg.inv(&c);
                Val::F(Rc::new(s.alg.mul(&a, &i)))
            },
            NaN,
            NaN,
        )
    }
    fn exp(self) -> Self {
        self.un(|s, x| Val::F(Rc::new(s.expf(&x))), PInf, R(0, 1))
    }
    fn log(self) -> Self {
        self.un(
            |s, x| {
                if s.decide(&x, Op::Gt) {
                    Val::F(Rc::new(s.logf(&x)))
                } else if s.decide(&x, Op::Eq) {
                    Val::NInf
                } else {
                    Val::NaN
                }
            },
            PInf,
            NaN,
        )
    }
    fn atan2(self, o: Self) -> Self {
        with(|s| match (s.val(self), s.val(o)) {
            (Val::NaN, _) | (_, Val::NaN) => NaN,
            (Val::F(y), Val::F(x)) => {
                let r = s.atan2f(&y, &x);
                s.putf(r)
            }
            (Val::F(y), i) => {
                let p = s.pi_atom();
                if matches!(i, Val::PInf) {
                    R(0, 1)
                } else if s.decide(&y, Op::Ge) {
                    s.putf(Frac::atom(p))
                } else {
                    s.putf(Frac::atom(p).neg())
                }
            }
            (i, x) => {
                let p = s.pi_atom();
                let k = match x {
                    Val::F(_) => Q::new(1, 2),
                    Val::PInf => Q::new(1, 4),
                    _ => Q::new(3, 4),
                };
                let f = Frac::atom(p).scale(&k);
                s.putf(if matches!(i, Val::NInf) { f.neg() } else { f })
            }
        })
    }
    fn copysign(self, sign: Self) -> Self {
        let a = self.abs();
        let neg = match sign {
            NaN | PInf => false,
            NInf => true,
            _ => sign < R(0, 1),
        };
        if neg { -a } else { a }
    }
    fn floor(self) -> Self {
        self.un(|s, x| Val::F(Rc::new(s.floorf(&x))), PInf, NInf)
    }
    fn ceil(self) -> Self {
        -((-self).floor())
    }
    fn round(self) -> Self {
        self.un(|s, x| Val::F(Rc::new(s.roundf(&x))), PInf, NInf)
    }
    fn trunc(self) -> Self {
        if !self.is_num() {
            return self;
        }
        if self < R(0, 1) { self.ceil() } else { self.floor() }
    }
    fn clamp(self, min: Sym, max: Sym) -> Self {
        if matches!(min, NaN) || matches!(max, NaN) || min > max {
            panic!("clamp: min > max, or either was NaN");
        }
        if self < min {
            min
        } else if self > max {
            max
        } else {
            self
        }
    }
    fn signum(self) -> Self {
        match self {
            NaN => NaN,
            PInf => R(1, 1),
            NInf => R(-1, 1),
            _ => {
                if self < R(0, 1) { R(-1, 1) } else { R(1, 1) }
            }
        }
    }
    fn max(self, o: Self) -> Self {
        if matches!(self, NaN) {
            return o;
        }
        if matches!(o, NaN) {
            return self;
        }
        if let Some(r) = merge2(self, o, Kind::Max2) {
            return r;
        }
        if self > o { self } else { o }
    }
    fn min(self, o: Self) -> Self {
        if matches!(self, NaN) {
            return o;
        }
        if matches!(o, NaN) {
            return self;
        }
        if let Some(r) = merge2(self, o, Kind::Min2) {
            return r;
        }
        if self < o { self } else { o }
    }
    fn hypot(self, o: Self) -> Self {
        if matches!(self, PInf | NInf) || matches!(o, PInf | NInf) {
            return PInf;
        }
        (self * self + o * o).sqrt()
    }
    fn is_nan(self) -> bool {
        matches!(self, NaN)
    }
    fn is_finite(self) -> bool {
        self.is_num()
    }
    fn is_infinite(self) -> bool {
        matches!(self, PInf | NInf)
    }
}
/// how far from zero a rounded value is followed when it is projected to a machine number
const MAX_WHOLE: i64 = 24;
/// The whole number a rounded value is, found by comparing what was rounded with each in turn: one
/// path per whole number it can be.
fn whole(kind: Kind, g: Sym) -> f64 {
    let half = |k: i64| with(|s| s.putf(Frac::konst(Q::new(2 * k + 1, 2))));
    let int = |k: i64| with(|s| s.putf(Frac::konst(Q::new(k as i128 as i64, 1))));
    let up = !(g < int(0));
    for k in 0..MAX_WHOLE {
        let (inside, k) = match (&kind, up) {
            (Kind::Floor, true) => (g < int(k + 1), k),
            (Kind::Floor, false) => (g >= int(-k - 1), -k - 1),
            (_, true) => (g < half(k), k),
            (_, false) => (g > half(-k - 1), -k),
        };
        if inside {
            return k as f64;
        }
    }
    std::panic::panic_any(Abandon("projection to f64 of a rounded value far from zero"))
}
impl Primal for Sym {
    fn to_f64(&self) -> f64 {
        let (sign, shift, kind, g) = match with(|s| match s.val(*self) {
            Val::NaN => Err(f64::NAN),
            Val::PInf => Err(f64::INFINITY),
            Val::NInf => Err(f64::NEG_INFINITY),
            Val::F(f) => {
                if let Some(q) = f.as_const() {
                    return Err(q.to_f64());
                }
                // a rounded value, up to sign and a constant
                let (mut shift, mut atom) = (Q::zero(), None);
                for (m, q) in &f.num.t {
                    match m.as_slice() {
                        [] => shift = q.clone(),
                        [(a, 1)] if atom.is_none() && matches!(s.atoms[*a as usize].kind, Kind::Floor | Kind::Round) => atom = Some((*a, q.to_f64())),
                        _ => {
                            atom = None;
                            break;
                        }
                    }
                }
                match atom {
                    Some((a, q)) if q.abs() == 1.0 && f.den.is_empty() => {
                        let kind = s.atoms[a as usize].kind.clone();
                        let g = (*s.atoms[a as usize].args[0]).clone();
                        Ok((q, shift.to_f64(), kind, s.putf(g)))
                    }
                    _ => std::panic::panic_any(Abandon("projection of a symbolic value to f64")),
                }
            }
        }) {
            Ok(v) => v,
            Err(v) => return v,
        };
        sign * whole(kind, g) + shift
    }
    fn to_f32(&self) -> f32 {
        self.to_f64() as f32
    }
}
impl RandomScalar for Sym {
    fn next_unit<R: RandomSource<Self> + ?Sized>(_s: &mut R) -> Self {
        crate::cx::fresh_unit()
    }
}
