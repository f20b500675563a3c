//! Polynomials and rational functions over atoms, with rewriting modulo atom relations.
use crate::q::Q;
use rustc_hash::FxHashMap;
use smallvec::SmallVec;
use std::cmp::Ordering;
use std::rc::Rc;

pub type Mono = SmallVec<[(u32, u16); 6]>;

/// Lexicographic, multiplicative: the smaller atom id is the more significant variable.
pub fn mcmp(a: &Mono, b: &Mono) -> Ordering {
    let mut i = 0;
    loop {
        match (a.get(i), b.get(i)) {
            (None, None) => return Ordering::Equal,
            (Some(_), None) => return Ordering::Greater,
            (None, Some(_)) => return Ordering::Less,
            (Some(x), Some(y)) => {
                if x.0 < y.0 {
                    return Ordering::Greater;
                }
                if x.0 > y.0 {
                    return Ordering::Less;
                }
                match x.1.cmp(&y.1) {
                    Ordering::Equal => i += 1,
                    o => return o,
                }
            }
        }
    }
}
pub fn mmul(a: &Mono, b: &Mono) -> Mono {
    let mut r = Mono::new();
    let (mut i, mut j) = (0, 0);
    while i < a.len() || j < b.len() {
        if j >= b.len() || (i < a.len() && a[i].0 < b[j].0) {
            r.push(a[i]);
            i += 1;
        } else if i >= a.len() || b[j].0 < a[i].0 {
            r.push(b[j]);
            j += 1;
        } else {
            r.push((a[i].0, a[i].1 + b[j].1));
            i += 1;
            j += 1;
        }
    }
    r
}
pub fn mdiv(a: &Mono, b: &Mono) -> Option<Mono> {
    let mut r = Mono::new();
    let mut j = 0;
    for &(x, e) in a {
        if j < b.len() && b[j].0 == x {
            if b[j].1 > e {
                return None;
            }
            if e > b[j].1 {
                r.push((x, e - b[j].1));
            }
            j += 1;
        } else if j < b.len() && b[j].0 < x {
            return None;
        } else {
            r.push((x, e));
        }
    }
    if j < b.len() { None } else { Some(r) }
}

#[derive(Clone, PartialEq, Eq, Hash, Default)]
pub struct Poly {
    /// ascending by `mcmp`, no zero coefficient
    pub t: Vec<(Mono, Q)>,
}
impl Poly {
    pub fn zero() -> Poly {
        Poly { t: vec![] }
    }
    pub fn konst(q: Q) -> Poly {
        if q.is_zero() { Poly::zero() } else { Poly { t: vec![(Mono::new(), q)] } }
    }
    pub fn atom(a: u32) -> Poly {
        let mut m = Mono::new();
        m.push((a, 1));
        Poly { t: vec![(m, Q::one())] }
    }
    pub fn is_zero(&self) -> bool {
        self.t.is_empty()
    }
    pub fn as_const(&self) -> Option<Q> {
        match self.t.len() {
            0 => Some(Q::zero()),
            1 if self.t[0].0.is_empty() => Some(self.t[0].1.clone()),
            _ => None,
        }
    }
    pub fn neg(&self) -> Poly {
        Poly { t: self.t.iter().map(|(m, q)| (m.clone(), q.neg())).collect() }
    }
    pub fn scale(&self, k: &Q) -> Poly {
        if k.is_zero() {
            return Poly::zero();
        }
        if k.is_one() {
            return self.clone();
        }
        Poly { t: self.t.iter().map(|(m, q)| (m.clone(), q.mul(k))).collect() }
    }
    pub fn add(&self, o: &Poly) -> Poly {
        let (a, b) = (&self.t, &o.t);
        let mut r = Vec::with_capacity(a.len() + b.len());
        let (mut i, mut j) = (0, 0);
        while i < a.len() && j < b.len() {
            match mcmp(&a[i].0, &b[j].0) {
                Ordering::Less => {
                    r.push(a[i].clone());
                    i += 1;
                }
                Ordering::Greater => {
                    r.push(b[j].clone());
                    j += 1;
                }
                Ordering::Equal => {
                    let q = a[i].1.add(&b[j].1);
                    if !q.is_zero() {
                        r.push((a[i].0.clone(), q));
                    }
                    i += 1;
                    j += 1;
                }
            }
        }
        r.extend_from_slice(&a[i..]);
        r.extend_from_slice(&b[j..]);
        Poly { t: r }
    }
    pub fn sub(&self, o: &Poly) -> Poly {
        self.add(&o.neg())
    }
    pub fn from_map(m: FxHashMap<Mono, Q>) -> Poly {
        let mut t: Vec<(Mono, Q)> = m.into_iter().filter(|(_, q)| !q.is_zero()).collect();
        t.sort_by(|a, b| mcmp(&a.0, &b.0));
        Poly { t }
    }
    pub fn mul(&self, o: &Poly) -> Poly {
        if self.is_zero() || o.is_zero() {
            return Poly::zero();
        }
        if let Some(k) = self.as_const() {
            return o.scale(&k);
        }
        if let Some(k) = o.as_const() {
            return self.scale(&k);
        }
        let mut m: FxHashMap<Mono, Q> = FxHashMap::default();
        for (a, qa) in &self.t {
            for (b, qb) in &o.t {
                let p = qa.mul(qb);
                let k = mmul(a, b);
                match m.get_mut(&k) {
                    Some(v) => *v = v.add(&p),
                    None => {
                        m.insert(k, p);
                    }
                }
            }
        }
        Poly::from_map(m)
    }
    pub fn mono_mul(&self, m: &Mono, k: &Q) -> Poly {
        // multiplicative order keeps the terms sorted
        Poly { t: self.t.iter().map(|(a, q)| (mmul(a, m), q.mul(k))).collect() }
    }
    pub fn try_div(&self, f: &Poly) -> Option<Poly> {
        if self.is_zero() {
            return Some(Poly::zero());
        }
        let (fl, fq) = f.t.last()?;
        let (fm, _) = f.t.first()?;
        mdiv(&self.t.last()?.0, fl)?;
        mdiv(&self.t.first()?.0, fm)?;
        if f.t.len() == 1 {
            let k = fq.inv();
            let mut r = Vec::with_capacity(self.t.len());
            for (m, q) in &self.t {
                r.push((mdiv(m, fl)?, q.mul(&k)));
            }
            return Some(Poly { t: r });
        }
        if self.t.len() < f.t.len() {
            return None;
        }
        let fi = fq.inv();
        let mut r = self.clone();
        let mut q: Vec<(Mono, Q)> = vec![];
        let mut steps = 0;
        while let Some((lm, lq)) = r.t.last() {
            let m = mdiv(lm, fl)?;
            let k = lq.mul(&fi);
            r = r.sub(&f.mono_mul(&m, &k));
            q.push((m, k));
            steps += 1;
            if steps > 3000 {
                return None;
            }
        }
        q.reverse();
        Some(Poly { t: q })
    }
    /// (content sign and size as the leading coefficient, common monomial, monic primitive rest)
    pub fn split(&self) -> (Q, Mono, Poly) {
        let lead = self.t.last().unwrap().1.clone();
        let mut common: Mono = self.t[0].0.clone();
        for (m, _) in &self.t[1..] {
            let mut c = Mono::new();
            for &(a, e) in &common {
                if let Some(&(_, e2)) = m.iter().find(|p| p.0 == a) {
                    c.push((a, e.min(e2)));
                }
            }
            common = c;
            if common.is_empty() {
                break;
            }
        }
        let li = lead.inv();
        let t = self.t.iter().map(|(m, q)| (mdiv(m, &common).unwrap(), q.mul(&li))).collect();
        (lead, common, Poly { t })
    }
    pub fn pow(&self, k: u32) -> Poly {
        let mut r = Poly::konst(Q::one());
        for _ in 0..k {
            r = r.mul(self);
        }
        r
    }
    pub fn atoms(&self, out: &mut Vec<u32>) {
        for (m, _) in &self.t {
            for &(a, _) in m {
                if !out.contains(&a) {
                    out.push(a);
                }
            }
        }
    }
    pub fn max_coef(&self) -> f64 {
        self.t.iter().map(|(_, q)| q.to_f64().abs()).fold(0.0, f64::max)
    }
}

#[derive(Clone, PartialEq, Eq, Hash)]
pub struct Frac {
    pub num: Poly,
    /// (factor id, power), sorted by id
    pub den: Vec<(u32, u16)>,
}
impl Frac {
    pub fn konst(q: Q) -> Frac {
        Frac { num: Poly::konst(q), den: vec![] }
    }
    pub fn atom(a: u32) -> Frac {
        Frac { num: Poly::atom(a), den: vec![] }
    }
    pub fn poly(p: Poly) -> Frac {
        Frac { num: p, den: vec![] }
    }
    pub fn as_const(&self) -> Option<Q> {
        if self.den.is_empty() { self.num.as_const() } else { None }
    }
    pub fn is_zero(&self) -> bool {
        self.num.is_zero()
    }
    pub fn neg(&self) -> Frac {
        Frac { num: self.num.neg(), den: self.den.clone() }
    }
    pub fn scale(&self, k: &Q) -> Frac {
        if k.is_zero() {
            return Frac::konst(Q::zero());
        }
        Frac { num: self.num.scale(k), den: self.den.clone() }
    }
}

pub struct Rel {
    pub pow: u16,
    pub rhs: Frac,
}

/// Factor table and relation table: everything rational-function arithmetic needs.
#[derive(Default)]
pub struct Alg {
    pub factors: Vec<Rc<Poly>>,
    pub fmap: FxHashMap<Poly, u32>,
    pub rels: Vec<Option<Rc<Rel>>>,
    pub any_rel: bool,
    pub max_terms: usize,
}
pub struct Budget;

impl Alg {
    fn guard(&self, p: &Poly) {
        if p.t.len() > self.max_terms {
            std::panic::panic_any(Budget);
        }
    }
    pub fn factor(&mut self, p: &Poly) -> u32 {
        if let Some(&i) = self.fmap.get(p) {
            return i;
        }
        let i = self.factors.len() as u32;
        self.factors.push(Rc::new(p.clone()));
        self.fmap.insert(p.clone(), i);
        i
    }
    fn top_reducible(&self, p: &Poly) -> Option<u32> {
        if !self.any_rel {
            return None;
        }
        let mut best: Option<u32> = None;
        for (m, _) in &p.t {
            for &(a, e) in m.iter().rev() {
                if best.is_some_and(|b| a <= b) {
                    break;
                }
                if let Some(Some(r)) = self.rels.get(a as usize) {
                    if e >= r.pow {
                        best = Some(a);
                        break;
                    }
                }
            }
        }
        best
    }
    /// Rewrites a polynomial until no atom appears at or above its relation's power.
    pub fn reduce(&mut self, p: Poly) -> Frac {
        self.guard(&p);
        let Some(a) = self.top_reducible(&p) else { return Frac::poly(p) };
        let rel = self.rels[a as usize].clone().unwrap();
        let k = rel.pow;
        let mut groups: Vec<(u16, Vec<(Mono, Q)>)> = vec![];
        for (m, q) in p.t {
            let e = m.iter().find(|x| x.0 == a).map(|x| x.1).unwrap_or(0);
            let (d, r) = (e / k, e % k);
            let mut m2 = Mono::new();
            for &(b, f) in &m {
                if b == a {
                    if r > 0 {
                        m2.push((a, r));
                    }
                } else {
                    m2.push((b, f));
                }
            }
            match groups.iter_mut().find(|g| g.0 == d) {
                Some(g) => g.1.push((m2, q)),
                None => groups.push((d, vec![(m2, q)])),
            }
        }
        groups.sort_by_key(|g| g.0);
        let mut acc = Frac::konst(Q::zero());
        let mut powf = Frac::konst(Q::one());
        let mut at = 0;
        for (d, ts) in groups {
            while at < d {
                powf = self.mul(&powf, &rel.rhs);
                at += 1;
            }
            let mut mm: FxHashMap<Mono, Q> = FxHashMap::default();
            for (m, q) in ts {
                let e = mm.entry(m).or_insert_with(Q::zero);
                *e = e.add(&q);
            }
            let g = Frac::poly(Poly::from_map(mm));
            let gp = if d == 0 { g } else { self.mul(&g, &powf) };
            acc = self.add(&acc, &gp);
        }
        // lower atoms may still be reducible
        if self.top_reducible(&acc.num).is_some() {
            let r = self.reduce(acc.num);
            let f = Frac { num: r.num, den: merge(&acc.den, &r.den) };
            return self.cancel(f);
        }
        acc
    }
    pub fn cancel(&mut self, mut f: Frac) -> Frac {
        if f.num.is_zero() {
            f.den.clear();
            return f;
        }
        if f.den.is_empty() {
            return f;
        }
        let mut i = 0;
        while i < f.den.len() {
            let p = self.factors[f.den[i].0 as usize].clone();
            while f.den[i].1 > 0 {
                match f.num.try_div(&p) {
                    Some(q) => {
                        f.num = q;
                        f.den[i].1 -= 1;
                    }
                    None => break,
                }
            }
            i += 1;
        }
        f.den.retain(|d| d.1 > 0);
        f
    }
    pub fn mul(&mut self, a: &Frac, b: &Frac) -> Frac {
        if a.is_zero() || b.is_zero() {
            return Frac::konst(Q::zero());
        }
        if let Some(k) = a.as_const() {
            return b.scale(&k);
        }
        if let Some(k) = b.as_const() {
            return a.scale(&k);
        }
        if a.num.t.len() * b.num.t.len() > self.max_terms * 40 {
            std::panic::panic_any(Budget);
        }
        // cancel crosswise before multiplying
        let a1 = self.cancel(Frac { num: a.num.clone(), den: b.den.clone() });
        let b1 = self.cancel(Frac { num: b.num.clone(), den: a.den.clone() });
        let r = self.reduce(a1.num.mul(&b1.num));
        let den = merge(&merge(&a1.den, &b1.den), &r.den);
        self.cancel(Frac { num: r.num, den })
    }
    pub fn add(&mut self, a: &Frac, b: &Frac) -> Frac {
        if a.is_zero() {
            return b.clone();
        }
        if b.is_zero() {
            return a.clone();
        }
        if a.den == b.den {
            let f = Frac { num: a.num.add(&b.num), den: a.den.clone() };
            self.guard(&f.num);
            return if f.den.is_empty() { f } else { self.cancel(f) };
        }
        let l = lcm(&a.den, &b.den);
        let ka = self.expand(&diff(&l, &a.den));
        let kb = self.expand(&diff(&l, &b.den));
        let s = a.num.mul(&ka).add(&b.num.mul(&kb));
        let r = self.reduce(s);
        let den = merge(&l, &r.den);
        self.cancel(Frac { num: r.num, den })
    }
    pub fn sub(&mut self, a: &Frac, b: &Frac) -> Frac {
        let n = b.neg();
        self.add(a, &n)
    }
    pub fn expand(&mut self, d: &[(u32, u16)]) -> Poly {
        let mut p = Poly::konst(Q::one());
        for &(f, k) in d {
            let q = self.factors[f as usize].clone();
            for _ in 0..k {
                p = p.mul(&q);
                self.guard(&p);
            }
        }
        p
    }
    /// Reciprocal of a non-zero rational function (the caller has established `a != 0`).
    pub fn inv(&mut self, a: &Frac) -> Frac {
        let num = self.expand(&a.den);
        let r = self.reduce(num);
        let (lead, mono, prim) = a.num.split();
        let mut out = Frac { num: r.num.scale(&lead.inv()), den: r.den };
        for &(at, e) in &mono {
            // 1/s^e = s^(pow-e)/rhs for an atom with a relation s^pow = rhs
            let rel = self.rels.get(at as usize).cloned().flatten();
            match rel {
                Some(rel) if rel.pow == 2 && e == 1 => {
                    let ri = self.inv(&rel.rhs);
                    let s = Frac::atom(at);
                    let t = self.mul(&s, &ri);
                    out = self.mul(&out, &t);
                }
                _ => {
                    let f = self.factor(&Poly::atom(at));
                    out = Frac { num: out.num, den: merge(&out.den, &[(f, e)]) };
                    out = self.cancel(out);
                }
            }
        }
        if prim.as_const().is_none() {
            // split off already-known factors so that common denominators are recognised
            let mut rest = prim;
            let mut den: Vec<(u32, u16)> = vec![];
            if !self.fmap.contains_key(&rest) && rest.t.len() < 400 {
                for i in 0..self.factors.len().min(60) {
                    let f = self.factors[i].clone();
                    if f.t.len() < 2 || f.t.len() > rest.t.len() {
                        continue;
                    }
                    while rest.as_const().is_none() {
                        match rest.try_div(&f) {
                            Some(q) => {
                                rest = q;
                                den = merge(&den, &[(i as u32, 1)]);
                            }
                            None => break,
                        }
                    }
                }
            }
            if let Some(c) = rest.as_const() {
                out = out.scale(&c.inv());
            } else {
                let (l2, m2, p2) = rest.split();
                debug_assert!(m2.is_empty());
                out = out.scale(&l2.inv());
                let f = self.factor(&p2);
                den = merge(&den, &[(f, 1)]);
            }
            out = Frac { num: out.num, den: merge(&out.den, &den) };
            out = self.cancel(out);
        }
        out
    }
    pub fn pow(&mut self, a: &Frac, k: u32) -> Frac {
        let mut r = Frac::konst(Q::one());
        for _ in 0..k {
            r = self.mul(&r, a);
        }
        r
    }
}
pub fn merge(a: &[(u32, u16)], b: &[(u32, u16)]) -> Vec<(u32, u16)> {
    let mut r: Vec<(u32, u16)> = a.to_vec();
    for &(f, k) in b {
        match r.iter_mut().find(|x| x.0 == f) {
            Some(x) => x.1 += k,
            None => r.push((f, k)),
        }
    }
    r.sort();
    r
}
fn lcm(a: &[(u32, u16)], b: &[(u32, u16)]) -> Vec<(u32, u16)> {
    let mut r: Vec<(u32, u16)> = a.to_vec();
    for &(f, k) in b {
        match r.iter_mut().find(|x| x.0 == f) {
            Some(x) => x.1 = x.1.max(k),
            None => r.push((f, k)),
        }
    }
    r.sort();
    r
}
fn diff(a: &[(u32, u16)], b: &[(u32, u16)]) -> Vec<(u32, u16)> {
    a.iter()
        .filter_map(|&(f, k)| {
            let kb = b.iter().find(|x| x.0 == f).map(|x| x.1).unwrap_or(0);
            (k > kb).then_some((f, k - kb))
        })
        .collect()
}
