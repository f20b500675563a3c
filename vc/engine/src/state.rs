//! Per-path symbolic state: atoms, path condition, sign facts, samples, forking.
use crate::poly::*;
use crate::q::Q;
use crate::smt::{Ans, Smt};
use rustc_hash::{FxHashMap, FxHashSet};
use std::cell::RefCell;
use std::rc::Rc;
use std::time::{Duration, Instant};

#[derive(Clone, PartialEq, Debug)]
pub enum Kind {
    Var,
    Opaque,
    Pi,
    Max,
    Sqrt,
    Cbrt,
    Abs,
    Sin,
    Cos,
    Exp,
    Log,
    Atan2,
    Floor,
    Round,
    Max2,
    Min2,
}
pub struct Atom {
    pub name: String,
    pub kind: Kind,
    pub args: Vec<Rc<Frac>>,
    pub mask: u8,
}
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Op {
    Gt,
    Ge,
    Eq,
    Ne,
    Lt,
    Le,
}
impl Op {
    pub fn not(self) -> Op {
        match self {
            Op::Gt => Op::Le,
            Op::Ge => Op::Lt,
            Op::Eq => Op::Ne,
            Op::Ne => Op::Eq,
            Op::Lt => Op::Ge,
            Op::Le => Op::Gt,
        }
    }
    pub fn flip(self) -> Op {
        match self {
            Op::Gt => Op::Lt,
            Op::Ge => Op::Le,
            Op::Lt => Op::Gt,
            Op::Le => Op::Ge,
            o => o,
        }
    }
    pub fn mask(self) -> u8 {
        match self {
            Op::Lt => 1,
            Op::Eq => 2,
            Op::Gt => 4,
            Op::Le => 3,
            Op::Ge => 6,
            Op::Ne => 5,
        }
    }
}
/// product of polynomials compared with zero
#[derive(Clone)]
pub struct Con {
    pub prods: Vec<Rc<Poly>>,
    pub op: Op,
}
#[derive(Clone)]
pub enum Form {
    B(bool),
    C(Con),
    And(Vec<Form>),
    Or(Vec<Form>),
    Not(Box<Form>),
}
#[derive(Clone)]
pub enum Val {
    F(Rc<Frac>),
    NaN,
    PInf,
    NInf,
}
pub struct Abandon(pub &'static str);

#[derive(Clone)]
pub struct Sample {
    pub seed: u64,
    pub given: Rc<FxHashMap<String, f64>>,
    pub vals: Vec<f64>,
    pub alive: bool,
}
#[derive(Clone)]
pub struct Pending {
    pub dec: Vec<u8>,
    pub wit: Option<Rc<FxHashMap<String, f64>>>,
}
#[derive(Clone, Debug, PartialEq)]
pub enum Status {
    Proved(&'static str),
    Refuted(&'static str),
    Undecided(String),
}
#[derive(Clone)]
pub struct Oblig {
    pub name: String,
    pub status: Status,
    pub model: Vec<(String, f64)>,
    pub choices: Vec<(String, usize)>,
    pub detail: String,
}
pub struct Cfg {
    pub feas_ms: u64,
    pub proof_ms: u64,
    pub max_paths: usize,
    pub limit: Duration,
    pub nsamples: usize,
}
pub struct St {
    pub alg: Alg,
    pub atoms: Vec<Atom>,
    pub nodes: Vec<Val>,
    pub pc: Vec<Form>,
    pub facts: FxHashMap<Poly, u8>,
    pub samples: Vec<Sample>,
    pub dec: Vec<u8>,
    pub pos: usize,
    pub pending: Vec<Pending>,
    pub choices: Vec<(String, usize)>,
    pub names: FxHashMap<String, u32>,
    pub angle_div: i64,
    pub merge: bool,
    pub pi: Option<u32>,
    pub maxa: Option<u32>,
    pub witness: Option<Rc<FxHashMap<String, f64>>>,
    pub forks: u64,
    // across paths
    pub smt: Smt,
    pub cfg: Cfg,
    pub obligs: Vec<Oblig>,
    pub proved: FxHashMap<String, [u64; 4]>,
    pub failed: FxHashMap<String, u64>,
    pub rescues: u32,
    pub start: Instant,
    pub rng: u64,
    pub seed: u64,
    pub notes: FxHashSet<String>,
    pub nbranch: u64,
}
thread_local! {
    pub static ST: RefCell<St> = RefCell::new(St::new());
}
pub fn with<R>(f: impl FnOnce(&mut St) -> R) -> R {
    ST.with(|s| f(&mut s.borrow_mut()))
}
pub fn hash64(mut x: u64) -> u64 {
    x = x.wrapping_add(0x9E3779B97F4A7C15);
    x = (x ^ (x >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    x = (x ^ (x >> 27)).wrapping_mul(0x94D049BB133111EB);
    x ^ (x >> 31)
}
pub fn hash_str(s: &str) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for b in s.bytes() {
        h = (h ^ b as u64).wrapping_mul(0x100000001b3);
    }
    hash64(h)
}
/// A pseudo-random real for a variable: a mix of scales, with small integers now and then.
pub fn random_real(h: u64) -> f64 {
    let k = h % 16;
    let u = (hash64(h ^ 0x55) >> 11) as f64 / (1u64 << 53) as f64; // [0,1)
    let s = if hash64(h ^ 0x77) & 1 == 0 { 1.0 } else { -1.0 };
    match k {
        0 => ((u * 7.0).floor() - 3.0) as f64,
        1 => s * u * 30.0,
        2 => s * u * 0.05,
        3 => s * (u * 3.0 + 1.0),
        4..=7 => s * u,
        _ => s * u * 3.0,
    }
}
impl St {
    pub fn new() -> St {
        St {
            alg: Alg { max_terms: 6000, ..Default::default() },
            atoms: vec![],
            nodes: vec![],
            pc: vec![],
            facts: Default::default(),
            samples: vec![],
            dec: vec![],
            pos: 0,
            pending: vec![],
            choices: vec![],
            names: Default::default(),
            angle_div: 1,
            merge: false,
            pi: None,
            maxa: None,
            witness: None,
            forks: 0,
            smt: Smt::default(),
            cfg: Cfg {
                feas_ms: 300,
                proof_ms: 8000,
                max_paths: 4000,
                limit: Duration::from_secs(150),
                nsamples: 12,
            },
            obligs: vec![],
            proved: Default::default(),
            failed: Default::default(),
            rescues: 8,
            start: Instant::now(),
            rng: 1,
            seed: 1,
            notes: Default::default(),
            nbranch: 0,
        }
    }
    pub fn reset_path(&mut self, p: Pending) {
        let mt = self.alg.max_terms;
        self.alg = Alg { max_terms: mt, ..Default::default() };
        self.atoms.clear();
        self.nodes.clear();
        self.pc.clear();
        self.facts.clear();
        self.samples.clear();
        self.choices.clear();
        self.names.clear();
        self.pos = 0;
        self.pi = None;
        self.maxa = None;
        self.angle_div = 1;
        self.merge = false;
        self.forks = 0;
        self.rng = hash64(self.seed);
        let empty: Rc<FxHashMap<String, f64>> = Rc::new(FxHashMap::default());
        for i in 0..self.cfg.nsamples {
            self.samples.push(Sample {
                seed: hash64(self.seed.wrapping_mul(1000) + i as u64),
                given: empty.clone(),
                vals: vec![],
                alive: true,
            });
        }
        if let Some(w) = &p.wit {
            self.samples.push(Sample { seed: hash64(self.seed + 77), given: w.clone(), vals: vec![], alive: true });
        }
        self.witness = p.wit.clone();
        self.dec = p.dec;
    }
    // ---- atoms
    pub fn new_atom(&mut self, name: String, kind: Kind, args: Vec<Rc<Frac>>, mask: u8, rel: Option<Rel>) -> u32 {
        let id = self.atoms.len() as u32;
        let mut vals = vec![];
        for i in 0..self.samples.len() {
            let v = if self.samples[i].alive { self.atom_sample(i, &name, &kind, &args, mask) } else { f64::NAN };
            vals.push(v);
        }
        for (i, v) in vals.into_iter().enumerate() {
            self.samples[i].vals.push(v);
        }
        self.atoms.push(Atom { name, kind, args, mask });
        self.alg.rels.push(rel.map(|r| {
            self.alg.any_rel = true;
            Rc::new(r)
        }));
        id
    }
    fn atom_sample(&self, i: usize, name: &str, kind: &Kind, args: &[Rc<Frac>], mask: u8) -> f64 {
        let s = &self.samples[i];
        let a = |k: usize| self.eval(i, &args[k]).0;
        match kind {
            Kind::Var => {
                if let Some(v) = s.given.get(name) {
                    return *v;
                }
                let v = random_real(s.seed ^ hash_str(name));
                if mask & 1 == 0 { v.abs() + if mask & 2 == 0 { 1e-3 } else { 0.0 } } else { v }
            }
            Kind::Opaque => {
                if let Some(v) = s.given.get(name) {
                    return *v;
                }
                let mut h = s.seed ^ hash_str(name.split('#').next().unwrap_or(""));
                for k in 0..args.len() {
                    h = hash64(h ^ a(k).to_bits());
                }
                let v = random_real(h);
                if mask & 1 == 0 { v.abs() + if mask & 2 == 0 { 1e-3 } else { 0.0 } } else { v }
            }
            Kind::Pi => std::f64::consts::PI,
            Kind::Max => f64::MAX,
            Kind::Sqrt => {
                let v = a(0);
                if v < 0.0 && v > -1e-12 { 0.0 } else { v.sqrt() }
            }
            Kind::Cbrt => a(0).cbrt(),
            Kind::Abs => a(0).abs(),
            Kind::Sin => a(0).sin(),
            Kind::Cos => a(0).cos(),
            Kind::Exp => a(0).exp(),
            Kind::Log => a(0).ln(),
            Kind::Atan2 => a(0).atan2(a(1)),
            Kind::Floor => a(0).floor(),
            Kind::Round => a(0).round(),
            Kind::Max2 => a(0).max(a(1)),
            Kind::Min2 => a(0).min(a(1)),
        }
    }
    pub fn eval_poly(&self, i: usize, p: &Poly) -> (f64, f64) {
        let s = &self.samples[i];
        let (mut v, mut sc) = (0.0, 0.0);
        for (m, q) in &p.t {
            let mut x = q.to_f64();
            for &(a, e) in m {
                x *= s.vals[a as usize].powi(e as i32);
            }
            v += x;
            sc += x.abs();
        }
        (v, sc)
    }
    pub fn eval(&self, i: usize, f: &Frac) -> (f64, f64) {
        let (mut v, mut sc) = self.eval_poly(i, &f.num);
        for &(d, k) in &f.den {
            let (x, _) = self.eval_poly(i, &self.alg.factors[d as usize]);
            v /= x.powi(k as i32);
            sc /= x.abs().powi(k as i32);
        }
        (v, sc)
    }
    // ---- sign masks: 1 negative, 2 zero, 4 positive
    fn mono_mask(&self, m: &Mono) -> u8 {
        let mut r = 4u8;
        for &(a, e) in m {
            let mut am = self.atoms[a as usize].mask;
            if let Some(k) = self.facts.get(&Poly::atom(a)) {
                am &= *k;
            }
            let am = if e % 2 == 0 { (am & 2) | if am & 5 != 0 { 4 } else { 0 } } else { am };
            r = mul_mask(r, am);
        }
        r
    }
    pub fn mask(&self, p: &Poly) -> u8 {
        if p.is_zero() {
            return 2;
        }
        let (lead, common, prim) = p.split();
        let mut r = if lead.sign() > 0 { 4 } else { 1 };
        r = mul_mask(r, self.mono_mask(&common));
        if prim.as_const().is_some() {
            return r;
        }
        let mut pm = 0u8;
        let (mut all_nn, mut all_np, mut strict) = (true, true, false);
        for (m, q) in &prim.t {
            let mut mm = self.mono_mask(m);
            if q.sign() < 0 {
                mm = neg_mask(mm);
            }
            if mm & 1 != 0 {
                all_nn = false;
            }
            if mm & 4 != 0 {
                all_np = false;
            }
            if mm & 2 == 0 {
                strict = true;
            }
        }
        if all_nn {
            pm |= if strict { 4 } else { 6 };
        } else if all_np {
            pm |= if strict { 1 } else { 3 };
        } else {
            pm = 7;
        }
        if let Some(k) = self.facts.get(&prim) {
            pm &= *k;
        }
        if pm == 7 && prim.t.len() == 2 {
            // e^2 - f^2 style: a^2 - b^2 with both known nonnegative follows a - b; skip
        }
        mul_mask(r, pm)
    }
    pub fn mask_prods(&self, ps: &[Rc<Poly>]) -> u8 {
        let mut r = 4;
        for p in ps {
            r = mul_mask(r, self.mask(p));
        }
        r
    }
    pub fn con(&mut self, f: &Frac, op: Op) -> Form {
        let mut prods = vec![];
        let mut op = op;
        let num = self.alg.reduce(f.num.clone());
        let den = merge(&f.den, &num.den);
        prods.push(Rc::new(num.num));
        for (d, k) in den {
            if k % 2 == 1 {
                let p = self.alg.factors[d as usize].clone();
                match self.mask(&p) & 5 {
                    4 => {}
                    1 => op = op.flip(),
                    _ => {
                        if !matches!(op, Op::Eq | Op::Ne) {
                            prods.push(p)
                        }
                    }
                }
            }
        }
        let m = self.mask_prods(&prods);
        if m & op.mask() == m {
            return Form::B(true);
        }
        if m & op.mask() == 0 {
            return Form::B(false);
        }
        Form::C(Con { prods, op })
    }
    /// Truth of a formula at a sample; `None` when too close to call.
    pub fn form_at(&self, i: usize, f: &Form) -> Option<bool> {
        match f {
            Form::B(b) => Some(*b),
            Form::C(c) => {
                let (mut v, mut amb) = (1.0, false);
                for p in &c.prods {
                    let (x, s) = self.eval_poly(i, p);
                    if !x.is_finite() {
                        return None;
                    }
                    if x != 0.0 && x.abs() <= 1e-9 * s {
                        amb = true;
                    }
                    v *= if x > 0.0 {
                        1.0
                    } else if x < 0.0 {
                        -1.0
                    } else {
                        0.0
                    };
                }
                if amb {
                    return None;
                }
                let m = if v > 0.0 {
                    4
                } else if v < 0.0 {
                    1
                } else {
                    2
                };
                Some(m & c.op.mask() != 0)
            }
            Form::And(v) => {
                let mut r = Some(true);
                for x in v {
                    match self.form_at(i, x) {
                        Some(false) => return Some(false),
                        None => r = None,
                        _ => {}
                    }
                }
                r
            }
            Form::Or(v) => {
                let mut r = Some(false);
                for x in v {
                    match self.form_at(i, x) {
                        Some(true) => return Some(true),
                        None => r = None,
                        _ => {}
                    }
                }
                r
            }
            Form::Not(x) => self.form_at(i, x).map(|b| !b),
        }
    }
    // ---- SMT
    fn poly_smt(p: &Poly, atoms: &[Atom]) -> String {
        if p.is_zero() {
            return "0.0".into();
        }
        let mut ts = vec![];
        for (m, q) in &p.t {
            let mut fs = vec![];
            if !q.is_one() || m.is_empty() {
                fs.push(q.smt());
            }
            for &(a, e) in m {
                let n = match atoms[a as usize].kind {
                    Kind::Floor | Kind::Round => format!("(to_real a{a})"),
                    _ => format!("a{a}"),
                };
                for _ in 0..e {
                    fs.push(n.clone());
                }
            }
            ts.push(if fs.len() == 1 { fs.pop().unwrap() } else { format!("(* {})", fs.join(" ")) });
        }
        if ts.len() == 1 { ts.pop().unwrap() } else { format!("(+ {})", ts.join(" ")) }
    }
    fn form_smt(&self, f: &Form) -> String {
        match f {
            Form::B(b) => b.to_string(),
            Form::C(c) => {
                let e: Vec<String> = c.prods.iter().map(|p| Self::poly_smt(p, &self.atoms)).collect();
                let e = if e.len() == 1 { e[0].clone() } else { format!("(* {})", e.join(" ")) };
                match c.op {
                    Op::Gt => format!("(> {e} 0.0)"),
                    Op::Ge => format!("(>= {e} 0.0)"),
                    Op::Lt => format!("(< {e} 0.0)"),
                    Op::Le => format!("(<= {e} 0.0)"),
                    Op::Eq => format!("(= {e} 0.0)"),
                    Op::Ne => format!("(not (= {e} 0.0))"),
                }
            }
            Form::And(v) => {
                if v.is_empty() {
                    "true".into()
                } else {
                    format!("(and {})", v.iter().map(|x| self.form_smt(x)).collect::<Vec<_>>().join(" "))
                }
            }
            Form::Or(v) => {
                if v.is_empty() {
                    "false".into()
                } else {
                    format!("(or {})", v.iter().map(|x| self.form_smt(x)).collect::<Vec<_>>().join(" "))
                }
            }
            Form::Not(x) => format!("(not {})", self.form_smt(x)),
        }
    }
    fn form_atoms(f: &Form, out: &mut Vec<u32>) {
        match f {
            Form::B(_) => {}
            Form::C(c) => c.prods.iter().for_each(|p| p.atoms(out)),
            Form::And(v) | Form::Or(v) => v.iter().for_each(|x| Self::form_atoms(x, out)),
            Form::Not(x) => Self::form_atoms(x, out),
        }
    }
    fn frac_smt(&self, f: &Frac, q: &str, extra: &mut String) -> String {
        if f.den.is_empty() {
            return Self::poly_smt(&f.num, &self.atoms);
        }
        let mut d = vec![];
        for &(x, k) in &f.den {
            for _ in 0..k {
                d.push(Self::poly_smt(&self.alg.factors[x as usize], &self.atoms));
            }
        }
        extra.push_str(&format!(
            "(declare-const {q} Real)\n(assert (= (* {q} {}) {}))\n",
            d.join(" "),
            Self::poly_smt(&f.num, &self.atoms)
        ));
        q.to_string()
    }
    pub fn script(&self, forms: &[&Form]) -> (String, Vec<String>) {
        let mut need: Vec<u32> = vec![];
        for f in forms {
            Self::form_atoms(f, &mut need);
        }
        let mut i = 0;
        while i < need.len() {
            let a = need[i] as usize;
            let at = &self.atoms[a];
            let mut more = vec![];
            if !matches!(at.kind, Kind::Opaque) {
                for x in &at.args {
                    x.num.atoms(&mut more);
                    for &(d, _) in &x.den {
                        self.alg.factors[d as usize].atoms(&mut more);
                    }
                }
            }
            if matches!(at.kind, Kind::Var | Kind::Opaque) {
                if let Some(r) = &self.alg.rels[a] {
                    r.rhs.num.atoms(&mut more);
                    for &(d, _) in &r.rhs.den {
                        self.alg.factors[d as usize].atoms(&mut more);
                    }
                }
            }
            match at.kind {
                Kind::Sin => more.push(a as u32 + 1),
                Kind::Cos => more.push(a as u32 - 1),
                Kind::Atan2 => {
                    if let Some(p) = self.pi {
                        more.push(p)
                    }
                }
                _ => {}
            }
            for m in more {
                if !need.contains(&m) {
                    need.push(m);
                }
            }
            i += 1;
        }
        need.sort();
        let mut d = String::new();
        let mut ax = String::new();
        let mut vars = vec![];
        for &a in &need {
            let at = &self.atoms[a as usize];
            let int = matches!(at.kind, Kind::Floor | Kind::Round);
            d.push_str(&format!("(declare-const a{a} {})\n", if int { "Int" } else { "Real" }));
            if matches!(at.kind, Kind::Var | Kind::Opaque) {
                vars.push(format!("a{a}"));
                if let Some(r) = &self.alg.rels[a as usize] {
                    let v = self.frac_smt(&r.rhs, &format!("r{a}"), &mut ax);
                    let l = vec![format!("a{a}"); r.pow as usize].join(" ");
                    let l = if r.pow == 1 { l } else { format!("(* {l})") };
                    ax.push_str(&format!("(assert (= {l} {v}))\n"));
                }
            }
            match at.mask {
                4 => ax.push_str(&format!("(assert (> a{a} 0.0))\n")),
                6 => ax.push_str(&format!("(assert (>= a{a} 0.0))\n")),
                _ => {}
            }
            let arg = |k: usize, ax: &mut String| self.frac_smt(&at.args[k], &format!("q{a}_{k}"), ax);
            match at.kind {
                Kind::Var | Kind::Opaque => {}
                Kind::Pi => ax.push_str("(assert (and (> api 3.14159265358979) (< api 3.14159265358980)))\n".replace("api", &format!("a{a}")).as_str()),
                Kind::Max => ax.push_str(&format!("(assert (> a{a} 1000000000000000000000000000000.0))\n")),
                Kind::Sqrt => {
                    let x = arg(0, &mut ax);
                    ax.push_str(&format!("(assert (and (>= a{a} 0.0) (= (* a{a} a{a}) {x})))\n"));
                }
                Kind::Cbrt => {
                    let x = arg(0, &mut ax);
                    ax.push_str(&format!("(assert (= (* a{a} a{a} a{a}) {x}))\n"));
                }
                Kind::Abs => {
                    let x = arg(0, &mut ax);
                    ax.push_str(&format!("(assert (= a{a} (ite (>= {x} 0.0) {x} (- {x}))))\n"));
                }
                Kind::Sin => {
                    let c = a + 1;
                    ax.push_str(&format!(
                        "(assert (and (<= a{a} 1.0) (>= a{a} (- 1.0)) (= (+ (* a{a} a{a}) (* a{c} a{c})) 1.0)))\n"
                    ));
                    // sign and chord bounds, all linear in the angle
                    let t = arg(0, &mut ax);
                    ax.push_str(&format!("(assert (=> (and (> {t} 0.0) (< {t} 3.14159265)) (> a{a} 0.0)))\n"));
                    ax.push_str(&format!("(assert (=> (and (< {t} 0.0) (> {t} (- 3.14159265))) (< a{a} 0.0)))\n"));
                    ax.push_str(&format!("(assert (=> (and (>= {t} 0.0) (<= {t} 1.5708)) (>= a{a} (* 0.6366 {t}))))\n(assert (=> (and (>= {t} 0.0) (<= {t} 1.5707963)) (and (>= a{c} (- 1.0 (* 0.63662 {t}))) (<= a{a} {t}))))\n"));
                    ax.push_str(&format!("(assert (=> (and (<= {t} 0.0) (>= {t} (- 1.5707963))) (and (<= a{a} (* 0.6366 {t})) (>= a{c} (+ 1.0 (* 0.63662 {t}))) (>= a{a} {t}))))\n"));
                    ax.push_str(&format!("(assert (=> (and (>= {t} 1.5707964) (<= {t} 3.1415926)) (and (>= a{a} (* 0.6366 (- 3.1415926 {t}))) (< a{c} 0.0))))\n"));
                }
                Kind::Cos => ax.push_str(&format!("(assert (and (<= a{a} 1.0) (>= a{a} (- 1.0))))\n")),
                Kind::Exp => {
                    let x = arg(0, &mut ax);
                    ax.push_str(&format!("(assert (and (> a{a} 0.0) (>= a{a} (+ 1.0 {x}))))\n"));
                    ax.push_str(&format!("(assert (= (> a{a} 1.0) (> {x} 0.0)))\n(assert (= (< a{a} 1.0) (< {x} 0.0)))\n"));
                }
                Kind::Log => {
                    let x = arg(0, &mut ax);
                    ax.push_str(&format!("(assert (<= a{a} (- {x} 1.0)))\n"));
                    ax.push_str(&format!("(assert (= (> a{a} 0.0) (> {x} 1.0)))\n(assert (= (< a{a} 0.0) (< {x} 1.0)))\n"));
                }
                Kind::Atan2 => {
                    let y = arg(0, &mut ax);
                    let x = arg(1, &mut ax);
                    let pi = self.pi.map(|p| format!("a{p}")).unwrap_or("3.1415926535898".into());
                    ax.push_str(&format!("(assert (and (<= a{a} {pi}) (>= a{a} (- {pi}))))\n"));
                    ax.push_str(&format!("(assert (= (> a{a} 0.0) (or (> {y} 0.0) (and (= {y} 0.0) (< {x} 0.0)))))\n"));
                    ax.push_str(&format!("(assert (= (< a{a} 0.0) (< {y} 0.0)))\n"));
                }
                Kind::Max2 | Kind::Min2 => {
                    let x = arg(0, &mut ax);
                    let y = arg(1, &mut ax);
                    let o = if at.kind == Kind::Max2 { ">=" } else { "<=" };
                    ax.push_str(&format!("(assert (= a{a} (ite ({o} {x} {y}) {x} {y})))\n"));
                }
                Kind::Floor => {
                    let x = arg(0, &mut ax);
                    ax.push_str(&format!("(assert (and (<= (to_real a{a}) {x}) (< {x} (+ 1.0 (to_real a{a})))))\n"));
                }
                Kind::Round => {
                    let x = arg(0, &mut ax);
                    ax.push_str(&format!(
                        "(assert (and (<= (- (to_real a{a}) 0.5) {x}) (<= {x} (+ 0.5 (to_real a{a})))))\n\
                         (assert (=> (= {x} (+ 0.5 (to_real a{a}))) (< {x} 0.0)))\n\
                         (assert (=> (= {x} (- (to_real a{a}) 0.5)) (> {x} 0.0)))\n"
                    ));
                }
            }
        }
        d.push_str(&ax);
        for f in forms {
            d.push_str(&format!("(assert {})\n", self.form_smt(f)));
        }
        (d, vars)
    }
    pub fn named_model(&self, m: &[(String, f64)]) -> Vec<(String, f64)> {
        m.iter()
            .filter_map(|(n, v)| {
                let i: usize = n.trim_start_matches('a').parse().ok()?;
                v.is_finite().then(|| (self.atoms[i].name.clone(), *v))
            })
            .collect()
    }
    /// the value of an atom that is a number, to the last few digits of a double
    fn constant_atom(&self, a: u32) -> Option<f64> {
        let at = &self.atoms[a as usize];
        let arg = || at.args.first()?.as_const().map(|q| q.to_f64());
        match at.kind {
            Kind::Pi => Some(std::f64::consts::PI),
            Kind::Sqrt => arg().map(f64::sqrt),
            Kind::Cbrt => arg().map(f64::cbrt),
            _ => None,
        }
    }
    /// `poly op 0` as `key op bound`, with the key free of constant terms and its leading
    /// coefficient one, the bound rounded to the weak side; `None` where that cannot be said
    fn bound_of(&self, c: &Con, negated: bool) -> Option<(Poly, Op, Q)> {
        if c.prods.len() != 1 {
            return None;
        }
        let (mut rest, mut exact, mut near, mut slack) = (vec![], Q::zero(), 0.0, 0.0);
        for (m, q) in &c.prods[0].t {
            if m.is_empty() {
                exact = q.clone();
            } else if let Some(v) = m.iter().map(|&(a, e)| Some(self.constant_atom(a)?.powi(e as i32))).product::<Option<f64>>() {
                near += v * q.to_f64();
                slack += (v * q.to_f64()).abs() * 1e-9;
            } else {
                rest.push((m.clone(), q.clone()));
            }
        }
        let lead = rest.last()?.1.clone();
        let op = if negated { c.op.not() } else { c.op };
        let op = if lead.sign() < 0 { op.flip() } else { op };
        let inv = lead.inv();
        let mut at = exact.mul(&inv).neg();
        if slack > 0.0 {
            let k = inv.to_f64();
            let (mid, off) = (-near * k, slack * k.abs());
            if !(mid.is_finite() && off.is_normal()) {
                return None;
            }
            at = at.add(&Q::exact_f64(match op {
                Op::Gt | Op::Ge => mid - off,
                Op::Lt | Op::Le => mid + off,
                _ => return None,
            }));
        }
        Some((Poly { t: rest }.scale(&inv), op, at))
    }
    fn bounds_in(&self, f: &Form, negated: bool, out: &mut Vec<(Poly, Op, Q)>) {
        match f {
            Form::C(c) => out.extend(self.bound_of(c, negated)),
            Form::Not(x) => self.bounds_in(x, !negated, out),
            Form::And(v) if !negated => v.iter().for_each(|x| self.bounds_in(x, false, out)),
            Form::Or(v) if negated => v.iter().for_each(|x| self.bounds_in(x, true, out)),
            _ => {}
        }
    }
    /// Does `f` contradict the path condition already because the same polynomial, up to a factor
    /// and a constant, cannot lie in both ranges? No solver and no clock is involved.
    pub fn contradicts(&self, f: &Form) -> bool {
        let mut want = vec![];
        self.bounds_in(f, false, &mut want);
        if want.is_empty() {
            return false;
        }
        let mut have = vec![];
        self.pc.iter().for_each(|p| self.bounds_in(p, false, &mut have));
        have.extend(want.iter().cloned());
        let apart = |o: Op, x: &Q, o2: Op, y: &Q| {
            // can no value be `o x` and `o2 y`?
            match (o, o2, x.cmp(y)) {
                (Op::Gt, Op::Lt, c) | (Op::Gt, Op::Le, c) | (Op::Ge, Op::Lt, c) => c.is_ge(),
                (Op::Ge, Op::Le, c) => c.is_gt(),
                (Op::Eq, Op::Gt, c) => c.is_le(),
                (Op::Eq, Op::Ge, c) => c.is_lt(),
                (Op::Eq, Op::Lt, c) => c.is_ge(),
                (Op::Eq, Op::Le, c) => c.is_gt(),
                (Op::Eq, Op::Eq, c) => c.is_ne(),
                (Op::Eq, Op::Ne, c) => c.is_eq(),
                _ => false,
            }
        };
        want.iter().any(|(k, o, x)| {
            have.iter().any(|(k2, o2, y)| k.t.len() == k2.t.len() && (apart(*o, x, *o2, y) || apart(*o2, y, *o, x)) && k.t == k2.t)
        })
    }
    /// Is the path condition together with `f` satisfiable?
    pub fn sat(&mut self, f: &Form, ms: u64) -> (Ans, Vec<(String, f64)>) {
        // cone of influence: keep only the constraints connected with `f`
        let forms: Vec<&Form> = self.cone(f);
        let (s, vars) = self.script(&forms);
        let (a, m) = {
            let mut smt = std::mem::take(&mut self.smt);
            let r = smt.check(&s, &vars, ms);
            self.smt = smt;
            r
        };
        let m = self.named_model(&m);
        (a, m)
    }
    fn deps(&self, f: &Form) -> FxHashSet<u32> {
        let mut v = vec![];
        Self::form_atoms(f, &mut v);
        let mut i = 0;
        while i < v.len() {
            let at = &self.atoms[v[i] as usize];
            let mut more = vec![];
            if !matches!(at.kind, Kind::Opaque) {
                for x in &at.args {
                    x.num.atoms(&mut more);
                    for &(d, _) in &x.den {
                        self.alg.factors[d as usize].atoms(&mut more);
                    }
                }
            }
            if let Some(r) = &self.alg.rels[v[i] as usize] {
                r.rhs.num.atoms(&mut more);
            }
            for m in more {
                if !v.contains(&m) {
                    v.push(m)
                }
            }
            i += 1;
        }
        v.into_iter().filter(|a| !matches!(self.atoms[*a as usize].kind, Kind::Pi | Kind::Max)).collect()
    }
    fn cone<'a>(&'a self, f: &'a Form) -> Vec<&'a Form> {
        let mut set = self.deps(f);
        let deps: Vec<FxHashSet<u32>> = self.pc.iter().map(|p| self.deps(p)).collect();
        let mut used = vec![false; self.pc.len()];
        loop {
            let mut ch = false;
            for i in 0..self.pc.len() {
                if !used[i] && (deps[i].is_empty() || deps[i].iter().any(|a| set.contains(a))) {
                    used[i] = true;
                    ch = true;
                    set.extend(deps[i].iter().copied());
                }
            }
            if !ch {
                break;
            }
        }
        let mut r: Vec<&Form> = self.pc.iter().zip(&used).filter(|x| *x.1).map(|x| x.0).collect();
        r.push(f);
        r
    }
    // ---- facts
    fn learn(&mut self, f: &Form) {
        match f {
            Form::And(v) => {
                for x in v.clone() {
                    self.learn(&x);
                }
            }
            Form::Not(x) => {
                if let Form::C(c) = &**x {
                    let c = Con { prods: c.prods.clone(), op: c.op.not() };
                    self.learn(&Form::C(c));
                }
            }
            Form::C(c) => {
                // the signs of all but one factor known => learn the last
                let mut unknown = None;
                let mut rest = 4u8;
                for p in &c.prods {
                    let (lead, common, prim) = p.split();
                    let mut m = if lead.sign() > 0 { 4 } else { 1 };
                    let mut parts: Vec<Poly> = common.iter().filter(|x| x.1 % 2 == 1).map(|x| Poly::atom(x.0)).collect();
                    let even: Vec<Poly> = common.iter().filter(|x| x.1 % 2 == 0).map(|x| Poly::atom(x.0)).collect();
                    for e in &even {
                        if self.mask(e) & 2 != 0 {
                            if matches!(c.op, Op::Gt | Op::Lt | Op::Ne) {
                                self.put_fact(e.clone(), 5);
                            } else {
                                m = mul_mask(m, 6);
                            }
                        }
                    }
                    if prim.as_const().is_none() {
                        parts.push(prim);
                    }
                    rest = mul_mask(rest, m);
                    for q in parts {
                        let k = self.mask(&q);
                        if matches!(k, 1 | 4) {
                            rest = mul_mask(rest, k);
                        } else if unknown.is_none() {
                            unknown = Some(q);
                        } else {
                            if matches!(c.op, Op::Gt | Op::Lt | Op::Ne) {
                                self.put_fact(q.clone(), 5);
                            }
                            rest = 7;
                        }
                    }
                }
                let Some(u) = unknown else {
                    // x^2 = 0
                    if c.op == Op::Eq || (c.op == Op::Le && rest == 6) {
                        for p in &c.prods {
                            let (_, common, prim) = p.split();
                            if prim.as_const().is_some() && common.len() == 1 {
                                self.set_zero(&Poly::atom(common[0].0));
                            }
                        }
                    }
                    return;
                };
                let strict = matches!(c.op, Op::Gt | Op::Lt | Op::Ne);
                let allowed = match if strict { rest & 5 } else { rest } {
                    4 => c.op.mask(),
                    1 => c.op.flip().mask(),
                    _ if strict => 5,
                    _ if rest & 2 == 0 && c.op == Op::Eq => 2,
                    _ => 7,
                };
                self.put_fact(u, allowed);
            }
            _ => {}
        }
    }
    fn put_fact(&mut self, u: Poly, allowed: u8) {
        let cur = self.mask(&u);
        let m = cur & allowed;
        if m == cur {
            return;
        }
        let (lead, _, _) = u.split();
        let k = if lead.is_one() { u.clone() } else { u.scale(&lead.inv()) };
        let km = if lead.sign() < 0 { neg_mask(m) } else { m };
        self.facts.insert(k, km);
        if m == 2 {
            self.set_zero(&u);
        } else if m & 2 == 0 && u.t.len() == 1 && u.t[0].0.len() == 1 {
            // |x| != 0 gives x != 0; sqrt(x) != 0 gives x > 0
            let a = u.t[0].0[0].0 as usize;
            let args = self.atoms[a].args.clone();
            match self.atoms[a].kind {
                Kind::Abs => self.learn_frac(&args[0], Op::Ne),
                Kind::Sqrt => self.learn_frac(&args[0], Op::Gt),
                _ => {}
            }
        }
    }
    fn learn_frac(&mut self, f: &Frac, op: Op) {
        if f.den.is_empty() || op == Op::Ne {
            let c = Con { prods: vec![Rc::new(f.num.clone())], op };
            self.learn(&Form::C(c));
        }
    }
    fn set_zero(&mut self, u: &Poly) {
        // sum of nonnegative terms: each vanishes
        if u.t.len() > 1 {
            let ms: Vec<u8> = u
                .t
                .iter()
                .map(|(m, q)| {
                    let k = self.mono_mask(m);
                    if q.sign() < 0 { neg_mask(k) } else { k }
                })
                .collect();
            if ms.iter().all(|m| m & 1 == 0) || ms.iter().all(|m| m & 4 == 0) {
                for (m, _) in u.t.clone() {
                    if m.len() == 1 {
                        self.set_zero(&Poly::atom(m[0].0));
                    }
                }
                return;
            }
        }
        if u.t.len() == 1 && u.t[0].0.len() == 1 {
            let a = u.t[0].0[0].0;
            let (kind, args) = (self.atoms[a as usize].kind.clone(), self.atoms[a as usize].args.clone());
            self.set_rel(a, Frac::konst(Q::zero()));
            if matches!(kind, Kind::Sqrt | Kind::Abs | Kind::Cbrt) {
                let n = args[0].num.clone();
                if !n.is_zero() {
                    self.put_fact(n, 2);
                }
            }
            return;
        }
        // linear in its newest atom with a constant coefficient: substitute
        let mut at = vec![];
        u.atoms(&mut at);
        at.sort();
        for &a in at.iter().rev() {
            if matches!(self.atoms[a as usize].kind, Kind::Cos | Kind::Pi | Kind::Max) {
                break;
            }
            let mut coef: Option<Q> = None;
            let mut ok = true;
            let mut rest = vec![];
            for (m, q) in &u.t {
                match m.iter().find(|x| x.0 == a) {
                    Some(x) if x.1 == 1 && m.len() == 1 => coef = Some(q.clone()),
                    Some(_) => ok = false,
                    None => rest.push((m.clone(), q.clone())),
                }
            }
            if ok {
                if let Some(c) = coef {
                    let r = Poly { t: rest }.scale(&c.inv().neg());
                    self.set_rel(a, Frac::poly(r));
                }
            }
            break; // only the newest atom keeps rewriting terminating
        }
    }
    fn set_rel(&mut self, a: u32, rhs: Frac) {
        if let Some(r) = &self.alg.rels[a as usize] {
            if r.pow == 1 {
                return;
            }
        }
        self.alg.any_rel = true;
        self.alg.rels[a as usize] = Some(Rc::new(Rel { pow: 1, rhs }));
    }
    pub fn assume_form(&mut self, f: Form) {
        match f {
            Form::B(true) => {}
            Form::B(false) => std::panic::panic_any(Abandon("assumption is false on this path")),
            f => {
                for i in 0..self.samples.len() {
                    if self.samples[i].alive {
                        let ok = match self.form_at(i, &f) {
                            Some(b) => b,
                            None => is_eq(&f),
                        };
                        if !ok {
                            self.samples[i].alive = false;
                        }
                    }
                }
                self.learn(&f);
                self.pc.push(f);
            }
        }
    }
    pub fn snapshot(&self, i: usize) -> Rc<FxHashMap<String, f64>> {
        let s = &self.samples[i];
        let mut m: FxHashMap<String, f64> = (*s.given).clone();
        for (k, a) in self.atoms.iter().enumerate() {
            if matches!(a.kind, Kind::Var) && s.vals[k].is_finite() {
                m.insert(a.name.clone(), s.vals[k]);
            }
        }
        Rc::new(m)
    }
    /// Branch on a formula, forking when both sides are feasible.
    pub fn branch(&mut self, f: Form) -> bool {
        if let Form::B(b) = f {
            return b;
        }
        if self.start.elapsed() > self.cfg.limit {
            std::panic::panic_any(Budget);
        }
        self.forks += 1;
        if self.forks > 4000 {
            std::panic::panic_any(Budget);
        }
        let nf = Form::Not(Box::new(f.clone()));
        if self.pos < self.dec.len() {
            let b = self.dec[self.pos] == 1;
            self.pos += 1;
            if b {
                self.assume_form(f);
            } else {
                self.assume_form(nf);
            }
            return b;
        }
        self.nbranch += 1;
        let (mut t, mut e) = (None, None);
        for i in 0..self.samples.len() {
            if self.samples[i].alive {
                match self.form_at(i, &f) {
                    Some(true) if t.is_none() => t = Some(self.snapshot(i)),
                    Some(false) if e.is_none() => e = Some(self.snapshot(i)),
                    _ => {}
                }
            }
        }
        let mut tf = t.is_some();
        let mut ef = e.is_some();
        let (wt, mut we) = (t, e);
        if !tf && !self.contradicts(&f) {
            let (a, m) = self.sat(&f, self.cfg.feas_ms);
            tf = a != Ans::Unsat;
            if a == Ans::Sat && tf {
                let m: FxHashMap<String, f64> = m.into_iter().collect();
                self.add_sample(Rc::new(m));
            }
        }
        if !ef {
            if !tf {
                ef = true;
            } else if !self.contradicts(&nf) {
                let (a, m) = self.sat(&nf, self.cfg.feas_ms);
                ef = a != Ans::Unsat;
                if a == Ans::Sat {
                    we = Some(Rc::new(m.into_iter().collect()));
                }
            }
        }
        let _ = wt;
        let b = tf;
        if tf && ef {
            let mut d = self.dec.clone();
            d.push(0);
            if self.pending.len() + 1 > self.cfg.max_paths {
                std::panic::panic_any(Budget);
            }
            self.pending.push(Pending { dec: d, wit: we.or_else(|| self.witness.clone()) });
        }
        self.dec.push(b as u8);
        self.pos += 1;
        if b {
            self.assume_form(f);
        } else {
            self.assume_form(nf);
        }
        b
    }
    /// Adds a sample built from model values, if it satisfies the path condition numerically.
    pub fn add_sample(&mut self, given: Rc<FxHashMap<String, f64>>) {
        if self.samples.len() > 40 {
            return;
        }
        let i = self.samples.len();
        self.samples.push(Sample { seed: hash64(self.seed + 991 + i as u64), given, vals: vec![], alive: true });
        for k in 0..self.atoms.len() {
            let v = {
                let a = &self.atoms[k];
                self.atom_sample(i, &a.name, &a.kind, &a.args, a.mask)
            };
            self.samples[i].vals.push(v);
        }
        let ok = self.pc.iter().all(|f| match self.form_at(i, f) {
            Some(b) => b,
            None => is_eq(f),
        });
        self.samples[i].alive = ok;
    }
    /// Nondeterministic choice, explored exhaustively.
    pub fn choose(&mut self, name: &str, n: usize) -> usize {
        let c = if self.pos < self.dec.len() {
            self.dec[self.pos] as usize
        } else {
            for k in (1..n).rev() {
                let mut d = self.dec.clone();
                d.push(k as u8);
                self.pending.push(Pending { dec: d, wit: self.witness.clone() });
            }
            self.dec.push(0);
            0
        };
        self.pos += 1;
        self.choices.push((name.to_string(), c));
        c
    }
    pub fn model_of(&self, i: usize) -> Vec<(String, f64)> {
        let mut v: Vec<(String, f64)> = self.snapshot(i).iter().map(|(k, v)| (k.clone(), *v)).collect();
        v.sort_by(|a, b| a.0.cmp(&b.0));
        v
    }
    pub fn show_poly(&self, p: &Poly) -> String {
        if p.is_zero() {
            return "0".into();
        }
        let mut s = vec![];
        for (m, q) in p.t.iter().rev().take(12) {
            let ms: Vec<String> = m
                .iter()
                .map(|&(a, e)| {
                    let n = &self.atoms[a as usize].name;
                    if e == 1 { n.clone() } else { format!("{n}^{e}") }
                })
                .collect();
            s.push(if ms.is_empty() {
                q.show()
            } else if q.is_one() {
                ms.join("*")
            } else {
                format!("{}*{}", q.show(), ms.join("*"))
            });
        }
        if p.t.len() > 12 {
            s.push(format!("... ({} terms)", p.t.len()));
        }
        s.join(" + ")
    }
    pub fn show(&self, f: &Frac) -> String {
        let mut s = self.show_poly(&f.num);
        if !f.den.is_empty() {
            s = format!("({s})");
            for &(d, k) in &f.den {
                s.push_str(&format!("/({})^{k}", self.show_poly(&self.alg.factors[d as usize])));
            }
        }
        s
    }
}
fn is_eq(f: &Form) -> bool {
    match f {
        Form::C(c) => matches!(c.op, Op::Eq | Op::Ge | Op::Le),
        Form::Not(x) => match &**x {
            Form::C(c) => matches!(c.op, Op::Ne | Op::Gt | Op::Lt),
            _ => false,
        },
        Form::And(v) | Form::Or(v) => v.iter().any(is_eq),
        _ => false,
    }
}
pub fn mul_mask(a: u8, b: u8) -> u8 {
    let mut r = 0;
    if (a | b) & 2 != 0 {
        r |= 2;
    }
    if a & 4 != 0 && b & 4 != 0 || a & 1 != 0 && b & 1 != 0 {
        r |= 4;
    }
    if a & 4 != 0 && b & 1 != 0 || a & 1 != 0 && b & 4 != 0 {
        r |= 1;
    }
    r
}
pub fn neg_mask(a: u8) -> u8 {
    (a & 2) | if a & 1 != 0 { 4 } else { 0 } | if a & 4 != 0 { 1 } else { 0 }
}
