//! Contract language: one generic contract text, run at `Sym` to generate proof obligations and at
//! `f64` to replay a counterexample on the real code.
use crate::poly::Frac;
use crate::q::Q;
use crate::smt::Ans;
use crate::state::*;
use crate::sym::{Sym, smuggle};
use multicalc::random::RandomScalar;
use multicalc::scalar::{Numeric, Primal};
use rustc_hash::FxHashMap;
use std::cell::RefCell;
use std::rc::Rc;

#[derive(Clone, Debug)]
pub enum P<T> {
    B(bool),
    Rel(T, Op, T),
    Fin(T),
    Same(T, T),
    And(Vec<P<T>>),
    Or(Vec<P<T>>),
    Not(Box<P<T>>),
}
pub fn b<T>(x: bool) -> P<T> {
    P::B(x)
}
pub fn eq<T>(x: T, y: T) -> P<T> {
    P::Rel(x, Op::Eq, y)
}
pub fn ne<T>(x: T, y: T) -> P<T> {
    P::Rel(x, Op::Ne, y)
}
pub fn le<T>(x: T, y: T) -> P<T> {
    P::Rel(x, Op::Le, y)
}
pub fn lt<T>(x: T, y: T) -> P<T> {
    P::Rel(x, Op::Lt, y)
}
pub fn ge<T>(x: T, y: T) -> P<T> {
    P::Rel(x, Op::Ge, y)
}
pub fn gt<T>(x: T, y: T) -> P<T> {
    P::Rel(x, Op::Gt, y)
}
pub fn fin<T>(x: T) -> P<T> {
    P::Fin(x)
}
/// equal, or both NaN, or the same infinity
pub fn same<T>(x: T, y: T) -> P<T> {
    P::Same(x, y)
}
pub fn and<T>(v: Vec<P<T>>) -> P<T> {
    P::And(v)
}
pub fn or<T>(v: Vec<P<T>>) -> P<T> {
    P::Or(v)
}
pub fn not<T>(p: P<T>) -> P<T> {
    P::Not(Box::new(p))
}
pub fn imp<T>(a: P<T>, c: P<T>) -> P<T> {
    P::Or(vec![not(a), c])
}
pub fn eqs<T: Copy>(x: &[T], y: &[T]) -> P<T> {
    if x.len() != y.len() {
        return P::B(false);
    }
    P::And(x.iter().zip(y).map(|(a, b)| eq(*a, *b)).collect())
}
pub fn between<T: Copy>(lo: T, x: T, hi: T) -> P<T> {
    P::And(vec![le(lo, x), le(x, hi)])
}

pub trait Scal: Numeric<Constant = Self> + RandomScalar + Primal + 'static {
    const SYMBOLIC: bool;
    fn var(name: &str) -> Self;
    fn pos(name: &str) -> Self;
    fn nonneg(name: &str) -> Self;
    /// opaque function of some arguments
    fn uf(name: &str, args: &[Self]) -> Self;
    fn choose(name: &str, n: usize) -> usize;
    fn assume(p: P<Self>);
    fn prove(name: &str, p: P<Self>);
    /// polynomial coefficient of the difference below `tol` (for tabulated constants)
    fn prove_close(name: &str, a: Self, b: Self, tol: f64);
    /// a unit vector whose last component rewrites its own square
    fn unit<const N: usize>(name: &str) -> [Self; N];
    /// a pseudo-random small rational constant (bounded checks)
    fn rnd(lo: i64, hi: i64, den: i64) -> Self;
    fn rndi(n: usize) -> usize;
    fn smug(self) -> f64;
    fn angle_div(d: i64);
    /// max/min become single terms instead of forks
    fn merge(on: bool);
    fn tol(t: f64);
    fn show(self) -> String;
    /// decides a proposition by branching
    fn holds(p: P<Self>) -> bool;
    /// a fresh name for a value: the contract below only knows what is assumed about it
    fn abandon() -> !;
    fn case(name: &str, s: String);

    fn i(n: i64) -> Self {
        Self::q(n, 1)
    }
    fn q(n: i64, d: i64) -> Self;
    fn var_in(name: &str, lo: Self, hi: Self) -> Self;
    fn vars<const N: usize>(name: &str) -> [Self; N] {
        std::array::from_fn(|k| Self::var(&format!("{name}{k}")))
    }
    fn vars2<const R: usize, const C: usize>(name: &str) -> [[Self; C]; R] {
        std::array::from_fn(|i| std::array::from_fn(|j| Self::var(&format!("{name}{i}{j}"))))
    }
    fn special(name: &str) -> Self {
        match Self::choose(name, 3) {
            0 => Self::NAN,
            1 => Self::INFINITY,
            _ => Self::NEG_INFINITY,
        }
    }
}

// ------------------------------------------------------------------ symbolic mode
impl St {
    pub fn form(&mut self, p: &P<Sym>) -> Form {
        match p {
            P::B(b) => Form::B(*b),
            P::Fin(x) => Form::B(x.is_num()),
            P::Rel(x, op, y) => {
                let (a, c) = (self.val(*x), self.val(*y));
                self.cmp_form(&a, &c, *op)
            }
            P::Same(x, y) => {
                let (a, c) = (self.val(*x), self.val(*y));
                match (&a, &c) {
                    (Val::NaN, Val::NaN) | (Val::PInf, Val::PInf) | (Val::NInf, Val::NInf) => Form::B(true),
                    (Val::F(_), Val::F(_)) => self.cmp_form(&a, &c, Op::Eq),
                    _ => Form::B(false),
                }
            }
            P::And(v) => {
                let fs: Vec<Form> = v.iter().map(|x| self.form(x)).collect();
                if fs.iter().any(|f| matches!(f, Form::B(false))) {
                    return Form::B(false);
                }
                let fs: Vec<Form> = fs.into_iter().filter(|f| !matches!(f, Form::B(true))).collect();
                if fs.is_empty() { Form::B(true) } else { Form::And(fs) }
            }
            P::Or(v) => {
                let fs: Vec<Form> = v.iter().map(|x| self.form(x)).collect();
                if fs.iter().any(|f| matches!(f, Form::B(true))) {
                    return Form::B(true);
                }
                let fs: Vec<Form> = fs.into_iter().filter(|f| !matches!(f, Form::B(false))).collect();
                if fs.is_empty() { Form::B(false) } else { Form::Or(fs) }
            }
            P::Not(x) => match self.form(x) {
                Form::B(b) => Form::B(!b),
                Form::C(c) => Form::C(Con { prods: c.prods, op: c.op.not() }),
                f => Form::Not(Box::new(f)),
            },
        }
    }
    fn record(&mut self, name: &str, status: Status, model: Vec<(String, f64)>, detail: String) {
        match &status {
            Status::Proved(how) => {
                let e = self.proved.entry(name.to_string()).or_default();
                e[match *how {
                    "algebra" => 0,
                    "signs" => 1,
                    "z3" => 2,
                    _ => 3,
                }] += 1;
            }
            _ => {
                let n = self.failed.entry(name.to_string()).or_default();
                *n += 1;
                if *n <= 3 {
                    let choices = self.choices.clone();
                    self.obligs.push(Oblig { name: name.to_string(), status, model, choices, detail });
                }
            }
        }
    }
    fn conj(f: Form, out: &mut Vec<Form>) {
        match f {
            Form::And(v) => v.into_iter().for_each(|x| Self::conj(x, out)),
            f => out.push(f),
        }
    }
    pub fn prove(&mut self, name: &str, p: &P<Sym>) {
        if let P::And(v) = p {
            for x in v {
                self.prove(name, x);
            }
            return;
        }
        let f = self.form(p);
        let mut parts = vec![];
        Self::conj(f, &mut parts);
        let n = parts.len();
        for (k, f) in parts.into_iter().enumerate() {
            let _ = (n, k);
            self.prove_one(name, f);
        }
    }
    fn prove_one(&mut self, name: &str, f: Form) {
        if self.failed.get(name).copied().unwrap_or(0) >= 3 {
            *self.failed.get_mut(name).unwrap() += 1;
            return;
        }
        match &f {
            Form::B(true) => {
                self.record(name, Status::Proved("algebra"), vec![], String::new());
                return;
            }
            Form::B(false) => {
                // the path must really be reachable for this to count
                if let Some(i) = (0..self.samples.len()).find(|i| self.samples[*i].alive) {
                    let m = self.model_of(i);
                    self.record(name, Status::Refuted("false on a reachable path"), m, String::new());
                } else {
                    let (a, m) = self.sat_all(self.cfg.proof_ms);
                    match a {
                        Ans::Unsat => self.record(name, Status::Proved("z3"), vec![], String::new()),
                        Ans::Sat => self.record(name, Status::Refuted("false on a satisfiable path"), m, String::new()),
                        Ans::Unknown if self.rescue(None) == Ans::Unsat => self.record(name, Status::Proved("portfolio"), vec![], String::new()),
                        Ans::Unknown => {
                            let s = Status::Undecided("false, path feasibility unknown".into());
                            self.record(name, s, vec![], String::new())
                        }
                    }
                }
                return;
            }
            _ => {}
        }
        // refutation by samples
        for i in 0..self.samples.len() {
            if self.samples[i].alive && self.robust_false(i, &f) {
                let m = self.model_of(i);
                let d = self.describe(&f);
                self.record(name, Status::Refuted("sample"), m, d);
                return;
            }
        }
        let nf = Form::Not(Box::new(f.clone()));
        if self.contradicts(&nf) {
            self.record(name, Status::Proved("signs"), vec![], String::new());
            return;
        }
        let (a, m) = self.sat(&nf, self.cfg.proof_ms);
        match a {
            Ans::Unsat => {
                self.record(name, Status::Proved("z3"), vec![], String::new());
                return;
            }
            Ans::Sat => {
                let d = self.describe(&f);
                self.record(name, Status::Refuted("z3 model"), m, d);
                return;
            }
            _ => {}
        }
        let forms: Vec<&Form> = self.pc.iter().chain([&nf]).collect();
        let (s, _) = self.script(&forms);
        let mut smt = std::mem::take(&mut self.smt);
        let a = smt.cvc5(&s, self.cfg.proof_ms);
        self.smt = smt;
        match a {
            Ans::Unsat => self.record(name, Status::Proved("cvc5"), vec![], String::new()),
            _ if self.rescue(Some(&nf)) == Ans::Unsat => self.record(name, Status::Proved("portfolio"), vec![], String::new()),
            _ => {
                let d = self.describe(&f);
                self.record(name, Status::Undecided("solvers gave no answer".into()), vec![], d)
            }
        }
    }
    /// the last resort for a query the solvers left open; a contract has a few of them
    fn rescue(&mut self, extra: Option<&Form>) -> Ans {
        if self.rescues == 0 {
            return Ans::Unknown;
        }
        self.rescues -= 1;
        let forms: Vec<&Form> = self.pc.iter().chain(extra).collect();
        let (s, _) = self.script(&forms);
        let mut smt = std::mem::take(&mut self.smt);
        let a = smt.portfolio(&s, 15000);
        self.smt = smt;
        a
    }
    fn sat_all(&mut self, ms: u64) -> (Ans, Vec<(String, f64)>) {
        let forms: Vec<&Form> = self.pc.iter().collect();
        let (s, vars) = self.script(&forms);
        let mut smt = std::mem::take(&mut self.smt);
        let (a, m) = smt.check(&s, &vars, ms);
        self.smt = smt;
        (a, self.named_model(&m))
    }
    fn describe(&self, f: &Form) -> String {
        match f {
            Form::C(c) => {
                let s: Vec<String> = c.prods.iter().map(|p| format!("({})", self.show_poly(p))).collect();
                let mut s = format!("{} {:?} 0", s.join("*"), c.op);
                if s.len() > 600 {
                    s = s.chars().take(600).collect();
                }
                s
            }
            Form::Or(v) => v.iter().map(|x| self.describe(x)).collect::<Vec<_>>().join(" OR "),
            Form::And(v) => v.iter().map(|x| self.describe(x)).collect::<Vec<_>>().join(" AND "),
            Form::Not(x) => format!("NOT({})", self.describe(x)),
            Form::B(x) => x.to_string(),
        }
    }
    fn robust_false(&self, i: usize, f: &Form) -> bool {
        match f {
            Form::B(x) => !*x,
            Form::C(c) => {
                let mut v = 1.0;
                for p in &c.prods {
                    let (x, s) = self.eval_poly(i, p);
                    if !x.is_finite() || !s.is_finite() {
                        return false;
                    }
                    if x.abs() <= 1e-6 * s {
                        // exactly zero only matters for strict relations and is left to the solver
                        return false;
                    }
                    v *= x.signum();
                }
                let m = if v > 0.0 { 4 } else { 1 };
                c.op.mask() & m == 0
            }
            Form::And(v) => v.iter().any(|x| self.robust_false(i, x)),
            Form::Or(v) => v.iter().all(|x| self.robust_false(i, x)),
            Form::Not(x) => self.robust_true(i, x),
        }
    }
    fn robust_true(&self, i: usize, f: &Form) -> bool {
        match f {
            Form::B(x) => *x,
            Form::C(c) => self.robust_false(i, &Form::C(Con { prods: c.prods.clone(), op: c.op.not() })),
            Form::And(v) => v.iter().all(|x| self.robust_true(i, x)),
            Form::Or(v) => v.iter().any(|x| self.robust_true(i, x)),
            Form::Not(x) => self.robust_false(i, x),
        }
    }
    fn rng_next(&mut self) -> u64 {
        self.rng = self.rng.wrapping_add(0x9E3779B97F4A7C15);
        hash64(self.rng)
    }
    fn uniq(&mut self, name: &str) -> String {
        let n = self.names.entry(name.to_string()).or_insert(0);
        *n += 1;
        if *n == 1 { name.to_string() } else { format!("{name}~{n}") }
    }
}
pub fn fresh_unit() -> Sym {
    let x = Sym::nonneg("unit");
    Sym::assume(lt(x, Sym::ONE));
    x
}
impl Scal for Sym {
    const SYMBOLIC: bool = true;
    fn var(name: &str) -> Sym {
        with(|s| {
            let n = s.uniq(name);
            let a = s.new_atom(n, Kind::Var, vec![], 7, None);
            s.put(Val::F(Rc::new(Frac::atom(a))))
        })
    }
    fn pos(name: &str) -> Sym {
        with(|s| {
            let n = s.uniq(name);
            let a = s.new_atom(n, Kind::Var, vec![], 4, None);
            s.put(Val::F(Rc::new(Frac::atom(a))))
        })
    }
    fn nonneg(name: &str) -> Sym {
        with(|s| {
            let n = s.uniq(name);
            let a = s.new_atom(n, Kind::Var, vec![], 6, None);
            s.put(Val::F(Rc::new(Frac::atom(a))))
        })
    }
    fn var_in(name: &str, lo: Sym, hi: Sym) -> Sym {
        with(|s| {
            let n = s.uniq(name);
            // give the samples a value inside the range
            let (l, h) = (s.val(lo), s.val(hi));
            let mut mask = 7;
            if let Val::F(l) = &l {
                let m = s.mask_frac(l);
                if m & 1 == 0 {
                    mask = if m & 2 == 0 { 4 } else { 6 };
                }
            }
            for i in 0..s.samples.len() {
                if s.samples[i].alive && !s.samples[i].given.contains_key(&n) {
                    if let (Val::F(l), Val::F(h)) = (&l, &h) {
                        let (lv, hv) = (s.eval(i, l).0, s.eval(i, h).0);
                        let u = (hash64(s.samples[i].seed ^ hash_str(&n)) >> 11) as f64 / (1u64 << 53) as f64;
                        let v = match hash64(s.samples[i].seed ^ hash_str(&n) ^ 3) % 8 {
                            0 => lv,
                            1 => hv,
                            _ => lv + (hv - lv) * u,
                        };
                        let mut g: FxHashMap<String, f64> = (*s.samples[i].given).clone();
                        g.insert(n.clone(), v);
                        s.samples[i].given = Rc::new(g);
                    }
                }
            }
            let a = s.new_atom(n, Kind::Var, vec![], mask, None);
            let x = s.put(Val::F(Rc::new(Frac::atom(a))));
            let f = s.form(&between(lo, x, hi));
            s.assume_form(f);
            x
        })
    }
    fn uf(name: &str, args: &[Sym]) -> Sym {
        with(|s| {
            let mut v = vec![];
            for a in args {
                match s.val(*a) {
                    Val::F(f) => v.push(f),
                    _ => return Sym::NaN,
                }
            }
            let a = s.app(Kind::Opaque, name, v, 7, None);
            s.put(Val::F(Rc::new(Frac::atom(a))))
        })
    }
    fn choose(name: &str, n: usize) -> usize {
        with(|s| s.choose(name, n))
    }
    fn assume(p: P<Sym>) {
        with(|s| {
            let f = s.form(&p);
            let mut parts = vec![];
            St::conj(f, &mut parts);
            for f in parts {
                s.assume_form(f);
            }
        })
    }
    fn prove(name: &str, p: P<Sym>) {
        with(|s| s.prove(name, &p))
    }
    fn prove_close(name: &str, a: Sym, c: Sym, tol: f64) {
        with(|s| {
            let (x, y) = (s.val(a), s.val(c));
            if let (Val::F(x), Val::F(y)) = (&x, &y) {
                let d = s.alg.sub(x, y);
                let r = s.alg.reduce(d.num);
                if d.den.is_empty() && r.den.is_empty() {
                    if r.num.max_coef() <= tol {
                        s.record(name, Status::Proved("algebra"), vec![], String::new());
                    } else {
                        let m = (0..s.samples.len()).find(|i| s.samples[*i].alive).map(|i| s.model_of(i)).unwrap_or_default();
                        let d = format!("difference {}", s.show_poly(&r.num));
                        s.record(name, Status::Refuted("coefficient above tolerance"), m, d);
                    }
                    return;
                }
            }
            s.record(name, Status::Undecided("not polynomial".into()), vec![], String::new());
        })
    }
    fn unit<const N: usize>(name: &str) -> [Sym; N] {
        with(|s| {
            let base = s.uniq(name);
            let mut atoms = vec![];
            // sample values on the sphere
            for i in 0..s.samples.len() {
                let mut g: FxHashMap<String, f64> = (*s.samples[i].given).clone();
                let mut v: Vec<f64> = (0..N)
                    .map(|k| {
                        let n = format!("{base}{k}");
                        g.get(&n).copied().unwrap_or_else(|| random_real(s.samples[i].seed ^ hash_str(&n)))
                    })
                    .collect();
                let n = v.iter().map(|x| x * x).sum::<f64>().sqrt();
                if n == 0.0 {
                    v[0] = 1.0;
                } else {
                    v.iter_mut().for_each(|x| *x /= n);
                }
                for k in 0..N {
                    g.insert(format!("{base}{k}"), v[k]);
                }
                s.samples[i].given = Rc::new(g);
            }
            let mut rhs = Frac::konst(Q::one());
            for k in 0..N {
                let rel = if k + 1 == N { Some(crate::poly::Rel { pow: 2, rhs: rhs.clone() }) } else { None };
                let a = s.new_atom(format!("{base}{k}"), Kind::Var, vec![], 7, rel);
                if k + 1 < N {
                    let f = Frac::atom(a);
                    let sq = s.alg.mul(&f, &f);
                    rhs = s.alg.sub(&rhs, &sq);
                }
                atoms.push(a);
            }
            std::array::from_fn(|k| s.put(Val::F(Rc::new(Frac::atom(atoms[k])))))
        })
    }
    fn rnd(lo: i64, hi: i64, den: i64) -> Sym {
        with(|s| {
            let r = s.rng_next();
            let span = (hi - lo) * den + 1;
            let k = (r % span as u64) as i64 + lo * den;
            s.put(Val::F(Rc::new(Frac::konst(Q::new(k, den)))))
        })
    }
    fn rndi(n: usize) -> usize {
        with(|s| (s.rng_next() % n as u64) as usize)
    }
    fn smug(self) -> f64 {
        smuggle(self)
    }
    fn angle_div(d: i64) {
        with(|s| s.angle_div = d)
    }
    fn merge(on: bool) {
        with(|s| s.merge = on)
    }
    fn tol(_: f64) {}
    fn show(self) -> String {
        format!("{self:?}")
    }
    fn holds(p: P<Sym>) -> bool {
        with(|s| {
            let f = s.form(&p);
            s.branch(f)
        })
    }
    fn abandon() -> ! {
        std::panic::panic_any(Abandon("abandoned"))
    }
    fn case(_: &str, _: String) {}
    fn q(n: i64, d: i64) -> Sym {
        Sym::q(Q::new(n, d))
    }
}

// ------------------------------------------------------------------ concrete mode
pub struct FSt {
    pub given: FxHashMap<String, f64>,
    pub choices: Vec<(String, usize)>,
    pub use_choices: bool,
    pub cpos: usize,
    pub seed: u64,
    pub rng: u64,
    pub log: Vec<(String, f64)>,
    pub clog: Vec<(String, usize)>,
    pub fails: Vec<(String, String)>,
    pub passed: u64,
    pub tol: f64,
    pub names: FxHashMap<String, u32>,
    pub cases: Vec<(String, String)>,
}
thread_local! {
    pub static FS: RefCell<FSt> = RefCell::new(FSt { given: Default::default(), choices: vec![], use_choices: false, cpos: 0, seed: 1, rng: 1,
        log: vec![], clog: vec![], fails: vec![], passed: 0, tol: 1e-6, names: Default::default(), cases: vec![] });
}
pub fn fs<R>(f: impl FnOnce(&mut FSt) -> R) -> R {
    FS.with(|s| f(&mut s.borrow_mut()))
}
impl FSt {
    pub fn start(&mut self, seed: u64, given: FxHashMap<String, f64>, choices: Option<Vec<(String, usize)>>) {
        self.given = given;
        self.use_choices = choices.is_some();
        self.choices = choices.unwrap_or_default();
        self.cpos = 0;
        self.seed = seed;
        self.rng = seed;
        self.log.clear();
        self.clog.clear();
        self.fails.clear();
        self.cases.clear();
        self.passed = 0;
        self.tol = 1e-6;
        self.names.clear();
    }
    fn next(&mut self) -> u64 {
        self.rng = self.rng.wrapping_add(0x9E3779B97F4A7C15);
        hash64(self.rng)
    }
    fn uniq(&mut self, name: &str) -> String {
        let n = self.names.entry(name.to_string()).or_insert(0);
        *n += 1;
        if *n == 1 { name.to_string() } else { format!("{name}~{n}") }
    }
    fn get(&mut self, name: &str, gen_: impl FnOnce(u64) -> f64) -> f64 {
        let n = self.uniq(name);
        let v = match self.given.get(&n) {
            Some(v) => *v,
            None => gen_(hash64(self.seed ^ hash_str(&n))),
        };
        self.log.push((n, v));
        v
    }
    fn eval(&self, p: &P<f64>, slack: f64) -> bool {
        match p {
            P::B(x) => *x,
            P::Fin(x) => x.is_finite(),
            P::Same(x, y) => x == y || (x.is_nan() && y.is_nan()) || close(*x, *y, slack.max(0.0)),
            P::Rel(x, op, y) => {
                let sc = slack * (1.0 + x.abs().min(1e300) + y.abs().min(1e300));
                match op {
                    Op::Eq => x == y || close(*x, *y, slack.max(0.0)),
                    Op::Ne => !(x == y) || slack > 0.0,
                    Op::Lt => {
                        if slack == 0.0 || !sc.is_finite() {
                            x < y
                        } else {
                            x < &(y + sc)
                        }
                    }
                    Op::Le => x <= &(y + sc),
                    Op::Gt => {
                        if slack == 0.0 {
                            x > y
                        } else {
                            x > &(y - sc)
                        }
                    }
                    Op::Ge => x >= &(y - sc),
                }
            }
            P::And(v) => v.iter().all(|x| self.eval(x, slack)),
            P::Or(v) => v.iter().any(|x| self.eval(x, slack)),
            P::Not(x) => !self.eval(x, -slack),
        }
    }
}
fn close(x: f64, y: f64, t: f64) -> bool {
    x.is_finite() && y.is_finite() && (x - y).abs() <= t * (1.0 + x.abs() + y.abs())
}
impl Scal for f64 {
    const SYMBOLIC: bool = false;
    fn var(name: &str) -> f64 {
        fs(|s| s.get(name, random_real))
    }
    fn pos(name: &str) -> f64 {
        fs(|s| s.get(name, |h| random_real(h).abs() + 1e-3))
    }
    fn nonneg(name: &str) -> f64 {
        fs(|s| s.get(name, |h| random_real(h).abs()))
    }
    fn var_in(name: &str, lo: f64, hi: f64) -> f64 {
        let v = fs(|s| {
            s.get(name, |h| {
                let u = (hash64(h) >> 11) as f64 / (1u64 << 53) as f64;
                match hash64(h ^ 9) % 8 {
                    0 => lo,
                    1 => hi,
                    _ => lo + (hi - lo) * u,
                }
            })
        });
        <f64 as Scal>::assume(between(lo, v, hi));
        v
    }
    fn uf(name: &str, args: &[f64]) -> f64 {
        // a smooth pseudo-random function per name
        let mut r = 0.0;
        let h = fs(|s| hash64(s.seed ^ hash_str(name)));
        for t in 0..3u64 {
            let mut x = random_real(hash64(h ^ (t * 77)));
            for (k, a) in args.iter().enumerate() {
                x += a * random_real(hash64(h ^ (t * 131 + k as u64 + 5)));
            }
            r += x.sin() * random_real(hash64(h ^ (t * 17 + 900)));
        }
        r
    }
    fn choose(name: &str, n: usize) -> usize {
        fs(|s| {
            let c = if s.use_choices && s.cpos < s.choices.len() { s.choices[s.cpos].1.min(n - 1) } else { (s.next() % n as u64) as usize };
            s.cpos += 1;
            s.clog.push((name.to_string(), c));
            c
        })
    }
    fn assume(p: P<f64>) {
        let ok = fs(|s| s.eval(&p, 1e-9));
        if !ok {
            std::panic::panic_any(Abandon("assumption"));
        }
    }
    fn prove(name: &str, p: P<f64>) {
        fs(|s| {
            let t = s.tol;
            if s.eval(&p, t) {
                s.passed += 1;
            } else {
                let mut d = format!("{p:?}");
                d.truncate(400);
                s.fails.push((name.to_string(), d));
            }
        })
    }
    fn prove_close(name: &str, a: f64, c: f64, tol: f64) {
        fs(|s| {
            if close(a, c, tol.max(1e-9) * 100.0) {
                s.passed += 1;
            } else {
                s.fails.push((name.to_string(), format!("{a} vs {c}")));
            }
        })
    }
    fn unit<const N: usize>(name: &str) -> [f64; N] {
        let base = fs(|s| s.uniq(name));
        let mut v: [f64; N] = std::array::from_fn(|k| fs(|s| s.get(&format!("{base}{k}"), random_real)));
        let n = v.iter().map(|x| x * x).sum::<f64>().sqrt();
        if n == 0.0 {
            v[0] = 1.0;
        } else {
            v.iter_mut().for_each(|x| *x /= n);
        }
        v
    }
    fn rnd(lo: i64, hi: i64, den: i64) -> f64 {
        fs(|s| {
            let r = s.next();
            let span = (hi - lo) * den + 1;
            ((r % span as u64) as i64 + lo * den) as f64 / den as f64
        })
    }
    fn rndi(n: usize) -> usize {
        fs(|s| (s.next() % n as u64) as usize)
    }
    fn smug(self) -> f64 {
        self
    }
    fn angle_div(_: i64) {}
    fn merge(_: bool) {}
    fn tol(t: f64) {
        fs(|s| s.tol = t)
    }
    fn show(self) -> String {
        format!("{self:e}")
    }
    fn holds(p: P<f64>) -> bool {
        fs(|s| s.eval(&p, 0.0))
    }
    fn abandon() -> ! {
        std::panic::panic_any(Abandon("abandoned"))
    }
    fn case(name: &str, v: String) {
        fs(|s| s.cases.push((name.to_string(), v)))
    }
    fn q(n: i64, d: i64) -> f64 {
        n as f64 / d as f64
    }
}
