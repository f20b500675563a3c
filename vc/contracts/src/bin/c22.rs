use contracts::*;
use multicalc::error::{DiffError, LinalgError, SolveError};
use multicalc::numerical_derivative::{AutoDiffMulti, AutoDiffSingle, DerivatorMultiVariable, DerivatorSingleVariable};
use multicalc::root_finding::*;
use multicalc::scalar::{Numeric, ScalarFn, ScalarFnN, VectorFn};
use std::cell::RefCell;

/// the library's scalar here is always the contract's own: see it as such
fn own<S: Copy, T: Scal>(x: S) -> T {
    assert_eq!(std::mem::size_of::<S>(), std::mem::size_of::<T>());
    unsafe { std::mem::transmute_copy(&x) }
}
/// a function known only by name, remembering where it was asked
struct Opaque<T>(&'static str, RefCell<Vec<T>>);
impl<T: Scal> Opaque<T> {
    fn new(name: &'static str) -> Self {
        Opaque(name, RefCell::new(vec![]))
    }
    fn at(&self, x: T) -> T {
        T::uf(self.0, &[x])
    }
    fn asked(&self) -> Vec<T> {
        self.1.borrow().clone()
    }
}
impl<T: Scal> ScalarFn for Opaque<T> {
    fn eval<S: Numeric>(&self, x: S) -> S {
        let x: T = own(x);
        self.1.borrow_mut().push(x);
        S::from_f64(self.at(x).smug())
    }
}
/// its slope, likewise opaque
#[derive(Clone)]
struct Slope<T>(std::marker::PhantomData<T>);
impl<T: Scal> DerivatorSingleVariable for Slope<T> {
    type Scalar = T;
    fn differentiate<F: ScalarFn>(&self, order: usize, _: &F, x: T) -> Result<T, DiffError> {
        assert_eq!(order, 1);
        Ok(T::uf("slope", &[x]))
    }
}
/// c0 + c1 x + c2 x^2 + c3 x^3
struct Cubic<T>([T; 4]);
impl<T: Scal> Cubic<T> {
    fn at(&self, x: T) -> T {
        self.0[0] + x * (self.0[1] + x * (self.0[2] + x * self.0[3]))
    }
    fn slope(&self, x: T) -> T {
        self.0[1] + x * (self.0[2] * T::TWO + x * (self.0[3] * T::i(3)))
    }
}
impl<T: Scal> ScalarFn for Cubic<T> {
    fn eval<S: Numeric>(&self, x: S) -> S {
        let k = |i: usize| S::from_f64(self.0[i].smug());
        k(0) + x * (k(1) + x * (k(2) + x * k(3)))
    }
}
fn straight<T: Scal>(r: T) -> Cubic<T> {
    let k = if T::choose("slope", 2) == 0 { T::pos("k") } else { -T::pos("k") };
    Cubic([-k * r, k, T::ZERO, T::ZERO])
}
/// ends in either order
fn bracket<T: Scal>() -> (T, T, [T; 2]) {
    let a = T::var("a");
    let w = T::pos("w");
    (a, a + w, if T::choose("order", 2) == 0 { [a, a + w] } else { [a + w, a] })
}
fn opposite<T: Scal>(p: T, q: T) -> P<T> {
    or(vec![and(vec![lt(p, T::ZERO), lt(T::ZERO, q)]), and(vec![lt(q, T::ZERO), lt(T::ZERO, p)])])
}
/// what any bracketing solver's answer must say, whatever the function
fn answer<T: Scal>(f: &Opaque<T>, lo: T, hi: T, xt: T, ft: T, r: &RootReport<T>) {
    T::prove("root inside the bracket", between(lo, r.root, hi));
    T::prove("residual is the function's value there", eq(r.residual, f.at(r.root)));
    match r.termination {
        RootTermination::ResidualTolerance => T::prove("residual within its tolerance", or(vec![eq(r.residual, T::ZERO), le(r.residual.abs(), ft)])),
        RootTermination::BracketWidth => {
            // some point asked about, as near as the tolerance says, has the other sign
            let near = f.asked().iter().map(|p| {
                let d = (*p - r.root).abs();
                let v = f.at(*p);
                and(vec![le(d, T::TWO * xt * (T::ONE + r.root.abs())), or(vec![opposite(v, r.residual), eq(v, T::ZERO)])])
            }).collect();
            T::prove("a sign change within the width tolerance", or(near))
        }
        _ => T::prove("a bracketing solver's reason", b(false)),
    }
    for p in f.asked() {
        T::prove("asked inside the bracket only", between(lo, p, hi));
    }
}
fn bisection_any<T: Scal>() {
    let (lo, hi, [a, bb]) = bracket::<T>();
    let f = Opaque::new("f");
    let (xt, ft) = (T::pos("xtol"), T::nonneg("ftol"));
    let n = T::choose("budget", 4);
    let got = Bisection::<T>::new().with_xtol(xt).with_ftol(ft).with_max_iterations(n).solve(&f, a, bb);
    let (va, vb) = (f.at(a), f.at(bb));
    match got {
        Ok(r) => {
            answer(&f, lo, hi, xt, ft, &r);
            T::prove("counts its function calls", b(r.iterations <= n && f.asked().len() == 2 + r.iterations));
        }
        Err(SolveError::InvalidBracket) => T::prove("no sign change", and(vec![not(opposite(va, vb)), ne(va, T::ZERO), ne(vb, T::ZERO)])),
        Err(SolveError::DidNotConverge { iters }) => {
            T::prove("budget spent", b(iters == n && f.asked().len() == 2 + n));
            if n > 0 {
                let m = f.asked()[n + 1];
                let left = (hi - lo) / T::i(1 << (n - 1));
                T::prove("still too wide, residual still too large", and(vec![lt(xt * (T::ONE + m.abs()), left), lt(ft, f.at(m).abs())]));
            }
        }
        Err(_) => T::prove("no other error", b(false)),
    }
    if let Ok(r) = got {
        if r.iterations == 0 {
            T::prove("an end that is a root", or(vec![and(vec![eq(r.root, a), eq(va, T::ZERO)]), and(vec![eq(r.root, bb), eq(vb, T::ZERO)])]));
        }
    }
}
/// a known root: each step halves what is left
fn bisection_halves<T: Scal>() {
    let (lo, hi, [a, bb]) = bracket::<T>();
    let r = T::var("r");
    T::assume(and(vec![lt(lo, r), lt(r, hi)]));
    let n = 1 + T::choose("budget", 4);
    let f = straight(r);
    // residuals never satisfy a zero tolerance unless the root is hit; the width test decides
    let xt = T::pos("xtol");
    match Bisection::<T>::new().with_xtol(xt).with_ftol(T::ZERO).with_max_iterations(n).solve(&f, a, bb) {
        Ok(x) => {
            let two = T::i(1 << x.iterations);
            T::prove("halved every step", le((x.root - r).abs() * two, hi - lo));
            T::prove("as close as the tolerance", or(vec![eq(x.root, r), le((x.root - r).abs() * T::TWO, xt * (T::ONE + x.root.abs()))]));
        }
        Err(e) => T::prove("gives up only out of budget", and(vec![b(e == SolveError::DidNotConverge { iters: n }), lt(xt, (hi - lo) / T::i(1 << (n - 1)))])),
    }
}
fn brent_any<T: Scal>() {
    let (lo, hi, [a, bb]) = bracket::<T>();
    let f = Opaque::new("f");
    let (xt, ft) = (T::pos("xtol"), T::nonneg("ftol"));
    let n = T::choose("budget", 3);
    let got = Brent::<T>::new().with_xtol(xt).with_ftol(ft).with_max_iterations(n).solve(&f, a, bb);
    let (va, vb) = (f.at(a), f.at(bb));
    match got {
        Ok(r) => {
            answer(&f, lo, hi, xt, ft, &r);
            T::prove("counts its function calls", b(r.iterations <= n && f.asked().len() == 2 + r.iterations));
        }
        Err(SolveError::InvalidBracket) => T::prove("no sign change", and(vec![not(opposite(va, vb)), ne(va, T::ZERO), ne(vb, T::ZERO)])),
        Err(SolveError::DidNotConverge { iters }) => T::prove("budget spent", b(iters == n && f.asked().len() == 2 + n)),
        Err(_) => T::prove("no other error", b(false)),
    }
}
/// a straight line is solved as closely as asked
fn brent_line<T: Scal>() {
    let (lo, hi, [a, bb]) = bracket::<T>();
    let r = T::var("r");
    T::assume(and(vec![lt(lo, r), lt(r, hi)]));
    let f = straight(r);
    let xt = T::pos("xtol");
    if let Ok(x) = Brent::<T>::new().with_xtol(xt).with_ftol(T::ZERO).with_max_iterations(2).solve(&f, a, bb) {
        T::prove("as close as the tolerance", or(vec![eq(x.root, r), le((x.root - r).abs(), T::TWO * xt * (T::ONE + x.root.abs()))]));
    }
}
fn bracket_refusals<T: Scal>() {
    let (a, w) = (T::var("a"), T::pos("w"));
    let x = T::special("value");
    let k = T::choose("call", 4);
    struct At<T>(usize, T, RefCell<usize>);
    impl<T: Scal> ScalarFn for At<T> {
        fn eval<S: Numeric>(&self, p: S) -> S {
            *self.2.borrow_mut() += 1;
            let n = *self.2.borrow();
            if n == self.0 + 1 { S::from_f64(self.1.smug()) } else { S::from_f64(if n % 2 == 1 { -1.0 } else { 1.0 }) + p * S::ZERO }
        }
    }
    let e = |r: Result<RootReport<T>, SolveError>| b(r.err() == Some(SolveError::NonFinite));
    T::prove("bisection", e(Bisection::<T>::new().with_xtol(T::from_f64(1e-9)).solve(&At(k, x, RefCell::new(0)), T::ZERO, w + T::ONE)));
    T::prove("brent", e(Brent::<T>::new().with_xtol(T::from_f64(1e-9)).solve(&At(k, x, RefCell::new(0)), T::ZERO, w + T::ONE)));
    let _ = a;
}
/// default settings, real functions: every bracket closes, within the promised number of steps
fn bracket_sweep<T: Scal>() {
    struct Shape<T>(usize, T, T);
    impl<T: Scal> ScalarFn for Shape<T> {
        fn eval<S: Numeric>(&self, x: S) -> S {
            let (r, k) = (S::from_f64(self.1.smug()), S::from_f64(self.2.smug()));
            let d = x - r;
            match self.0 {
                0 => d * d * d,
                1 => (k * d).atan(),
                2 => (k * d).exp() - S::ONE,
                3 => d * (S::ONE + d * d * k),
                4 => if d > S::ZERO { k } else if d < S::ZERO { -S::ONE } else { S::ZERO },
                5 => d.abs().sqrt().copysign(d),
                6 => d.powi(9) * k,
                _ => (d * S::from_f64(30.0)).tanh() + d * k,
            }
        }
    }
    let r = T::rnd(-20, 20, 37);
    let f = Shape(T::rndi(8), r, T::rnd(1, 9, 2) / T::i(4));
    let (a, bb) = (r - T::rnd(1, 60, 7), r + T::rnd(1, 60, 7));
    let (a, bb) = if T::rndi(2) == 0 { (a, bb) } else { (bb, a) };
    let xt = [1e-6, 1e-10, 1e-13][T::rndi(3)];
    let tol = T::from_f64(xt) * (T::i(2) + r.abs()) * T::i(2);
    let x = Bisection::<T>::new().with_xtol(T::from_f64(xt)).with_ftol(T::ZERO).solve(&f, a, bb);
    T::prove("bisection converges", b(x.is_ok()));
    if let Ok(x) = x {
        T::prove("bisection is close", le((x.root - r).abs(), tol));
        let steps = ((bb - a).abs().smug() / xt).log2().ceil() as usize + 1;
        T::prove("bisection within its promise", b(x.iterations <= steps));
    }
    let x = Brent::<T>::new().with_xtol(T::from_f64(xt)).with_ftol(T::ZERO).with_max_iterations(1000).solve(&f, a, bb);
    T::prove("brent converges", b(x.is_ok()));
    if let Ok(x) = x {
        T::prove("brent is close", le((x.root - r).abs(), tol));
    }
    if f.0 != 4 {
        let x = Brent::<T>::new().solve(&f, a, bb);
        T::prove("brent converges by default", b(x.is_ok()));
    }
}
fn cubic<T: Scal>() -> Cubic<T> {
    Cubic(T::vars::<4>("c"))
}
/// one step from anywhere on any cubic, with the derivative worked out by the library
fn newton_step<T: Scal>() {
    let (f, x) = (cubic::<T>(), T::var("x"));
    let (xt, ft) = (T::nonneg("xtol"), T::nonneg("ftol"));
    let s = Newton::from_derivator(AutoDiffSingle::<T>::new()).with_xtol(xt).with_ftol(ft).with_max_iterations(1);
    let d = f.slope(x);
    match s.solve(&f, x) {
        Ok(r) => {
            T::prove("residual is the function's value there", eq(r.residual, f.at(r.root)));
            T::prove("one iteration", b(r.iterations == 1));
            match r.termination {
                RootTermination::ResidualTolerance => T::prove("already there", and(vec![eq(r.root, x), le(f.at(x).abs(), ft)])),
                RootTermination::StepTolerance => T::prove("Newton's step, and a small one", and(vec![eq((r.root - x) * d, -f.at(x)), le((r.root - x).abs(), xt * (T::ONE + r.root.abs()))])),
                _ => T::prove("Newton's reasons", b(false)),
            }
        }
        Err(SolveError::Linalg(LinalgError::Singular)) => T::prove("flat there", and(vec![eq(d, T::ZERO), lt(ft, f.at(x).abs())])),
        Err(SolveError::DidNotConverge { iters }) => {
            T::prove("one iteration spent", b(iters == 1));
            let y = x - f.at(x) / d;
            T::prove("neither test was met", and(vec![lt(ft, f.at(x).abs()), lt(xt * (T::ONE + y.abs()), (y - x).abs())]));
        }
        Err(_) => T::prove("no other error", b(false)),
    }
}
/// any function, any slope, up to three steps
fn newton_any<T: Scal>() {
    let (f, x0) = (Opaque::<T>::new("f"), T::var("x"));
    let (xt, ft) = (T::nonneg("xtol"), T::nonneg("ftol"));
    let n = T::choose("budget", 4);
    let s = Newton::from_derivator(Slope::<T>(std::marker::PhantomData)).with_xtol(xt).with_ftol(ft).with_max_iterations(n);
    let got = s.solve(&f, x0);
    let asked = f.asked();
    let slope = |x: T| T::uf("slope", &[x]);
    T::prove("starts where told", eq(asked[0], x0));
    for p in asked.windows(2) {
        T::prove("Newton's step", and(vec![ne(slope(p[0]), T::ZERO), eq((p[1] - p[0]) * slope(p[0]), -f.at(p[0]))]));
        T::prove("never steps from a root", lt(ft, f.at(p[0]).abs()));
    }
    let last = asked[asked.len() - 1];
    let small = |k: usize| le((asked[k] - asked[k - 1]).abs(), xt * (T::ONE + asked[k].abs()));
    match got {
        Ok(r) => {
            T::prove("answers the last point asked", and(vec![eq(r.root, last), eq(r.residual, f.at(last))]));
            match r.termination {
                RootTermination::ResidualTolerance => T::prove("residual within its tolerance", and(vec![le(r.residual.abs(), ft), b(r.iterations == asked.len())])),
                RootTermination::StepTolerance => T::prove("step within its tolerance", and(vec![small(asked.len() - 1), b(r.iterations == asked.len() - 1)])),
                _ => T::prove("Newton's reasons", b(false)),
            }
        }
        Err(SolveError::Linalg(LinalgError::Singular)) => T::prove("flat there", eq(slope(last), T::ZERO)),
        Err(SolveError::DidNotConverge { iters }) => {
            T::prove("budget spent", b(iters == n && asked.len() == n + 1));
            T::prove("no step was small", and((1..asked.len()).map(|k| not(small(k))).collect()));
        }
        Err(_) => T::prove("no other error", b(false)),
    }
}
/// with backtracking: along Newton's direction, halved until the residual falls
fn newton_damped<T: Scal>() {
    let (f, x0) = (Opaque::<T>::new("f"), T::var("x"));
    let s = Newton::from_derivator(Slope::<T>(std::marker::PhantomData)).with_xtol(T::ZERO).with_ftol(T::ZERO).with_max_iterations(1).with_backtracking(true);
    let got = s.solve(&f, x0);
    let asked = f.asked();
    let d = T::uf("slope", &[x0]);
    let v = f.at(x0);
    for k in 1..asked.len() {
        T::prove("half as far each time", eq((asked[k] - x0) * d * T::i(1 << (k - 1)), -v));
        if k + 1 < asked.len() {
            T::prove("went on only because the residual had not fallen", le(v.abs(), f.at(asked[k]).abs()));
        }
    }
    if asked.len() > 1 && asked.len() < 22 {
        T::prove("stopped because it had", lt(f.at(asked[asked.len() - 1]).abs(), v.abs()));
    }
    T::prove("at most twenty halvings", b(asked.len() <= 22));
    match got {
        Ok(r) => T::prove("answers the last point", and(vec![eq(r.root, asked[asked.len() - 1]), eq(r.residual, f.at(r.root))])),
        Err(e) => T::prove("flat, or budget spent", b(e == SolveError::Linalg(LinalgError::Singular) || e == SolveError::DidNotConverge { iters: 1 })),
    }
}
/// straight lines are solved by one step
fn newton_line<T: Scal>() {
    let r = T::var("r");
    let f = straight(r);
    let damped = T::choose("damped", 2) == 1;
    let x = Newton::from_derivator(AutoDiffSingle::<T>::new()).with_ftol(T::ZERO).with_xtol(T::ZERO).with_backtracking(damped).solve(&f, T::var("x"));
    T::prove("solved", b(x.is_ok()));
    if let Ok(x) = x {
        T::prove("the root, at once", and(vec![eq(x.root, r), eq(x.residual, T::ZERO), b(x.iterations <= 2)]));
    }
}
/// a linear map written out, residual M x - M r
struct Affine<T, const N: usize>(Matrix<N, N, T>, [T; N]);
impl<T: Scal, const N: usize> VectorFn<N, N> for Affine<T, N> {
    fn eval<S: Numeric>(&self, x: &[S; N]) -> [S; N] {
        core::array::from_fn(|i| (0..N).fold(S::ZERO, |s, j| s + S::from_f64(self.0[(i, j)].smug()) * (x[j] - S::from_f64(self.1[j].smug()))))
    }
}
fn system_affine<T: Scal>() {
    // every slope matrix well away from singular, as its pivots and multiplier
    let (r, x) = (T::vars::<2>("r"), T::vars::<2>("x"));
    let (a, e) = (T::var("a"), T::var("e"));
    let (k, b0) = (T::var_in("k", -T::ONE, T::ONE), T::var_in("b", T::i(-100), T::i(100)));
    for v in [a, e] {
        T::assume(middling(v));
    }
    let rows = [[a, b0], [k * a, k * b0 + e]];
    let m = if T::choose("which row leads", 2) == 0 { Matrix::new(rows) } else { Matrix::new([rows[1], rows[0]]) };
    // away from the extremes of size the length computation guards against
    let d: [T; 2] = core::array::from_fn(|i| x[i] - r[i]);
    for v in [d[0], d[1], r[0], r[1], m[(0, 0)] * d[0] + m[(0, 1)] * d[1], m[(1, 0)] * d[0] + m[(1, 1)] * d[1]] {
        T::assume(middling(v));
    }
    let f = Affine(m, r);
    let s = NewtonSystem::from_derivator(AutoDiffMulti::<T>::new()).with_ftol(T::ZERO).with_xtol(T::ZERO).with_max_iterations(2);
    let got = s.solve(&f, &x);
    T::prove("solved", b(got.is_ok()));
    if let Ok(g) = got {
        T::prove("the root, at once", and(vec![eqs(&g.root, &r), eq(g.residual_norm, T::ZERO), b(g.iterations <= 2 && g.termination == RootTermination::ResidualTolerance)]));
    }
}
fn system_singular<T: Scal>() {
    let (p, q) = (T::vars::<2>("p"), T::var("q"));
    T::assume(ne(p[0], T::ZERO));
    let m = Matrix::new([[p[0], p[1]], [p[0] * q, p[1] * q]]);
    let x = T::vars::<2>("x");
    T::assume(ne(p[0] * x[0] + p[1] * x[1], T::ZERO));
    let s = NewtonSystem::from_derivator(AutoDiffMulti::<T>::new()).with_ftol(T::ZERO).with_xtol(T::ZERO);
    let got = s.solve(&Affine(m, [T::ZERO; 2]), &x);
    T::prove("refused", b(matches!(got, Err(SolveError::Linalg(_)))));
}
fn middling<T: Scal>(v: T) -> P<T> {
    between(T::q(1, 1000), v.abs(), T::i(1000))
}
/// one equation, opaque, through the system solver, damped or not
struct Lone<T>(Opaque<T>);
impl<T: Scal> VectorFn<1, 1> for Lone<T> {
    fn eval<S: Numeric>(&self, x: &[S; 1]) -> [S; 1] {
        // away from the extremes of size the length computation guards against
        let v = self.0.eval(x[0]);
        T::assume(and(vec![middling(own::<S, T>(v)), middling(own::<S, T>(x[0]))]));
        [v]
    }
}
#[derive(Clone)]
struct Slopes<T>(std::marker::PhantomData<T>);
impl<T: Scal> DerivatorMultiVariable for Slopes<T> {
    type Scalar = T;
    fn differentiate<F: ScalarFnN<V>, const V: usize, const O: usize>(&self, _: &F, idx: &[usize; O], x: &[T; V]) -> Result<T, DiffError> {
        assert_eq!((O, idx[0]), (1, 0));
        Ok(T::uf("slope", &[x[0]]))
    }
    fn jacobian_column<F: VectorFn<V, M>, const V: usize, const M: usize>(&self, _: &F, _: usize, x: &[T; V]) -> Result<[T; M], DiffError> {
        let v = T::uf("slope", &[x[0]]);
        T::assume(middling(v));
        Ok([v; M])
    }
}
fn system_any<T: Scal>() {
    let (f, x0) = (Lone(Opaque::<T>::new("f")), T::var("x"));
    let (xt, ft) = (T::nonneg("xtol"), T::nonneg("ftol"));
    let n = T::choose("budget", 3);
    let s = NewtonSystem::from_derivator(Slopes::<T>(std::marker::PhantomData)).with_xtol(xt).with_ftol(ft).with_max_iterations(n);
    let got = s.solve(&f, &[x0]);
    let f = f.0;
    let asked = f.asked();
    let slope = |x: T| T::uf("slope", &[x]);
    T::prove("starts where told", eq(asked[0], x0));
    for p in asked.windows(2) {
        T::prove("Newton's step", and(vec![ne(slope(p[0]), T::ZERO), eq((p[1] - p[0]) * slope(p[0]), -f.at(p[0]))]));
        T::prove("never steps from a root", lt(ft, f.at(p[0]).abs()));
    }
    let last = asked[asked.len() - 1];
    let small = |k: usize| le((asked[k] - asked[k - 1]).abs(), xt * (T::ONE + asked[k].abs()));
    match got {
        Ok(r) => {
            T::prove("answers the last point asked", and(vec![eq(r.root[0], last), eq(r.residual_norm, f.at(last).abs())]));
            match r.termination {
                RootTermination::ResidualTolerance => T::prove("residual within its tolerance", and(vec![le(r.residual_norm, ft), b(r.iterations == asked.len())])),
                RootTermination::StepTolerance => T::prove("step within its tolerance", and(vec![small(asked.len() - 1), b(r.iterations == asked.len() - 1)])),
                _ => T::prove("Newton's reasons", b(false)),
            }
        }
        Err(SolveError::Linalg(_)) => T::prove("flat there", eq(slope(last), T::ZERO)),
        Err(SolveError::DidNotConverge { iters }) => {
            T::prove("budget spent", b(iters == n && asked.len() == n + 1));
            T::prove("no step was small", and((1..asked.len()).map(|k| not(small(k))).collect()));
        }
        Err(_) => T::prove("no other error", b(false)),
    }
}
fn system_damped<T: Scal>() {
    let (f, x0) = (Lone(Opaque::<T>::new("f")), T::var("x"));
    let s = NewtonSystem::from_derivator(Slopes::<T>(std::marker::PhantomData)).with_xtol(T::ZERO).with_ftol(T::ZERO).with_max_iterations(1).with_backtracking(true);
    let got = s.solve(&f, &[x0]);
    let f = f.0;
    let asked = f.asked();
    let d = T::uf("slope", &[x0]);
    let v = f.at(x0);
    for k in 1..asked.len() {
        T::prove("half as far each time", eq((asked[k] - x0) * d * T::i(1 << (k - 1)), -v));
        if k + 1 < asked.len() {
            T::prove("went on only because the residual had not fallen", le(v.abs(), f.at(asked[k]).abs()));
        }
    }
    if asked.len() > 1 && asked.len() < 22 {
        T::prove("stopped because it had", lt(f.at(asked[asked.len() - 1]).abs(), v.abs()));
    }
    T::prove("at most twenty halvings", b(asked.len() <= 22));
    match got {
        Ok(r) => T::prove("answers the last point", and(vec![eq(r.root[0], asked[asked.len() - 1]), eq(r.residual_norm, f.at(r.root[0]).abs())])),
        Err(e) => T::prove("flat, or budget spent", b(matches!(e, SolveError::Linalg(_)) || e == SolveError::DidNotConverge { iters: 1 })),
    }
}
fn newton_refusals<T: Scal>() {
    let x = T::special("value");
    let p = T::var("p");
    /// non-finite at one call, or with a non-finite slope
    struct Odd<T>(usize, T, RefCell<usize>);
    impl<T: Scal> ScalarFn for Odd<T> {
        fn eval<S: Numeric>(&self, p: S) -> S {
            *self.2.borrow_mut() += 1;
            if *self.2.borrow() == self.0 { S::from_f64(self.1.smug()) } else { p * p + S::ONE }
        }
    }
    impl<T: Scal> VectorFn<1, 1> for Odd<T> {
        fn eval<S: Numeric>(&self, p: &[S; 1]) -> [S; 1] {
            [ScalarFn::eval(self, p[0])]
        }
    }
    T::assume(ne(p, T::ZERO));
    let nf = Some(SolveError::NonFinite);
    // calls: value, slope, value after the step
    for k in 1..4 {
        if k == 2 {
            continue;
        }
        let (f, s) = (Odd(k, x, RefCell::new(0)), Newton::from_derivator(AutoDiffSingle::<T>::new()));
        T::prove("scalar", b(s.solve(&f, p).err() == nf));
        let (f, s) = (Odd(k, x, RefCell::new(0)), NewtonSystem::from_derivator(AutoDiffMulti::<T>::new()));
        T::prove("system", b(s.solve(&f, &[p]).err() == nf));
    }
    #[derive(Clone)]
    struct Steep<T>(T);
    impl<T: Scal> DerivatorSingleVariable for Steep<T> {
        type Scalar = T;
        fn differentiate<F: ScalarFn>(&self, _: usize, _: &F, _: T) -> Result<T, DiffError> {
            Ok(self.0)
        }
    }
    impl<T: Scal> DerivatorMultiVariable for Steep<T> {
        type Scalar = T;
        fn differentiate<F: ScalarFnN<V>, const V: usize, const O: usize>(&self, _: &F, _: &[usize; O], _: &[T; V]) -> Result<T, DiffError> {
            Ok(self.0)
        }
        fn jacobian_column<F: VectorFn<V, M>, const V: usize, const M: usize>(&self, _: &F, _: usize, _: &[T; V]) -> Result<[T; M], DiffError> {
            Ok([self.0; M])
        }
    }
    let f = Odd(99, x, RefCell::new(0));
    T::prove("bad slope", b(Newton::from_derivator(Steep(x)).solve(&f, p).err() == nf));
    T::prove("bad slopes", b(NewtonSystem::from_derivator(Steep(x)).solve(&f, &[p]).err() == nf));
    T::prove("bad start", b(Newton::from_derivator(AutoDiffSingle::<T>::new()).solve(&f, x).err() == nf));
    T::prove("bad starting point", b(NewtonSystem::from_derivator(AutoDiffMulti::<T>::new()).solve(&f, &[x]).err() == nf));
}
/// curved systems and curves with known roots, default settings
fn newton_sweep<T: Scal>() {
    struct Curve<T>([T; 2], T);
    impl<T: Scal> VectorFn<2, 2> for Curve<T> {
        fn eval<S: Numeric>(&self, x: &[S; 2]) -> [S; 2] {
            let (p, q, k) = (S::from_f64(self.0[0].smug()), S::from_f64(self.0[1].smug()), S::from_f64(self.1.smug()));
            let (u, v) = (x[0] - p, x[1] - q);
            [u + k * v * v + (u * v).sin(), v.exp() - S::ONE + k * u * u]
        }
    }
    let r = [T::rnd(-5, 5, 16), T::rnd(-5, 5, 16)];
    let f = Curve(r, T::rnd(-1, 1, 8) / T::i(2));
    let x0 = [r[0] + T::rnd(-1, 1, 9) / T::i(4), r[1] + T::rnd(-1, 1, 9) / T::i(4)];
    for damped in [false, true] {
        let g = NewtonSystem::from_derivator(AutoDiffMulti::<T>::new()).with_backtracking(damped).with_ftol(T::from_f64(1e-12)).solve(&f, &x0);
        T::prove("system solved", b(g.is_ok()));
        if let Ok(g) = g {
            let v = f.eval(&g.root);
            T::prove_close("residual", g.residual_norm, (v[0] * v[0] + v[1] * v[1]).sqrt(), 1e-12);
            T::prove_close("root", g.root[0], r[0], 1e-6);
            T::prove_close("root", g.root[1], r[1], 1e-6);
        }
        let c = Cubic([T::rnd(-3, 3, 9), T::rnd(1, 4, 9), T::ZERO, T::rnd(0, 2, 9)]);
        let g = Newton::from_derivator(AutoDiffSingle::<T>::new()).with_backtracking(damped).with_ftol(T::from_f64(1e-12)).solve(&c, T::rnd(-1, 1, 9));
        if damped {
            T::prove("damped Newton on a rising cubic", b(g.is_ok()));
        }
        if let Ok(g) = g {
            T::prove_close("residual", g.residual, c.at(g.root), 1e-12);
            T::prove("solved", le(g.residual.abs(), T::from_f64(1e-9)));
        }
    }
}
fn main() {
    run::main(
        run::Info { id: "C22", assumptions: &[
            "bracketing and Newton loops over an arbitrary function are proved for budgets up to three iterations (Brent two); longer runs are sampled",
            "the function under solution is opaque: only that equal arguments give equal values is used",
        ] },
        vec![
            proof!(bisection_any, "Bisection::solve"),
            proof!(bisection_halves, "Bisection::solve"),
            proof!(brent_any, "Brent::solve"),
            proof!(brent_line, "Brent::solve"),
            proof!(bracket_refusals, "Bisection::solve, Brent::solve"),
            sampled!(bracket_sweep, 400, "Bisection::solve, Brent::solve"),
            proof!(newton_step, "Newton::solve"),
            proof!(newton_any, "Newton::solve"),
            proof!(newton_damped, "Newton::solve"),
            proof!(newton_line, "Newton::solve"),
            proof!(system_affine, "NewtonSystem::solve"),
            proof!(system_singular, "NewtonSystem::solve"),
            proof!(system_any, "NewtonSystem::solve"),
            proof!(system_damped, "NewtonSystem::solve"),
            proof!(newton_refusals, "Newton::solve, NewtonSystem::solve"),
            sampled!(newton_sweep, 200, "Newton::solve, NewtonSystem::solve"),
        ],
    );
}
