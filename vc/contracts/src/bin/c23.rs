use contracts::*;
use multicalc::error::{DiffError, LinalgError, SolveError};
use multicalc::numerical_derivative::{AutoDiffMulti, DerivatorMultiVariable};
use multicalc::optimization::*;
use multicalc::scalar::{Numeric, ScalarFnN, VectorFn};
use std::cell::RefCell;

fn own<S: Copy, T: Scal>(x: S) -> T {
    assert_eq!(std::mem::size_of::<S>(), std::mem::size_of::<T>());
    unsafe { std::mem::transmute_copy(&x) }
}
fn middling<T: Scal>(v: T) -> P<T> {
    between(T::q(1, 1000), v.abs(), T::i(1000))
}
/// residuals known only by name, remembering where they were asked
struct Opaque<T> {
    asked: RefCell<Vec<T>>,
    /// give up on a path that asks more often than this
    most: usize,
}
impl<T: Scal> Opaque<T> {
    fn new(most: usize) -> Self {
        Opaque { asked: RefCell::new(vec![]), most }
    }
    fn at<const M: usize>(&self, x: T) -> [T; M] {
        core::array::from_fn(|i| T::uf(&format!("f{i}"), &[x]))
    }
    fn asked(&self) -> Vec<T> {
        self.asked.borrow().clone()
    }
}
impl<T: Scal, const M: usize> VectorFn<1, M> for Opaque<T> {
    fn eval<S: Numeric>(&self, x: &[S; 1]) -> [S; M] {
        let x: T = own(x[0]);
        if self.asked.borrow().len() >= self.most {
            T::abandon();
        }
        self.asked.borrow_mut().push(x);
        let v: [T; M] = self.at(x);
        // away from the extremes of size the length computation guards against
        T::assume(and(v.iter().map(|v| middling(*v)).chain([middling(x)]).collect()));
        v.map(|v| S::from_f64(v.smug()))
    }
}
/// their slopes, likewise opaque
#[derive(Clone)]
struct Slopes<T>(std::marker::PhantomData<T>);
fn slope<T: Scal, const M: usize>(x: T) -> [T; M] {
    core::array::from_fn(|i| T::uf(&format!("s{i}"), &[x]))
}
impl<T: Scal> DerivatorMultiVariable for Slopes<T> {
    type Scalar = T;
    fn differentiate<F: ScalarFnN<V>, const V: usize, const O: usize>(&self, _: &F, _: &[usize; O], _: &[T; V]) -> Result<T, DiffError> {
        unreachable!()
    }
    fn jacobian_column<F: VectorFn<V, M>, const V: usize, const M: usize>(&self, _: &F, _: usize, x: &[T; V]) -> Result<[T; M], DiffError> {
        let s: [T; M] = slope(x[0]);
        T::assume(and(s.iter().map(|v| middling(*v)).collect()));
        Ok(s)
    }
}
fn blind<T: Scal>() -> Slopes<T> {
    Slopes(std::marker::PhantomData)
}
fn sq<T: Scal>(v: &[T]) -> T {
    dot(v, v)
}
/// the gradient's cosine with every column is within the tolerance
fn stationary<T: Scal, const M: usize>(f: &[T; M], s: &[T; M], gtol: T) -> P<T> {
    let g = dot(s, f);
    le(g * g, gtol * gtol * sq(f) * sq(s))
}
/// |a - b| <= tol a, of two lengths
fn length<T: Scal>(v: &[T]) -> T {
    sq(v).sqrt()
}

// ---- Gauss-Newton over arbitrary residuals
fn gauss_newton_any<T: Scal>() {
    gn_any::<T, 1>()
}
fn gauss_newton_pair<T: Scal>() {
    gn_any::<T, 2>()
}
fn gn_any<T: Scal, const M: usize>() {
    let (f, x0) = (Opaque::<T>::new(9), T::var("x"));
    // with more readings than unknowns only exact stationarity is asked here; the tolerance is below
    let gt = if M == 1 { T::nonneg("gtol") } else { T::ZERO };
    let (ft, xt) = (T::nonneg("ftol"), T::nonneg("xtol"));
    let n = T::choose("budget", 4 - M);
    let s = GaussNewton::from_derivator(blind::<T>()).with_ftol(ft).with_xtol(xt).with_gtol(gt).with_patience(n);
    let got = s.minimize::<_, 1, M>(&f, &[x0]);
    let asked = f.asked();
    T::prove("starts where told", eq(asked[0], x0));
    let at = |x: T| -> [T; M] { f.at(x) };
    for p in asked.windows(2) {
        let s: [T; M] = slope(p[0]);
        T::prove("the Gauss-Newton step", eq((p[1] - p[0]) * sq(&s), -dot(&s, &at(p[0]))));
        T::prove("never steps from a stationary point", not(stationary(&at(p[0]), &s, gt)));
    }
    let k = asked.len() - 1;
    let last = asked[k];
    let short = |k: usize| le((asked[k] - asked[k - 1]).abs(), xt * asked[k].abs());
    let flat = |k: usize| le((length(&at(asked[k - 1])) - length(&at(asked[k]))).abs(), ft * length(&at(asked[k - 1])));
    match got {
        Ok(r) => {
            T::prove("answers the last point asked", eq(r.solution[0], last));
            T::prove("objective is half the squared residual there", eq(r.objective_function * T::TWO, sq(&at(last))));
            T::prove("counts its evaluations", b(r.evaluations == asked.len()));
            match r.termination {
                TerminationReason::Gtol => T::prove("stationary", stationary(&at(last), &slope(last), gt)),
                TerminationReason::Xtol => T::prove("the last step was negligible", and(vec![b(k > 0), short(k.max(1).min(k))])),
                TerminationReason::Ftol => T::prove("the last reduction was negligible", and(vec![b(k > 0), flat(k.max(1).min(k))])),
                _ => T::prove("a stated reason", b(false)),
            }
        }
        Err(SolveError::DidNotConverge { iters }) => {
            T::prove("budget spent", b(iters == asked.len() && asked.len() == n + 1));
            T::prove("no test held", and((1..=k).flat_map(|k| [not(short(k)), not(flat(k))]).collect()));
        }
        Err(_) => T::prove("no other error", b(false)),
    }
}
fn gauss_newton_damped<T: Scal>() {
    let (f, x0) = (Opaque::<T>::new(30), T::var("x"));
    let s = GaussNewton::from_derivator(blind::<T>()).with_ftol(T::ZERO).with_xtol(T::ZERO).with_gtol(T::ZERO).with_patience(1).with_backtracking(true);
    let got = s.minimize::<_, 1, 1>(&f, &[x0]);
    let asked = f.asked();
    let at = |x: T| -> [T; 1] { f.at(x) };
    let d = slope::<T, 1>(x0)[0];
    for k in 1..asked.len() {
        T::prove("half as far each time", eq((asked[k] - x0) * d * T::i(1 << (k - 1)), -at(x0)[0]));
        if k + 1 < asked.len() {
            T::prove("went on only because the cost had not fallen", le(sq(&at(x0)), sq(&at(asked[k]))));
        }
    }
    if asked.len() > 1 && asked.len() < 22 {
        T::prove("stopped because it had", lt(sq(&at(asked[asked.len() - 1])), sq(&at(x0))));
    }
    T::prove("at most twenty halvings", b(asked.len() <= 22));
    match got {
        Ok(r) => T::prove("answers the last point", and(vec![eq(r.solution[0], asked[asked.len() - 1]), eq(r.objective_function * T::TWO, sq(&at(r.solution[0])))])),
        Err(e) => T::prove("budget spent", b(e == SolveError::DidNotConverge { iters: asked.len() })),
    }
}

// ---- affine residuals a x - y
struct Affine<T, const N: usize, const M: usize>(Matrix<M, N, T>, [T; M]);
impl<T: Scal, const N: usize, const M: usize> VectorFn<N, M> for Affine<T, N, M> {
    fn eval<S: Numeric>(&self, x: &[S; N]) -> [S; M] {
        core::array::from_fn(|i| (0..N).fold(-S::from_f64(self.1[i].smug()), |a, j| a + S::from_f64(self.0[(i, j)].smug()) * x[j]))
    }
}
impl<T: Scal, const N: usize, const M: usize> Affine<T, N, M> {
    fn at(&self, x: &[T; N]) -> [T; M] {
        core::array::from_fn(|i| (0..N).fold(-self.1[i], |a, j| a + self.0[(i, j)] * x[j]))
    }
    fn gradient(&self, x: &[T; N]) -> [T; N] {
        mv(&tr(&self.0), &self.at(x))
    }
}
fn truthful<T: Scal, const N: usize, const M: usize>(f: &Affine<T, N, M>, r: &MinimizationReport<N, T>) {
    T::prove("the least-squares solution", and(f.gradient(&r.solution).iter().map(|g| eq(*g, T::ZERO)).collect()));
    T::prove("objective is half the squared residual there", eq(r.objective_function * T::TWO, sq(&f.at(&r.solution))));
}
/// one unknown, every pair of readings: built from the answer x, the residual left over, and the start
fn line_fit<T: Scal>() -> (Affine<T, 1, 2>, T, T) {
    let a = T::vars::<2>("a");
    let (x, x0, w) = (T::var("x"), T::var("start"), T::var("left over"));
    // readings whose leftover w (-a1, a0) is at right angles to the column
    let y = [a[0] * x + a[1] * w, a[1] * x - a[0] * w];
    let f = Affine(Matrix::new([[a[0]], [a[1]]]), y);
    for v in a.iter().copied().chain(f.at(&[x0])).chain(f.at(&[x])).chain([x, x0, x - x0]) {
        T::assume(middling(v));
    }
    (f, x, x0)
}
fn gauss_newton_line<T: Scal>() {
    let (f, x, x0) = line_fit::<T>();
    let s = GaussNewton::from_derivator(AutoDiffMulti::<T>::new()).with_ftol(T::ZERO).with_xtol(T::ZERO).with_gtol(T::ZERO).with_patience(2).with_backtracking(T::choose("damped", 2) == 1);
    let got = s.minimize(&f, &[x0]);
    T::prove("solved", b(got.is_ok()));
    if let Ok(r) = got {
        T::prove("the answer", eq(r.solution[0], x));
        truthful(&f, &r);
        T::prove("at once", b(r.evaluations == 2 && r.termination == TerminationReason::Gtol));
    }
}
/// several unknowns, concrete slopes, every answer, left-over and start
fn several<T: Scal, const N: usize, const M: usize>(a: [[i64; N]; M], left: [i64; M]) {
    let m = Matrix::<M, N, T>::from_fn(|i, j| T::i(a[i][j]));
    let (r, x, w) = (T::vars::<N>("r"), T::vars::<N>("x"), T::var("left over"));
    let y: [T; M] = core::array::from_fn(|i| (0..N).fold(w * T::i(left[i]), |s, j| s + m[(i, j)] * r[j]));
    let f = Affine(m, y);
    for v in f.at(&x).into_iter().chain(r).chain(x).chain([w]) {
        T::assume(middling(v));
    }
    let s = GaussNewton::from_derivator(AutoDiffMulti::<T>::new()).with_ftol(T::ZERO).with_xtol(T::ZERO).with_gtol(T::ZERO).with_patience(2);
    let got = s.minimize(&f, &x);
    T::prove("solved", b(got.is_ok()));
    if let Ok(g) = got {
        T::prove("the answer", eqs(&g.solution, &r));
        truthful(&f, &g);
    }
}
fn gauss_newton_several<T: Scal>() {
    match T::choose("equations", 3) {
        0 => several::<T, 2, _>([[2, 0], [0, -3]], [0, 0]),
        1 => several::<T, 2, _>([[1, 2], [3, 4]], [0, 0]),
        _ => several::<T, 2, _>([[2, 1], [-1, 3], [2, 2]], [8, 2, -7]),
    }
}
/// the cosine test, at every angle between the residual and the slopes
fn stops_when_stationary<T: Scal>() {
    let (u, x, gt) = (T::vars::<2>("residual"), T::var("x"), T::nonneg("gtol"));
    let (w, long) = [([3, 4], 5), ([-12, 5], 13), ([0, 2], 2)][T::choose("slope", 3)];
    for v in [x, u[0], u[1]] {
        T::assume(middling(v));
    }
    let a = w.map(|k| T::i(k));
    let f = Affine(Matrix::new([[a[0]], [a[1]]]), [a[0] * x - u[0], a[1] * x - u[1]]);
    // the cosine times the residual's length
    let (cosine, gt, size) = (dot(&u, &a) / T::i(long), gt, length(&u));
    let within = le(cosine.abs(), gt * size);
    let lm = AutoDiffMulti::<T>::new();
    let watch = Watch(&f, RefCell::new(0), |_: &[T; 1]| {
        T::prove("steps only when the cosine is above the tolerance", not(within.clone()));
    });
    let got = GaussNewton::from_derivator(lm).with_gtol(gt).minimize(&watch, &[x]);
    T::prove("stops at once", b(got.is_ok()));
    if let Ok(r) = got {
        T::prove("stationary", and(vec![within.clone(), eq(r.solution[0], x), b(r.termination == TerminationReason::Gtol && r.evaluations == 1)]));
        T::prove("objective", eq(r.objective_function * T::TWO, dot(&u, &u)));
    }
}
/// hands the second point asked to a witness, and looks no further
struct Watch<'a, F, W>(&'a F, RefCell<usize>, W);
impl<T: Scal, F: VectorFn<1, M> + HasScalar<Of = T>, W: Fn(&[T; 1]), const M: usize> VectorFn<1, M> for Watch<'_, F, W> {
    fn eval<S: Numeric>(&self, x: &[S; 1]) -> [S; M] {
        // the Jacobian's own passes are made at dual numbers, which are wider
        if std::mem::size_of::<S>() == std::mem::size_of::<T>() {
            *self.1.borrow_mut() += 1;
            if *self.1.borrow() == 2 {
                (self.2)(&[own(x[0])]);
                T::abandon();
            }
        }
        self.0.eval(x)
    }
}
trait HasScalar {
    type Of;
}
impl<T: Scal, const N: usize, const M: usize> HasScalar for Affine<T, N, M> {
    type Of = T;
}
impl<T: Scal> HasScalar for Opaque<T> {
    type Of = T;
}
fn levenberg_line<T: Scal>() {
    let (f, x, x0) = line_fit::<T>();
    // a first region that takes the whole step
    let s = LevenbergMarquardt::from_derivator(AutoDiffMulti::<T>::new()).with_ftol(T::ZERO).with_xtol(T::ZERO).with_gtol(T::ZERO).with_patience(2).with_scale_diag(T::choose("scaled", 2) == 1);
    let s = s.with_stepbound(T::i(1_000_000_000));
    let got = s.minimize(&f, &[x0]);
    T::prove("solved", b(got.is_ok()));
    if let Ok(r) = got {
        T::prove("the answer", eq(r.solution[0], x));
        truthful(&f, &r);
        T::prove("at once", b(r.evaluations == 2 && r.termination == TerminationReason::Gtol));
    }
}

// ---- Levenberg-Marquardt over arbitrary residuals
fn levenberg_any<T: Scal>() {
    lm_any::<T, 1>()
}
fn lm_any<T: Scal, const M: usize>() {
    let (f, x0) = (Opaque::<T>::new(2), T::var("x"));
    let (ft, xt, gt) = (T::nonneg("ftol"), T::nonneg("xtol"), T::nonneg("gtol"));
    T::assume(lt(ft, T::ONE));
    let s = LevenbergMarquardt::from_derivator(blind::<T>()).with_ftol(ft).with_xtol(xt).with_gtol(gt).with_patience(1);
    let s = s.with_stepbound(T::i(1_000_000_000));
    let got = s.minimize::<_, 1, M>(&f, &[x0]);
    let asked = f.asked();
    let at = |x: T| -> [T; M] { f.at(x) };
    let s0: [T; M] = slope(x0);
    T::prove("starts where told", eq(asked[0], x0));
    if asked.len() > 1 {
        T::prove("the undamped step when the region holds it", eq((asked[1] - x0) * sq(&s0), -dot(&s0, &at(x0))));
        T::prove("never steps from a stationary point", not(stationary(&at(x0), &s0, gt)));
    }
    match got {
        Ok(r) => {
            T::prove("answers a point it asked", or(asked.iter().map(|x| eq(r.solution[0], *x)).collect()));
            T::prove("objective is half the squared residual there", eq(r.objective_function * T::TWO, sq(&at(r.solution[0]))));
            T::prove("never worse than the start", le(r.objective_function * T::TWO, sq(&at(x0))));
            T::prove("counts its evaluations", b(r.evaluations == asked.len()));
            match r.termination {
                TerminationReason::Gtol => T::prove("stationary", stationary(&at(r.solution[0]), &slope(r.solution[0]), gt)),
                TerminationReason::Ftol => T::prove("the last reduction was negligible", le((sq(&at(x0)) - sq(&at(asked[1]))).abs(), ft * sq(&at(x0)))),
                _ => {}
            }
        }
        Err(SolveError::DidNotConverge { iters }) => T::prove("budget spent", b(iters == asked.len())),
        Err(_) => T::prove("no other error", b(false)),
    }
}
/// a first region too short for the whole step: the step is damped to its edge, downhill
fn levenberg_damped_step<T: Scal>() {
    let pick = |n: &str| if T::choose("sign", 2) == 0 { T::pos(n) } else { -T::pos(n) };
    let (x0, v, d) = (pick("start"), pick("residual"), T::pos("slope"));
    let bound = T::pos("region");
    for k in [x0, v, d, bound, d * x0] {
        T::assume(middling(k));
    }
    let f = Affine(Matrix::new([[d]]), [d * x0 - v]);
    let s = LevenbergMarquardt::from_derivator(AutoDiffMulti::<T>::new()).with_ftol(T::ZERO).with_xtol(T::ZERO).with_gtol(T::ZERO).with_patience(1).with_stepbound(bound);
    let watch = Watch(&f, RefCell::new(0), |x: &[T; 1]| {
        let step = x[0] - x0;
        T::prove("downhill", lt(step * v, T::ZERO));
        T::prove("no further than the root of the tangent", le((step * d).abs(), v.abs()));
        T::prove("inside the region", le((step * d).abs(), bound * (d * x0).abs() * T::q(11, 10)));
        T::prove("the whole step, or to the edge of the region", or(vec![eq(step * d, -v), ge((step * d).abs(), bound * (d * x0).abs() * T::q(9, 10))]));
    });
    let got = s.minimize::<_, 1, 1>(&watch, &[x0]);
    T::prove("tries a step", b(got.is_err() && false));
}
fn refusals<T: Scal>() {
    let w = T::special("value");
    let p = T::pos("p");
    T::assume(middling(p));
    struct Odd<T>(usize, T, RefCell<usize>);
    impl<T: Scal, const N: usize, const M: usize> VectorFn<N, M> for Odd<T> {
        fn eval<S: Numeric>(&self, x: &[S; N]) -> [S; M] {
            *self.2.borrow_mut() += 1;
            let odd = *self.2.borrow() == self.0;
            core::array::from_fn(|i| if odd && i + 1 == M { S::from_f64(self.1.smug()) } else { x[0] + S::ONE })
        }
    }
    #[derive(Clone)]
    struct Fixed<T>(T);
    impl<T: Scal> DerivatorMultiVariable for Fixed<T> {
        type Scalar = T;
        fn differentiate<F: ScalarFnN<V>, const V: usize, const O: usize>(&self, _: &F, _: &[usize; O], _: &[T; V]) -> Result<T, DiffError> {
            unreachable!()
        }
        fn jacobian_column<F: VectorFn<V, M>, const V: usize, const M: usize>(&self, _: &F, _: usize, _: &[T; V]) -> Result<[T; M], DiffError> {
            Ok(core::array::from_fn(|i| if i + 1 == M { self.0 } else { T::ONE }))
        }
    }
    let odd = |k: usize| Odd(k, w, RefCell::new(0));
    let (gn, lm) = (|d: T| GaussNewton::from_derivator(Fixed(d)), |d: T| LevenbergMarquardt::from_derivator(Fixed(d)));
    let nf = Some(SolveError::NonFinite);
    for k in [1, 2] {
        T::prove("Gauss-Newton: residuals", b(gn(T::ONE).minimize::<_, 1, 2>(&odd(k), &[p]).err() == nf));
        T::prove("Levenberg-Marquardt: residuals", b(lm(T::ONE).minimize::<_, 1, 2>(&odd(k), &[p]).err() == nf));
    }
    T::prove("Gauss-Newton: slopes", b(gn(w).minimize::<_, 1, 2>(&odd(9), &[p]).err() == nf));
    T::prove("Levenberg-Marquardt: slopes", b(lm(w).minimize::<_, 1, 2>(&odd(9), &[p]).err() == nf));
    let short = Some(SolveError::Linalg(LinalgError::Underdetermined));
    T::prove("Gauss-Newton: fewer readings than unknowns", b(gn(T::ONE).minimize::<_, 2, 1>(&odd(9), &[p, p]).err() == short));
    T::prove("Levenberg-Marquardt: fewer readings than unknowns", b(lm(T::ONE).minimize::<_, 2, 1>(&odd(9), &[p, p]).err() == short));
    T::prove("Gauss-Newton: columns alike", b(gn(T::ONE).minimize::<_, 2, 2>(&odd(9), &[p, p]).err() == Some(SolveError::Linalg(LinalgError::Singular))));
    T::prove("Gauss-Newton: no budget", b(gn(T::ONE).with_patience(0).minimize::<_, 1, 2>(&odd(9), &[p]).err() == Some(SolveError::DidNotConverge { iters: 1 })));
    T::prove("Levenberg-Marquardt: no budget", b(lm(T::ONE).with_patience(0).minimize::<_, 1, 2>(&odd(9), &[p]).err() == Some(SolveError::DidNotConverge { iters: 1 })));
}
/// a fit that is already perfect is answered where it stands
fn perfect_start<T: Scal>() {
    let (a, x) = (T::vars::<2>("a"), T::var("x"));
    for v in [a[0], a[1], x] {
        T::assume(middling(v));
    }
    let f = Affine(Matrix::new([[a[0]], [a[1]]]), [a[0] * x, a[1] * x]);
    for got in [GaussNewton::from_derivator(AutoDiffMulti::<T>::new()).minimize(&f, &[x]), LevenbergMarquardt::from_derivator(AutoDiffMulti::<T>::new()).minimize(&f, &[x])] {
        T::prove("answered", b(got.is_ok()));
        if let Ok(r) = got {
            T::prove("where it stands", and(vec![eq(r.solution[0], x), eq(r.objective_function, T::ZERO), b(r.evaluations == 1 && r.termination == TerminationReason::Gtol)]));
        }
    }
}

// ---- sampled: whole runs on problems of several unknowns
fn counted<T: Scal, F: VectorFn<N, M>, const N: usize, const M: usize>(f: &F, x: &[T; N]) -> T {
    let v = f.eval(x);
    sq(&v)
}
struct Counted<'a, F>(&'a F, RefCell<usize>);
impl<F: VectorFn<N, M>, const N: usize, const M: usize> VectorFn<N, M> for Counted<'_, F> {
    fn eval<S: Numeric>(&self, x: &[S; N]) -> [S; M] {
        // the Jacobian's own passes are made at dual numbers, which are wider
        if std::mem::size_of::<S>() == 8 {
            *self.1.borrow_mut() += 1;
        }
        self.0.eval(x)
    }
}
fn affine_sweep<T: Scal>() {
    let rank_short = T::choose("rank", 8) == 0;
    let mut a = Matrix::<5, 3, T>::from_fn(|_, _| T::rnd(-3, 3, 9));
    let y: [T; 5] = core::array::from_fn(|_| T::rnd(-9, 9, 9));
    if rank_short {
        for i in 0..5 {
            a[(i, 2)] = a[(i, 0)] * T::TWO - a[(i, 1)];
        }
    }
    let f = Affine(a, y);
    let x0: [T; 3] = core::array::from_fn(|_| T::rnd(-30, 30, 9));
    let n = sq(&f.at(&x0));
    // orthogonal to every column, to a part in 10^7
    let good = |x: &[T; 3]| and(f.gradient(x).iter().map(|g| le(g.abs(), (T::ONE + n) * T::from_f64(1e-7))).collect());
    let d = det(&(0..3).map(|i| (0..3).map(|j| sum(&(0..5).map(|k| a[(k, i)] * a[(k, j)]).collect::<Vec<_>>())).collect()).collect::<Vec<_>>());
    let full = T::holds(le(T::ONE, d));
    if full || rank_short {
        let g = Counted(&f, RefCell::new(0));
        let got = GaussNewton::from_derivator(AutoDiffMulti::<T>::new()).with_backtracking(T::choose("damped", 2) == 1).minimize(&g, &x0);
        T::prove("Gauss-Newton solves full rank only", b(got.is_ok() == full || rank_short));
        if let Ok(r) = got {
            T::prove("Gauss-Newton: least squares", good(&r.solution));
            T::prove_close("Gauss-Newton: objective", r.objective_function * T::TWO, sq(&f.at(&r.solution)), 1e-9);
            T::prove("Gauss-Newton: evaluations", b(r.evaluations == *g.1.borrow()));
        }
    }
    let g = Counted(&f, RefCell::new(0));
    let bound = [T::q(1, 100), T::ONE, T::i(100)][T::choose("region", 3)];
    let got = LevenbergMarquardt::from_derivator(AutoDiffMulti::<T>::new()).with_stepbound(bound).with_scale_diag(T::choose("scaled", 2) == 1).with_patience(1000).minimize(&g, &x0);
    T::prove("Levenberg-Marquardt solves any rank", b(got.is_ok()));
    if let Ok(r) = got {
        T::prove("Levenberg-Marquardt: least squares", good(&r.solution));
        T::prove_close("Levenberg-Marquardt: objective", r.objective_function * T::TWO, sq(&f.at(&r.solution)), 1e-9);
        T::prove("Levenberg-Marquardt: evaluations", b(r.evaluations == *g.1.borrow()));
    }
}
/// p exp(q t) + r at eight times, against readings of it with noise; and Rosenbrock's valley
struct Decay<T>([T; 8]);
impl<T: Scal> VectorFn<3, 8> for Decay<T> {
    fn eval<S: Numeric>(&self, x: &[S; 3]) -> [S; 8] {
        core::array::from_fn(|i| x[0] * (x[1] * S::from_f64(i as f64 * 0.25)).exp() + x[2] - S::from_f64(self.0[i].smug()))
    }
}
struct Valley<T>(T);
impl<T: Scal> VectorFn<2, 3> for Valley<T> {
    fn eval<S: Numeric>(&self, x: &[S; 2]) -> [S; 3] {
        let k = S::from_f64(self.0.smug());
        [k * (x[1] - x[0] * x[0]), S::ONE - x[0], x[0] * x[1] / S::from_f64(50.0)]
    }
}
fn run_sweep<T: Scal, F: VectorFn<N, M>, const N: usize, const M: usize>(f: &F, x0: [T; N]) {
    let start = counted(f, &x0);
    let bound = [T::q(1, 10), T::ONE, T::i(100)][T::choose("region", 3)];
    let tol = [T::from_f64(1e-3), T::from_f64(1e-8), T::EPSILON_X30][T::choose("tolerance", 3)];
    let n = [3, 10, 1000][T::choose("budget", 3)];
    let g = Counted(f, RefCell::new(0));
    let lm = LevenbergMarquardt::from_derivator(AutoDiffMulti::<T>::new()).with_stepbound(bound).with_scale_diag(T::choose("scaled", 2) == 1).with_ftol(tol).with_xtol(tol).with_gtol(tol).with_patience(n);
    let got = lm.minimize(&g, &x0);
    if n == 1000 && N == 2 {
        T::prove("Levenberg-Marquardt settles", b(got.is_ok()));
    }
    let gn = GaussNewton::from_derivator(AutoDiffMulti::<T>::new()).with_backtracking(true).with_ftol(tol).with_xtol(tol).with_gtol(tol).with_patience(n);
    let h = Counted(f, RefCell::new(0));
    let back = gn.minimize(&h, &x0);
    for (which, got, calls) in [(0, got, *g.1.borrow()), (1, back, *h.1.borrow())] {
        match got {
            Ok(r) => {
                T::prove_close("objective is half the squared residual", r.objective_function * T::TWO, counted(f, &r.solution), 1e-9);
                T::prove("counts its evaluations", b(r.evaluations == calls));
                if which == 0 {
                    T::prove("never worse than the start", le(r.objective_function * T::TWO, start * T::from_f64(1.0 + 1e-12)));
                }
                if r.termination == TerminationReason::Gtol {
                    let j = multicalc::numerical_derivative::Jacobian::from_derivator(AutoDiffMulti::<T>::new()).evaluate(f, &r.solution).unwrap();
                    let v = f.eval(&r.solution);
                    for c in 0..N {
                        let col: Vec<T> = (0..M).map(|i| j[(i, c)]).collect();
                        T::prove("stationary", le(dot(&col, &v).abs(), tol * T::from_f64(1.0001) * length(&v) * length(&col) + T::from_f64(1e-12)));
                    }
                }
            }
            Err(SolveError::DidNotConverge { iters }) => T::prove("counts its evaluations", b(iters == calls)),
            Err(SolveError::Linalg(LinalgError::Singular)) if which == 1 => {}
            Err(SolveError::NonFinite) => {}
            Err(_) => T::prove("no other error", b(false)),
        }
    }
}
fn curve_sweep<T: Scal>() {
    if T::choose("problem", 2) == 0 {
        let (p, q, r) = (T::rnd(1, 5, 9), T::rnd(-3, 1, 9), T::rnd(-2, 2, 9));
        let y: [T; 8] = core::array::from_fn(|i| p * (q * T::i(i as i64) / T::i(4)).exp() + r + T::rnd(-1, 1, 64) / T::i(10));
        run_sweep(&Decay(y), [p + T::rnd(-1, 1, 9), q + T::rnd(-1, 1, 9), r + T::rnd(-1, 1, 9)]);
    } else {
        run_sweep(&Valley(T::rnd(1, 10, 9)), [T::rnd(-2, 2, 9), T::rnd(-2, 2, 9)]);
    }
}
fn main() {
    run::main(
        run::Info { id: "C23", assumptions: &[
            "runs over arbitrary residuals are proved for one unknown and budgets up to two iterations (Levenberg-Marquardt one trial); longer runs and more unknowns are sampled",
            "residuals and slopes are opaque: only that equal arguments give equal values is used; their sizes lie between 1/1000 and 1000, away from the extremes the length computation rescales",
        ] },
        vec![
            proof!(gauss_newton_any, "GaussNewton::minimize"),
            proof!(gauss_newton_pair, "GaussNewton::minimize"),
            proof!(gauss_newton_damped, "GaussNewton::minimize"),
            proof!(gauss_newton_line, "GaussNewton::minimize"),
            proof!(gauss_newton_several, "GaussNewton::minimize"),
            proof!(levenberg_line, "LevenbergMarquardt::minimize"),
            proof!(levenberg_any, "LevenbergMarquardt::minimize"),
            proof!(stops_when_stationary, "GaussNewton::minimize"),
            proof!(levenberg_damped_step, "LevenbergMarquardt::minimize, determine_lambda_and_parameter_update"),
            proof!(perfect_start, "GaussNewton::minimize, LevenbergMarquardt::minimize"),
            proof!(refusals, "GaussNewton::minimize, LevenbergMarquardt::minimize"),
            sampled!(affine_sweep, 200, "GaussNewton::minimize, LevenbergMarquardt::minimize"),
            sampled!(curve_sweep, 200, "GaussNewton::minimize, LevenbergMarquardt::minimize, determine_lambda_and_parameter_update"),
        ],
    );
}
