use contracts::*;
use multicalc::approximation::{LinearApproximator, QuadraticApproximator};
use multicalc::error::DiffError;
use multicalc::numerical_derivative::*;
use multicalc::scalar::{Dual, ScalarFn, ScalarFnN, VectorFn};
use multicalc::vector_field::{curl_2d, curl_3d, divergence_2d, divergence_3d};

/// polynomial with free coefficients: the test function given to the library
#[derive(Clone)]
struct Pn<T, const N: usize>(Vec<(T, [u32; N])>);
fn ipow<S: Numeric>(x: S, k: u32) -> S {
    let mut a = S::ONE;
    for _ in 0..k {
        a = a * x;
    }
    a
}
impl<T: Scal, const N: usize> Pn<T, N> {
    /// all monomials with exponents at most `cap` per variable and total degree at most `deg`
    fn new(name: &str, cap: [u32; N], deg: u32) -> Self {
        let mut v = vec![];
        let total: u32 = cap.iter().map(|c| c + 1).product();
        for code in 0..total {
            let mut c = code;
            let mut e = [0; N];
            for i in 0..N {
                e[i] = c % (cap[i] + 1);
                c /= cap[i] + 1;
            }
            if e.iter().sum::<u32>() <= deg {
                v.push((T::var(&format!("{name}{e:?}")), e));
            }
        }
        Pn(v)
    }
    fn at(&self, x: &[T; N]) -> T {
        sum(&self.0.iter().map(|(c, e)| (0..N).fold(*c, |a, i| a * ipow(x[i], e[i]))).collect::<Vec<_>>())
    }
    fn d(&self, i: usize) -> Self {
        Pn(self.0.iter().filter(|(_, e)| e[i] > 0).map(|(c, e)| {
            let mut f = *e;
            f[i] -= 1;
            (*c * T::i(e[i] as i64), f)
        }).collect())
    }
    fn generic<S: Numeric>(&self, x: &[S; N]) -> S {
        let mut s = S::ZERO;
        for (c, e) in &self.0 {
            let mut t = S::from_f64(c.smug());
            for i in 0..N {
                t = t * ipow(x[i], e[i]);
            }
            s = s + t;
        }
        s
    }
}
impl<T: Scal, const N: usize> ScalarFnN<N> for Pn<T, N> {
    fn eval<S: Numeric>(&self, x: &[S; N]) -> S {
        self.generic(x)
    }
}
impl<T: Scal> ScalarFn for Pn<T, 1> {
    fn eval<S: Numeric>(&self, x: S) -> S {
        self.generic(&[x])
    }
}
struct Fields<T, const N: usize, const M: usize>([Pn<T, N>; M]);
impl<T: Scal, const N: usize, const M: usize> VectorFn<N, M> for Fields<T, N, M> {
    fn eval<S: Numeric>(&self, x: &[S; N]) -> [S; M] {
        std::array::from_fn(|i| self.0[i].generic(x))
    }
}
fn val<T: Scal>(name: &str, r: Result<T, DiffError>, want: T) {
    match r {
        Ok(v) => T::prove(name, eq(v, want)),
        Err(_) => T::prove(name, P::B(false)),
    }
}
fn auto_single<T: Scal>() {
    let x = T::var("x");
    let f = Pn::<T, 1>::new("c", [7], 7);
    let a = AutoDiffSingle::<T>::new();
    let mut d = f.clone();
    for k in 1..7 {
        d = d.d(0);
        val("derivative of every order", a.differentiate(k, &f, x), d.at(&[x]));
        if k == 1 {
            T::prove("derivative", eq(derivative(&f, x), d.at(&[x])));
            val("first_derivative", a.first_derivative(&f, x), d.at(&[x]));
        }
        if k == 2 {
            T::prove("second_derivative", eq(second_derivative(&f, x), d.at(&[x])));
            val("second_derivative", a.second_derivative(&f, x), d.at(&[x]));
        }
    }
    T::prove("order zero", P::B(matches!(a.differentiate(0, &f, x), Err(DiffError::OrderZero))));
    for k in [7, 8, 100, usize::MAX] {
        T::prove("unsupported order", P::B(matches!(a.differentiate(k, &f, x), Err(DiffError::OrderUnsupported))));
    }
    // a function with transcendental parts
    struct G;
    impl ScalarFn for G {
        fn eval<S: Numeric>(&self, x: S) -> S {
            x.sin() * (S::TWO * x).exp()
        }
    }
    let (s, c, e) = (x.sin(), x.cos(), (T::TWO * x).exp());
    // f^(k) = Im((2 + i)^k) form
    let (mut p, mut q) = (T::ONE, T::ZERO);
    for k in 1..7 {
        (p, q) = (T::TWO * p - q, T::TWO * q + p);
        val("transcendental function", a.differentiate(k, &G, x), e * (p * s + q * c));
    }
    // nested: the derivative of a derivative
    struct D<T>(Pn<T, 1>);
    impl<T: Scal> ScalarFn for D<T> {
        fn eval<S: Numeric>(&self, x: S) -> S {
            derivative(&self.0, x)
        }
    }
    T::prove("nested differentiation", eq(derivative(&D(f.clone()), x), f.d(0).d(0).at(&[x])));
    let y = T::var("y");
    let n = derivative(&f, Dual::new(x, y));
    T::prove("perturbations do not mix", eqs(&[n.value, n.deriv], &[f.d(0).at(&[x]), f.d(0).d(0).at(&[x]) * y]));
}
fn auto_multi<T: Scal>() {
    let x = T::vars::<3>("x");
    let f = Pn::<T, 3>::new("c", [3, 3, 3], 3);
    let a = AutoDiffMulti::<T>::new();
    for i in 0..3 {
        let fi = f.d(i);
        val("partial", a.differentiate(&f, &[i], &x), fi.at(&x));
        val("first partial", a.first_partial_derivative(&f, i, &x), fi.at(&x));
        val("partial()", partial(&f, i, &x), fi.at(&x));
        for j in 0..3 {
            let fij = fi.d(j);
            val("mixed partial", a.differentiate(&f, &[i, j], &x), fij.at(&x));
            val("second partial", a.second_partial_derivative(&f, &[i, j], &x), fij.at(&x));
            for k in 0..3 {
                val("third partial", a.differentiate(&f, &[i, j, k], &x), fij.d(k).at(&x));
            }
        }
    }
    let oob = |r: Result<T, DiffError>| T::prove("index out of range", P::B(matches!(r, Err(DiffError::IndexOutOfRange))));
    oob(a.differentiate(&f, &[3], &x));
    oob(a.differentiate(&f, &[0, 3], &x));
    oob(a.differentiate(&f, &[4, 0], &x));
    oob(a.differentiate(&f, &[0, 1, 3], &x));
    oob(partial(&f, 3, &x));
    T::prove("order zero", P::B(matches!(a.differentiate(&f, &[], &x), Err(DiffError::OrderZero))));
    T::prove("unsupported order", P::B(matches!(a.differentiate(&f, &[0, 0, 0, 0], &x), Err(DiffError::OrderUnsupported))));
}
struct Trig;
impl VectorFn<3, 2> for Trig {
    fn eval<S: Numeric>(&self, p: &[S; 3]) -> [S; 2] {
        [p[0].sin() * p[1] + p[2].exp(), p[0] * p[1] * p[2]]
    }
}
fn jacobians<T: Scal>() {
    let x = T::vars::<3>("x");
    let f = Fields::<T, 3, 2>([Pn::new("f", [2, 2, 2], 3), Pn::new("g", [2, 2, 2], 3)]);
    let j = Jacobian::<AutoDiffMulti<T>>::default();
    let m = j.evaluate(&f, &x).unwrap();
    let h = j.evaluate_on_heap(&f, &x).unwrap();
    T::prove("heap shape", P::B(h.len() == 2 && h.iter().all(|r| r.len() == 3)));
    for r in 0..2 {
        for c in 0..3 {
            let want = f.0[r].d(c).at(&x);
            T::prove("entry (m, n)", eqs(&[m[(r, c)], h[r][c]], &[want, want]));
        }
    }
    let m = j.evaluate(&Trig, &x).unwrap();
    let want = Matrix::new([[x[0].cos() * x[1], x[0].sin(), x[2].exp()], [x[1] * x[2], x[0] * x[2], x[0] * x[1]]]);
    T::prove("transcendental field", meq(&m, &want));
    let e = Fields::<T, 3, 0>([]);
    T::prove("empty function set", P::B(matches!(j.evaluate(&e, &x), Err(DiffError::EmptyFunctionSet))));
    T::prove("empty function set", P::B(matches!(j.evaluate_on_heap(&e, &x), Err(DiffError::EmptyFunctionSet))));
    let a = AutoDiffMulti::<T>::new();
    for c in 0..3 {
        match a.jacobian_column(&f, c, &x) {
            Ok(v) => T::prove("column", eqs(&v, &[m_at(&f.0[0], c, &x), m_at(&f.0[1], c, &x)])),
            Err(_) => T::prove("column", P::B(false)),
        }
    }
    T::prove("column out of range", P::B(matches!(a.jacobian_column(&f, 3, &x), Err(DiffError::IndexOutOfRange))));
}
fn m_at<T: Scal>(p: &Pn<T, 3>, c: usize, x: &[T; 3]) -> T {
    p.d(c).at(x)
}
fn hessians<T: Scal>() {
    let x = T::vars::<3>("x");
    let f = Pn::<T, 3>::new("f", [3, 3, 3], 4);
    let h = Hessian::<AutoDiffMulti<T>>::default().evaluate(&f, &x).unwrap();
    for r in 0..3 {
        for c in 0..3 {
            T::prove("second partial", eq(h[(r, c)], f.d(r).d(c).at(&x)));
        }
    }
    T::prove("symmetric", msame(&h, &tr(&h)));
}
fn vector_calculus<T: Scal>() {
    let x = T::vars::<3>("x");
    let f = Fields::<T, 3, 3>([Pn::new("f", [2, 2, 2], 2), Pn::new("g", [2, 2, 2], 2), Pn::new("h", [2, 2, 2], 2)]);
    let d = |i: usize, j: usize| f.0[i].d(j).at(&x);
    let a = AutoDiffMulti::<T>::new();
    match curl_3d(a, &f, &x) {
        Ok(c) => T::prove("curl", eqs(&c, &[d(2, 1) - d(1, 2), d(0, 2) - d(2, 0), d(1, 0) - d(0, 1)])),
        Err(_) => T::prove("curl", P::B(false)),
    }
    val("divergence", divergence_3d(a, &f, &x), d(0, 0) + d(1, 1) + d(2, 2));
    let y = [x[0], x[1]];
    let g = Fields::<T, 2, 2>([Pn::new("p", [2, 2], 3), Pn::new("q", [2, 2], 3)]);
    let d = |i: usize, j: usize| g.0[i].d(j).at(&y);
    val("2d curl", curl_2d(a, &g, &y), d(1, 0) - d(0, 1));
    val("2d divergence", divergence_2d(a, &g, &y), d(0, 0) + d(1, 1));
    // fields that also depend on a parameter, and too few variables
    let g = Fields::<T, 3, 2>([Pn::new("r", [1, 1, 1], 3), Pn::new("s", [1, 1, 1], 3)]);
    let d = |i: usize, j: usize| g.0[i].d(j).at(&x);
    val("2d curl in space", curl_2d(a, &g, &x), d(1, 0) - d(0, 1));
    val("2d divergence in space", divergence_2d(a, &g, &x), d(0, 0) + d(1, 1));
    let s = Fields::<T, 1, 2>([Pn::new("t", [1], 1), Pn::new("u", [1], 1)]);
    T::prove("too few variables", P::B(matches!(curl_2d(a, &s, &[x[0]]), Err(DiffError::IndexOutOfRange))));
    T::prove("too few variables", P::B(matches!(divergence_2d(a, &s, &[x[0]]), Err(DiffError::IndexOutOfRange))));
    // finite differences are exact on these quadratics too
    let fd = FiniteDifferenceMulti::from_parameters(T::pos("h"), FiniteDifferenceMode::Central, T::ONE);
    let d = |i: usize, j: usize| f.0[i].d(j).at(&x);
    match curl_3d(fd, &f, &x) {
        Ok(c) => T::prove("curl by differences", eqs(&c, &[d(2, 1) - d(1, 2), d(0, 2) - d(2, 0), d(1, 0) - d(0, 1)])),
        Err(_) => T::prove("curl by differences", P::B(false)),
    }
}
const MODES: [FiniteDifferenceMode; 3] = [FiniteDifferenceMode::Forward, FiniteDifferenceMode::Backward, FiniteDifferenceMode::Central];
fn offs(m: usize) -> (i64, i64) {
    [(0, 1), (-1, 0), (-1, 1)][m]
}
/// specification: the repeated difference quotient over the given steps
fn quotient<T: Scal>(f: &dyn Fn(T) -> T, x: T, m: usize, steps: &[T]) -> T {
    match steps {
        [] => f(x),
        [h, rest @ ..] => {
            let (lo, hi) = offs(m);
            (quotient(f, x + T::i(hi) * *h, m, rest) - quotient(f, x + T::i(lo) * *h, m, rest)) / (T::i(hi - lo) * *h)
        }
    }
}
fn difference_single<T: Scal>() {
    let m = T::choose("mode", 3);
    let (x, h, k) = (T::var("x"), T::pos("h"), T::pos("multiplier"));
    let d = FiniteDifferenceSingle::from_parameters(h, MODES[m], k);
    for n in 1..5usize {
        // the stencil of order n is exact up to degree n (n + 1 when centred)
        let deg = n as u32 + (m == 2) as u32;
        let f = Pn::<T, 1>::new(&format!("c{n}"), [deg], deg);
        let mut w = f.clone();
        for _ in 0..n {
            w = w.d(0);
        }
        val("exact up to its degree", d.differentiate(n, &f, x), w.at(&[x]));
    }
    // beyond that it is the repeated difference quotient with growing steps
    let f = Pn::<T, 1>::new("c", [4], 4);
    let g = |y: T| f.at(&[y]);
    val("order 1", d.first_derivative(&f, x), quotient(&g, x, m, &[h]));
    val("order 2", d.second_derivative(&f, x), quotient(&g, x, m, &[h, k * h]));
    val("order 3", d.differentiate(3, &f, x), quotient(&g, x, m, &[h, k * h, k * k * h]));
    T::prove("order zero", P::B(matches!(d.differentiate(0, &f, x), Err(DiffError::OrderZero))));
}
fn difference_multi<T: Scal>() {
    let m = T::choose("mode", 3);
    let x = T::vars::<2>("x");
    let (h, k) = (T::pos("h"), T::pos("multiplier"));
    let d = FiniteDifferenceMulti::from_parameters(h, MODES[m], k);
    let (i, j) = (T::choose("i", 2), T::choose("j", 2));
    let b = 1 + (m == 2) as u32;
    let f = Pn::<T, 2>::new("f", [b, b], 2 * b);
    val("first partial exact", d.first_partial_derivative(&f, i, &x), f.d(i).at(&x));
    val("first partial exact", d.differentiate(&f, &[i], &x), f.d(i).at(&x));
    if i != j {
        val("mixed partial exact", d.second_partial_derivative(&f, &[i, j], &x), f.d(i).d(j).at(&x));
    } else {
        let c = b + 1;
        let g = Pn::<T, 2>::new("g", [c, c], c);
        val("pure second partial exact", d.second_partial_derivative(&g, &[i, i], &x), g.d(i).d(i).at(&x));
    }
    let g = Pn::<T, 2>::new("t", [3, 3], 3);
    val("third partial exact", d.differentiate(&g, &[i, j, 0], &x), g.d(i).d(j).d(0).at(&x));
    let v = Fields::<T, 2, 2>([f.clone(), Pn::new("v", [b, b], 2 * b)]);
    match d.jacobian_column(&v, j, &x) {
        Ok(c) => T::prove("column exact", eqs(&c, &[v.0[0].d(j).at(&x), v.0[1].d(j).at(&x)])),
        Err(_) => T::prove("column exact", P::B(false)),
    }
    match Jacobian::from_derivator(d).evaluate(&v, &x) {
        Ok(c) => T::prove("jacobian by differences", meq(&c, &Matrix::from_fn(|r, c| v.0[r].d(c).at(&x)))),
        Err(_) => T::prove("jacobian by differences", P::B(false)),
    }
    let g2 = Pn::<T, 2>::new("s", [b + 1, b + 1], 2);
    match Hessian::from_derivator(d).evaluate(&g2, &x) {
        Ok(c) => T::prove("hessian by differences", meq(&c, &Matrix::from_fn(|r, c| g2.d(r).d(c).at(&x)))),
        Err(_) => T::prove("hessian by differences", P::B(false)),
    }
    // cubic: the difference quotient in that one variable
    let q = Pn::<T, 2>::new("q", [3, 1], 3);
    let line = |y: T| q.at(&[y, x[1]]);
    val("difference quotient", d.differentiate(&q, &[0], &x), quotient(&line, x[0], m, &[h]));
    T::prove("order zero", P::B(matches!(d.differentiate(&q, &[], &x), Err(DiffError::OrderZero))));
    let oob = |r: Result<T, DiffError>| T::prove("index out of range", P::B(matches!(r, Err(DiffError::IndexOutOfRange))));
    oob(d.differentiate(&q, &[2], &x));
    oob(d.differentiate(&q, &[0, 2], &x));
    oob(d.differentiate(&q, &[5, 0], &x));
    T::prove("column out of range", P::B(matches!(d.jacobian_column(&v, 2, &x), Err(DiffError::IndexOutOfRange))));
}
fn bad_steps<T: Scal>() {
    let m = T::choose("mode", 3);
    let (s, e) = match T::choose("step", 3) {
        0 => (T::ZERO, DiffError::StepSizeZero),
        1 => (-T::pos("h"), DiffError::InvalidStepSize),
        _ => (T::special("s"), DiffError::InvalidStepSize),
    };
    let x = T::var("x");
    let f = Pn::<T, 1>::new("f", [1], 1);
    let d = FiniteDifferenceSingle::from_parameters(s, MODES[m], T::TWO);
    T::prove("step refused", P::B(d.differentiate(1, &f, x) .err() == Some(e)));
    T::prove("step refused", P::B(d.differentiate(3, &f, x).err() == Some(e)));
    let d = FiniteDifferenceMulti::from_parameters(s, MODES[m], T::TWO);
    T::prove("step refused", P::B(d.differentiate(&f, &[0], &[x]).err() == Some(e)));
    let v = Fields::<T, 1, 1>([f]);
    T::prove("step refused", P::B(d.jacobian_column(&v, 0, &[x]).err() == Some(e)));
    T::prove("step refused", P::B(Jacobian::from_derivator(d).evaluate(&v, &[x]).err() == Some(e)));
}
fn defaults<T: Scal>() {
    let c = FiniteDifferenceConfig::<T>::default();
    T::prove("default mode", P::B(c.method == FiniteDifferenceMode::Central));
    T::prove("default steps", and(vec![
        eq(c.step_size * c.step_size * c.step_size, T::EPSILON),
        eq(c.step_size_multiplier, T::TEN),
        eq(FiniteDifferenceSingle::<T>::default().config.step_size, c.step_size),
        eq(FiniteDifferenceMulti::<T>::default().config.step_size, c.step_size),
    ]));
    for m in [FiniteDifferenceMode::Forward, FiniteDifferenceMode::Backward] {
        let h = m.default_step_size::<T>();
        T::prove("one-sided default step", eq(h * h, T::EPSILON));
    }
}
fn approximations<T: Scal>() {
    let p = T::vars::<2>("p");
    let x = T::vars::<2>("x");
    let f = Pn::<T, 2>::new("f", [3, 3], 3);
    let l = LinearApproximator::<AutoDiffMulti<T>>::default().approximate(&f, &p).unwrap();
    let g = [f.d(0).at(&p), f.d(1).at(&p)];
    let dx = [x[0] - p[0], x[1] - p[1]];
    let lin = f.at(&p) + g[0] * dx[0] + g[1] * dx[1];
    T::prove("linear prediction", eq(l.predict(&x), lin));
    T::prove("gradient", eqs(l.coefficients(), &g));
    T::prove("centre", eqs(l.point(), &p));
    T::prove("intercept", eq(l.intercept() + g[0] * x[0] + g[1] * x[1], lin));
    let q = QuadraticApproximator::<AutoDiffMulti<T>>::default().approximate(&f, &p).unwrap();
    let h = |i: usize, j: usize| f.d(i).d(j).at(&p);
    let quad = lin + T::HALF * (h(0, 0) * dx[0] * dx[0] + T::TWO * h(0, 1) * dx[0] * dx[1] + h(1, 1) * dx[1] * dx[1]);
    T::prove("quadratic prediction", eq(q.predict(&x), quad));
    T::prove("gradient", eqs(q.gradient(), &g));
    T::prove("hessian", eqs(&q.hessian().concat(), &[h(0, 0), h(0, 1), h(1, 0), h(1, 1)]));
    T::prove("centre", eqs(q.point(), &p));
}
fn metrics<T: Scal>() {
    const K: usize = 5;
    let kahan = T::choose("kahan", 2) == 1;
    let f = Pn::<T, 1>::new("f", [2], 2);
    let p = T::i(1);
    let pts: [[T; 1]; K] = std::array::from_fn(|i| [T::i(i as i64 * 3 - 4)]);
    let y: Vec<T> = pts.iter().map(|x| f.at(x)).collect();
    let base = LinearApproximator::<AutoDiffMulti<T>>::default();
    let base = if kahan { base.with_kahan_summation() } else { base };
    let l = base.approximate(&f, &[p]).unwrap();
    let r: Vec<T> = (0..K).map(|i| f.at(&[p]) + f.d(0).at(&[p]) * (pts[i][0] - p) - y[i]).collect();
    let m = l.prediction_metrics(&pts, &f);
    let n = T::i(K as i64);
    let mse = sum(&r.iter().map(|&e| e * e).collect::<Vec<_>>()) / n;
    T::prove("mean absolute error", eq(m.mean_absolute_error, sum(&r.iter().map(|&e| e.abs()).collect::<Vec<_>>()) / n));
    T::prove("mean squared error", eq(m.mean_squared_error, mse));
    T::prove("root mean squared error", eq(m.root_mean_squared_error, mse.sqrt()));
    let mean = sum(&y) / n;
    let tot = sum(&y.iter().map(|&v| (v - mean) * (v - mean)).collect::<Vec<_>>());
    if T::holds(eq(tot, T::ZERO)) {
        T::prove("no variance", P::B(m.r_squared.is_nan()));
        return;
    }
    let r2 = T::ONE - n * mse / tot;
    T::prove("r squared", eq(m.r_squared, r2));
    T::prove("adjusted r squared", eq(m.adjusted_r_squared, T::ONE - (T::ONE - r2) * T::i(4) / T::i(3)));
    let base = QuadraticApproximator::<AutoDiffMulti<T>>::default();
    let base = if kahan { base.with_kahan_summation() } else { base };
    let q = base.approximate(&f, &[p]).unwrap();
    let m = q.prediction_metrics(&pts, &f);
    T::prove("quadratic reproduces quadratics", eqs(&[m.mean_absolute_error, m.mean_squared_error, m.r_squared, m.adjusted_r_squared], &[T::ZERO, T::ZERO, T::ONE, T::ONE]));
    // cubic original: two predictors for one variable
    let c = Pn::<T, 1>(vec![(T::ONE, [3])]);
    let q = base.approximate(&c, &[T::ZERO]).unwrap();
    let m = q.prediction_metrics(&pts, &c);
    let y: Vec<T> = pts.iter().map(|x| c.at(x)).collect();
    let mean = sum(&y) / n;
    let res = sum(&y.iter().map(|&v| v * v).collect::<Vec<_>>());
    let tot = sum(&y.iter().map(|&v| (v - mean) * (v - mean)).collect::<Vec<_>>());
    T::prove("r squared of a cubic", eqs(&[m.r_squared, m.mean_squared_error], &[T::ONE - res / tot, res / n]));
    T::prove("adjusted for two predictors", eq(m.adjusted_r_squared, T::ONE - (res / tot) * T::i(4) / T::i(2)));
    let few: [[T; 1]; 2] = [[T::ZERO], [T::ONE]];
    let m = l.prediction_metrics(&few, &c);
    T::prove("too few points to adjust", P::B(m.adjusted_r_squared.is_nan()));
}
fn finite_sampled<T: Scal>() {
    // default finite differences at the float precision they promise
    let x = T::rnd(-2, 2, 97);
    let f = Pn::<T, 1>(vec![(T::rnd(-3, 3, 7), [0]), (T::rnd(-3, 3, 7), [1]), (T::rnd(-3, 3, 7), [2]), (T::rnd(-3, 3, 7), [3])]);
    let d = FiniteDifferenceSingle::<T>::default();
    T::prove_close("default first derivative", d.first_derivative(&f, x).unwrap(), f.d(0).at(&[x]), 1e-6);
    let m = FiniteDifferenceMulti::<T>::default();
    T::prove_close("default partial derivative", m.first_partial_derivative(&f, 0, &[x]).unwrap(), f.d(0).at(&[x]), 1e-6);
    T::prove_close("default second derivative", d.second_derivative(&f, x).unwrap(), f.d(0).d(0).at(&[x]), 1e-3);
}
fn main() {
    run::main(
        Info {
            id: "C05",
            assumptions: &[
                "differentiated functions: all polynomials of the stated degrees with free coefficients (up to 3 variables, degree 3..7) and two transcendental functions; other functions through C04's composition argument",
                "finite differences in exact arithmetic; default steps on f64 are sampled",
            ],
        },
        vec![
            proof!(auto_single, "AutoDiffSingle, derivative, second_derivative"),
            proof!(auto_multi, "AutoDiffMulti::differentiate, partial"),
            proof!(jacobians, "Jacobian::{evaluate,evaluate_on_heap}, AutoDiffMulti::jacobian_column"),
            proof!(hessians, "Hessian::evaluate"),
            proof!(vector_calculus, "curl_2d, curl_3d, divergence_2d, divergence_3d"),
            proof!(difference_single, "FiniteDifferenceSingle"),
            proof!(difference_multi, "FiniteDifferenceMulti"),
            proof!(bad_steps, "FiniteDifferenceConfig::check_step_size"),
            proof!(defaults, "FiniteDifferenceConfig::default, FiniteDifferenceMode::default_step_size"),
            proof!(approximations, "LinearApproximator, QuadraticApproximator, *Approximation::predict"),
            proof!(metrics, "*Approximation::prediction_metrics"),
            sampled!(finite_sampled, 2000, "FiniteDifferenceSingle, FiniteDifferenceMulti"),
        ],
    );
}
