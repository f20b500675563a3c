use contracts::*;
use multicalc::error::EstimationError;
use multicalc::estimation::*;
use multicalc::scalar::VectorFn;

fn arr<T: Scal, const N: usize>(v: Vector<N, T>) -> [T; N] {
    *v.as_array()
}
fn psym<T: Scal, const N: usize>(n: &str) -> Matrix<N, N, T> {
    sym::<T, N>(n)
}
/// inverse of a small matrix by cofactors (specification side)
fn inv<T: Scal, const M: usize>(s: &Matrix<M, M, T>) -> Matrix<M, M, T> {
    let r = rows(s);
    let d = det(&r);
    Matrix::<M, M, T>::from_fn(|i, j| {
        let minor: Vec<Vec<T>> = (0..M).filter(|a| *a != j).map(|a| (0..M).filter(|c| *c != i).map(|c| r[a][c]).collect()).collect();
        let c = det(&minor) / d;
        if (i + j) % 2 == 0 { c } else { -c }
    })
}
struct Post<T: Scal, const N: usize, const M: usize> {
    x: [T; N],
    p: Matrix<N, N, T>,
    s: Matrix<M, M, T>,
    k: Matrix<N, M, T>,
}
/// the Gaussian posterior for residual `nu`
fn posterior<T: Scal, const N: usize, const M: usize>(x: [T; N], p: &Matrix<N, N, T>, h: &Matrix<M, N, T>, r: &Matrix<M, M, T>, nu: [T; M], joseph: bool) -> Post<T, N, M> {
    let pht = mm(p, &tr(h));
    let s = madd(&mm(h, &pht), r);
    let k = mm(&pht, &inv(&s));
    let dx = mv(&k, &nu);
    let a = msub(&ident(), &mm(&k, h));
    let p2 = if joseph { madd(&mm(&mm(&a, p), &tr(&a)), &mm(&mm(&k, r), &tr(&k))) } else { mm(&a, p) };
    Post { x: std::array::from_fn(|i| x[i] + dx[i]), p: p2, s, k }
}
fn pd_fails<T: Scal, const M: usize>(s: &Matrix<M, M, T>) -> P<T> {
    let r = rows(s);
    or((1..=M).map(|k| le(det(&r[..k].iter().map(|x| x[..k].to_vec()).collect::<Vec<_>>()), T::ZERO)).collect())
}
type KF<const N: usize, const M: usize, T> = KalmanFilter<N, M, T>;
struct Given<const N: usize, const M: usize, T: Scal> {
    x: [T; N],
    p: Matrix<N, N, T>,
    f: Matrix<N, N, T>,
    h: Matrix<M, N, T>,
    q: Matrix<N, N, T>,
    r: Matrix<M, M, T>,
}
impl<const N: usize, const M: usize, T: Scal> Given<N, M, T> {
    fn free(full: bool) -> Self {
        Given {
            x: T::vars::<N>("x"),
            p: if full { mat::<T, N, N>("p") } else { psym::<T, N>("p") },
            f: mat::<T, N, N>("f"),
            h: mat::<T, M, N>("h"),
            q: psym::<T, N>("q"),
            r: psym::<T, M>("r"),
        }
    }
    /// random well-conditioned instance
    fn rnd() -> Self {
        let g = |lo: i64, hi: i64| T::rnd(lo, hi, 8);
        let spd = |k: T| {
            let l = Matrix::<N, N, T>::from_fn(|i, j| if i == j { g(1, 3) } else if i > j { g(-1, 1) } else { T::ZERO });
            mscale(&mm(&l, &tr(&l)), k)
        };
        let l = Matrix::<M, M, T>::from_fn(|i, j| if i == j { g(1, 3) } else if i > j { g(-1, 1) } else { T::ZERO });
        Given {
            x: std::array::from_fn(|_| g(-4, 4)),
            p: spd(T::ONE),
            f: Matrix::from_fn(|_, _| g(-2, 2)),
            h: Matrix::from_fn(|_, _| g(-2, 2)),
            q: spd(T::q(1, 4)),
            r: mm(&l, &tr(&l)),
        }
    }
    fn kf(&self) -> KF<N, M, T> {
        KalmanFilter::new(Vector::new(self.x), self.p, KalmanModel { state_transition: self.f, measurement_model: self.h, process_noise: self.q, measurement_noise: self.r })
    }
}
fn kf_is<const N: usize, const M: usize, T: Scal>(k: &KF<N, M, T>, x: &[T], p: &Matrix<N, N, T>) -> P<T> {
    and(vec![veq(&k.state(), x), meq(&k.covariance(), p)])
}
fn kf_predict<T: Scal>() {
    let g = Given::<3, 2, T>::free(true);
    let mut k = g.kf();
    T::prove("starts at the given belief", kf_is(&k, &g.x, &g.p));
    k.predict();
    let want = madd(&mm(&mm(&g.f, &g.p), &tr(&g.f)), &g.q);
    T::prove("predict", kf_is(&k, &mv(&g.f, &g.x), &want));
    let mut k = g.kf();
    let (bm, u) = (mat::<T, 3, 2>("b"), T::vars::<2>("u"));
    k.predict_with_control(bm, Vector::new(u));
    let fx = mv(&g.f, &g.x);
    let bu = mv(&bm, &u);
    T::prove("predict with control", kf_is(&k, &std::array::from_fn::<T, 3, _>(|i| fx[i] + bu[i]), &want));
    // setters replace exactly their own part
    let o = Given::<3, 2, T> { x: T::vars("x2"), p: g.p, f: mat("f2"), h: g.h, q: psym("q2"), r: g.r };
    let mut k = g.kf();
    k.set_state(Vector::new(o.x));
    k.set_state_transition(o.f);
    k.set_process_noise(o.q);
    T::prove("set_state keeps the covariance", kf_is(&k, &o.x, &g.p));
    k.predict();
    T::prove("setters", kf_is(&k, &mv(&o.f, &o.x), &madd(&mm(&mm(&o.f, &g.p), &tr(&o.f)), &o.q)));
}
fn kf_update_at<const N: usize, const M: usize, T: Scal>(g: Given<N, M, T>, joseph: bool, exact_refusal: bool) {
    let z: [T; M] = T::vars("z");
    let mut k = g.kf().with_covariance_update(if joseph { CovarianceUpdate::Joseph } else { CovarianceUpdate::Naive });
    let hx = mv(&g.h, &g.x);
    let nu = std::array::from_fn(|i| z[i] - hx[i]);
    let s = madd(&mm(&mm(&g.h, &g.p), &tr(&g.h)), &g.r);
    match k.update(Vector::new(z)) {
        Ok(()) => {
            let w = posterior(g.x, &g.p, &g.h, &g.r, nu, joseph);
            T::prove("posterior mean", veq(&k.state(), &w.x));
            T::prove("posterior covariance", meq(&k.covariance(), &w.p));
            T::prove("innovation", veq(&k.innovation(), &nu));
            T::prove("innovation covariance", meq(&k.innovation_covariance(), &s));
            let n = k.normalized_innovation_squared();
            T::prove("normalised innovation defined", b(n.is_ok()));
            if let Ok(n) = n {
                T::prove("normalised innovation squared", eq(n, dot(&nu, &mv(&inv(&s), &nu))));
            }
        }
        Err(e) => {
            T::prove("refused as not positive definite", b(e == EstimationError::NotPositiveDefinite));
            if exact_refusal {
                T::prove("refused only when it is not", pd_fails(&s));
            }
            T::prove("belief unchanged", and(vec![veq(&k.state(), &g.x), msame(&k.covariance(), &g.p)]));
        }
    }
}
fn kf_update_1<T: Scal>() {
    kf_update_at(Given::<2, 1, T>::free(true), T::choose("joseph", 2) == 1, true);
}
fn kf_update_1_3<T: Scal>() {
    kf_update_at(Given::<3, 1, T>::free(false), T::choose("joseph", 2) == 1, true);
}
fn kf_update_2<T: Scal>() {
    // the measured components are free combinations of the state
    kf_update_at(Given::<2, 2, T>::free(false), T::choose("joseph", 2) == 1, false);
}
fn kf_sampled<T: Scal>() {
    let g = Given::<4, 2, T>::rnd();
    let joseph = T::choose("joseph", 2) == 1;
    let mut k = g.kf().with_covariance_update(if joseph { CovarianceUpdate::Joseph } else { CovarianceUpdate::Naive });
    let (mut x, mut p) = (g.x, g.p);
    for _ in 0..4 {
        if T::choose("kind", 3) == 0 {
            k.predict();
            x = mv(&g.f, &x);
            p = madd(&mm(&mm(&g.f, &p), &tr(&g.f)), &g.q);
        } else {
            let z: [T; 2] = std::array::from_fn(|_| T::rnd(-4, 4, 8));
            let before = k;
            let r = k.update(Vector::new(z));
            T::prove("a positive definite update succeeds", b(r.is_ok()));
            let hx = mv(&g.h, &x);
            let nu = std::array::from_fn(|i| z[i] - hx[i]);
            let w = posterior(x, &p, &g.h, &g.r, nu, joseph);
            x = w.x;
            p = w.p;
            // the drop P - P' is positive semidefinite
            let drop = msub(&before.covariance(), &k.covariance());
            let dir: [T; 4] = std::array::from_fn(|_| T::rnd(-3, 3, 4));
            T::prove("an update never increases the covariance", ge(dot(&dir, &mv(&drop, &dir)), -T::q(1, 10_000_000)));
            T::prove("variance stays positive", gt(dot(&dir, &mv(&k.covariance(), &dir)) + if dot(&dir, &dir) == T::ZERO { T::ONE } else { T::ZERO }, T::ZERO));
        }
        mclose("covariance history", &k.covariance(), &p);
        let s = x.iter().fold(T::ONE, |m, v| m.max(v.abs()));
        T::prove("mean history", eqs(&arr(k.state()).map(|v| v / s), &x.map(|v| v / s)));
        mclose("covariance symmetric", &k.covariance(), &tr(&k.covariance()));
    }
}
fn kf_shrinks<T: Scal>() {
    // scalar measurement: P - P' = (P hᵀ)(P hᵀ)ᵀ / s, positive semidefinite, in both forms
    let joseph = T::choose("joseph", 2) == 1;
    let g = Given::<3, 1, T>::free(false);
    let mut k = g.kf().with_covariance_update(if joseph { CovarianceUpdate::Joseph } else { CovarianceUpdate::Naive });
    if k.update(Vector::new([T::var("z")])).is_ok() {
        let s = madd(&mm(&mm(&g.h, &g.p), &tr(&g.h)), &g.r)[(0, 0)];
        let d = T::vars::<3>("d");
        let drop = dot(&d, &mv(&msub(&g.p, &k.covariance()), &d));
        let v = dot(&d, &arr(Vector::new(mv(&g.p, &[g.h[(0, 0)], g.h[(0, 1)], g.h[(0, 2)]]))));
        T::prove("the update takes away a square over a positive variance", and(vec![eq(drop * s, v * v), gt(s, T::ZERO)]));
        T::prove("covariance stays symmetric", meq(&k.covariance(), &tr(&k.covariance())));
    }
}
fn kf_refuse<T: Scal>() {
    let g = Given::<2, 2, T>::free(false);
    let mut k = g.kf();
    let mut z = T::vars::<2>("z");
    z[T::choose("i", 2)] = T::special("bad");
    let r = k.update(Vector::new(z));
    T::prove("non-finite measurement refused", b(r == Err(EstimationError::NonFinite)));
    T::prove("belief unchanged", and(vec![veq(&k.state(), &g.x), msame(&k.covariance(), &g.p)]));
    let mut bad = g.r;
    let (i, j) = (T::choose("ri", 2), T::choose("rj", 2));
    bad[(i, j)] = T::special("badr");
    let mut k = g.kf();
    k.set_measurement_noise(bad);
    let r = k.update(Vector::new(T::vars::<2>("y")));
    T::prove("non-finite innovation covariance refused", b(r == Err(EstimationError::NonFinite)));
    T::prove("belief unchanged then too", and(vec![veq(&k.state(), &g.x), msame(&k.covariance(), &g.p)]));
    // indefinite innovation covariance
    let mut k = g.kf();
    k.set_measurement_model(Matrix::zeros());
    k.set_measurement_noise(Matrix::new([[T::ONE, T::ZERO], [T::ZERO, -T::pos("n")]]));
    let r = k.update(Vector::new(T::vars::<2>("w")));
    T::prove("indefinite innovation covariance refused", b(r == Err(EstimationError::NotPositiveDefinite)));
    T::prove("belief unchanged as well", and(vec![veq(&k.state(), &g.x), msame(&k.covariance(), &g.p)]));
    T::prove("no statistic from an indefinite covariance", b(k.normalized_innovation_squared().is_err()));
}
// ---------------------------------------------------------------- extended filter
/// quadratic model with free coefficients: y_i = c_i + a_i·x + x0² q_i0 + x0 x1 q_i1 + x1² q_i2
#[derive(Clone)]
struct Quad<T, const M: usize>([[T; 6]; M]);
impl<T: Scal, const M: usize> Quad<T, M> {
    fn free(n: &str) -> Self {
        Quad(T::vars2::<M, 6>(n))
    }
    fn at(&self, x: &[T; 2]) -> [T; M] {
        self.0.map(|c| c[0] + c[1] * x[0] + c[2] * x[1] + c[3] * x[0] * x[0] + c[4] * x[0] * x[1] + c[5] * x[1] * x[1])
    }
    fn jac(&self, x: &[T; 2]) -> Matrix<M, 2, T> {
        Matrix::<M, 2, T>::from_fn(|i, j| {
            let c = self.0[i];
            if j == 0 { c[1] + c[3] * x[0] * T::TWO + c[4] * x[1] } else { c[2] + c[4] * x[0] + c[5] * x[1] * T::TWO }
        })
    }
}
impl<T: Scal, const M: usize> VectorFn<2, M> for Quad<T, M> {
    fn eval<S: Numeric>(&self, x: &[S; 2]) -> [S; M] {
        self.0.map(|c| {
            let k = |i: usize| S::from_f64(c[i].smug());
            k(0) + k(1) * x[0] + k(2) * x[1] + k(3) * x[0] * x[0] + k(4) * x[0] * x[1] + k(5) * x[1] * x[1]
        })
    }
}
/// non-finite at every point
struct Bad<const M: usize>(bool);
impl<const M: usize> VectorFn<2, M> for Bad<M> {
    fn eval<S: Numeric>(&self, x: &[S; 2]) -> [S; M] {
        std::array::from_fn(|i| if i == 0 { if self.0 { S::NAN } else { S::INFINITY } } else { x[i] })
    }
}
fn ekf_predict<T: Scal>() {
    let f = Quad::<T, 2>::free("f");
    let (x, p, q, r) = (T::vars::<2>("x"), mat::<T, 2, 2>("p"), psym::<T, 2>("q"), psym::<T, 1>("r"));
    let mut k = ExtendedKalmanFilter::<2, 1, T>::new(Vector::new(x), p, q, r);
    let res = k.predict(&f);
    T::prove("a finite model is accepted", b(res.is_ok()));
    let j = f.jac(&x);
    T::prove("mean through the model", veq(&k.state(), &f.at(&x)));
    T::prove("covariance through its Jacobian", meq(&k.covariance(), &madd(&mm(&mm(&j, &p), &tr(&j)), &q)));
    let (x2, q2) = (T::vars::<2>("x2"), psym::<T, 2>("q2"));
    let mut k = ExtendedKalmanFilter::<2, 1, T>::new(Vector::new(x), p, q, r);
    k.set_state(Vector::new(x2));
    k.set_process_noise(q2);
    let _ = k.predict(&f);
    let j = f.jac(&x2);
    T::prove("setters", and(vec![veq(&k.state(), &f.at(&x2)), meq(&k.covariance(), &madd(&mm(&mm(&j, &p), &tr(&j)), &q2))]));
    let mut k = ExtendedKalmanFilter::<2, 1, T>::new(Vector::new(x), p, q, r);
    let res = k.predict(&Bad::<2>(T::choose("nan", 2) == 1));
    T::prove("a non-finite model is refused", b(res.is_err()));
    T::prove("belief unchanged", and(vec![veq(&k.state(), &x), msame(&k.covariance(), &p)]));
}
fn ekf_update<T: Scal>() {
    let h = Quad::<T, 1>::free("h");
    let joseph = T::choose("joseph", 2) == 1;
    let (x, p, q) = (T::vars::<2>("x"), mat::<T, 2, 2>("p"), psym::<T, 2>("q"));
    let (r0, r) = (psym::<T, 1>("r0"), psym::<T, 1>("r"));
    let mut k = ExtendedKalmanFilter::<2, 1, T>::new(Vector::new(x), p, q, r0).with_covariance_update(if joseph { CovarianceUpdate::Joseph } else { CovarianceUpdate::Naive });
    k.set_measurement_noise(r);
    let z = T::var("z");
    let direct = T::choose("entry", 2) == 0;
    let nu = if direct { z - h.at(&x)[0] } else { z };
    let res = if direct { k.update(&h, Vector::new([z])) } else { k.update_with_residual(&h, Vector::new([z])) };
    let j = h.jac(&x);
    let s = madd(&mm(&mm(&j, &p), &tr(&j)), &r);
    match res {
        Ok(()) => {
            let w = posterior(x, &p, &j, &r, [nu], joseph);
            T::prove("posterior mean", veq(&k.state(), &w.x));
            T::prove("posterior covariance", meq(&k.covariance(), &w.p));
            T::prove("innovation", and(vec![eq(k.innovation()[0], nu), meq(&k.innovation_covariance(), &s)]));
            let n = k.normalized_innovation_squared();
            T::prove("normalised innovation defined", b(n.is_ok()));
            if let Ok(n) = n {
                T::prove("normalised innovation squared", eq(n * s[(0, 0)], nu * nu));
            }
        }
        Err(e) => {
            T::prove("refused as not positive definite", b(e == EstimationError::NotPositiveDefinite));
            T::prove("refused only when it is not", pd_fails(&s));
            T::prove("belief unchanged", and(vec![veq(&k.state(), &x), msame(&k.covariance(), &p)]));
        }
    }
}
fn ekf_refuse<T: Scal>() {
    let h = Quad::<T, 2>::free("h");
    let (x, p, q, r) = (T::vars::<2>("x"), psym::<T, 2>("p"), psym::<T, 2>("q"), psym::<T, 2>("r"));
    let mk = || ExtendedKalmanFilter::<2, 2, T>::new(Vector::new(x), p, q, r);
    let keep = |k: &ExtendedKalmanFilter<2, 2, T>| and(vec![veq(&k.state(), &x), msame(&k.covariance(), &p)]);
    let mut z = T::vars::<2>("z");
    let good = Vector::new(z);
    z[T::choose("i", 2)] = T::special("bad");
    let mut k = mk();
    T::prove("non-finite measurement refused", b(k.update(&h, Vector::new(z)).is_err()));
    T::prove("belief unchanged", keep(&k));
    T::prove("non-finite residual refused", b(k.update_with_residual(&h, Vector::new(z)).is_err()));
    T::prove("belief unchanged by a residual", keep(&k));
    let bad = Bad::<2>(T::choose("nan", 2) == 1);
    T::prove("non-finite prediction refused", b(k.update(&bad, good).is_err()));
    T::prove("belief unchanged by a model", keep(&k));
    let mut k = mk();
    k.set_measurement_noise(Matrix::new([[T::special("rr"), T::ZERO], [T::ZERO, T::ONE]]));
    T::prove("non-finite noise refused", b(k.update(&h, good).is_err()));
    T::prove("belief unchanged by noise", keep(&k));
    let mut k = mk();
    k.set_measurement_noise(Matrix::new([[-T::ONE, T::ZERO], [T::ZERO, T::ONE]]));
    let flat = Quad::<T, 2>([[T::ZERO; 6]; 2]);
    T::prove("indefinite innovation refused", b(k.update(&flat, good) == Err(EstimationError::NotPositiveDefinite)));
    T::prove("belief unchanged by an indefinite one", keep(&k));
}
#[derive(Clone)]
struct Lin<T, const N: usize, const M: usize>(Matrix<M, N, T>);
impl<T: Scal, const N: usize, const M: usize> VectorFn<N, M> for Lin<T, N, M> {
    fn eval<S: Numeric>(&self, x: &[S; N]) -> [S; M] {
        std::array::from_fn(|i| {
            let mut s = S::ZERO;
            for j in 0..N {
                s = s + S::from_f64(self.0[(i, j)].smug()) * x[j];
            }
            s
        })
    }
}
// ---------------------------------------------------------------- unscented filter
fn ukf_spread<T: Scal>() -> (T, T, T) {
    // any scaling with positive spread
    (T::pos("alpha"), T::var("beta"), T::nonneg("kappa"))
}
fn ukf_linear<T: Scal>() {
    let (p, _) = spd::<T, 2>("p");
    let (x, f, h) = (T::vars::<2>("x"), mat::<T, 2, 2>("f"), mat::<T, 1, 2>("h"));
    let (q, r) = (psym::<T, 2>("q"), psym::<T, 1>("r"));
    let (al, be, ka) = ukf_spread::<T>();
    let k = UnscentedKalmanFilter::<2, 1, T>::new(Vector::new(x), p, q, r).with_scaling(al, be, ka);
    T::prove("scaling with positive spread accepted", b(k.is_ok()));
    let Ok(mut k) = k else { T::abandon() };
    // regularisation widens the offsets as if that much had been added to the scaled covariance
    let mut wide = p;
    if T::choose("regularised", 2) == 1 {
        let reg = T::pos("reg");
        let r = k.with_regularization(reg);
        T::prove("regularization accepted", b(r.is_ok()));
        let Ok(r) = r else { T::abandon() };
        k = r;
        for i in 0..2 {
            wide[(i, i)] = wide[(i, i)] + reg / (al * al * (T::TWO + ka));
        }
    }
    if k.predict(&Lin(f)).is_err() {
        T::prove("nothing changed", and(vec![veq(&k.state(), &x), meq(&k.covariance(), &p)]));
        T::abandon();
    }
    let prior = mm(&mm(&f, &wide), &tr(&f));
    let fx = mv(&f, &x);
    T::prove("mean is that of the linear filter", veq(&k.state(), &fx));
    T::prove("covariance is that of the linear filter", meq(&k.covariance(), &madd(&prior, &q)));
    // the update measures with the points of the prediction: gain and innovation of F P Fᵀ
    let z = T::var("z");
    let plain = T::choose("entry", 2) == 0;
    let nu = if plain { z - mv(&h, &fx)[0] } else { z };
    let before = (k.state(), k.covariance());
    let res = if plain { k.update(&Lin(h), Vector::new([z])) } else { k.update_with_residual(&Lin(h), Vector::new([z])) };
    let pht = mm(&prior, &tr(&h));
    let s = mm(&h, &pht)[(0, 0)] + r[(0, 0)];
    match res {
        Ok(()) => {
            T::prove("innovation", and(vec![eq(k.innovation()[0], nu), eq(k.innovation_covariance()[(0, 0)], s)]));
            T::prove("gain", eqs(&arr(k.state()), &std::array::from_fn::<T, 2, _>(|i| fx[i] + pht[(i, 0)] / s * nu)));
            let want = Matrix::<2, 2, T>::from_fn(|i, j| prior[(i, j)] + q[(i, j)] - pht[(i, 0)] * pht[(j, 0)] / s);
            T::prove("covariance", meq(&k.covariance(), &want));
            let n = k.normalized_innovation_squared();
            T::prove("normalised innovation squared", match n {
                Ok(n) => eq(n * s, nu * nu),
                Err(_) => b(false),
            });
        }
        Err(_) => {
            T::prove("refused only without positive innovation", le(s, T::ZERO));
            T::prove("belief unchanged", and(vec![msame(&k.covariance(), &before.1), eqs(k.state().as_slice(), before.0.as_slice())]));
        }
    }
}
fn ukf_sampled<T: Scal>() {
    // with no process noise the unscented and the linear filter give the same posterior
    let mut g = Given::<3, 2, T>::rnd();
    g.q = Matrix::zeros();
    let mut k = g.kf();
    let u = UnscentedKalmanFilter::<3, 2, T>::new(Vector::new(g.x), g.p, g.q, g.r).with_scaling(T::rnd(1, 3, 4), T::rnd(0, 3, 4), T::rnd(0, 2, 4));
    let Ok(mut u) = u else { return T::prove("scaling accepted", b(false)) };
    for _ in 0..2 {
        k.predict();
        let det_ok = u.predict(&Lin(g.f));
        if det_ok.is_err() {
            return; // F may be singular: no factor for the next prediction
        }
        let z = Vector::new(std::array::from_fn::<T, 2, _>(|_| T::rnd(-4, 4, 8)));
        let e = u.update(&Lin(g.h), z);
        T::prove("update accepted", b(k.update(z).is_ok() && e.is_ok()));
        mclose("same covariance", &u.covariance(), &k.covariance());
        let s = arr(k.state()).iter().fold(T::ONE, |m, v| m.max(v.abs()));
        T::prove("same mean", eqs(&arr(k.state()).map(|v| v / s), &arr(u.state()).map(|v| v / s)));
        mclose("same innovation covariance", &u.innovation_covariance(), &k.innovation_covariance());
        let d = msub(&g.f, &Matrix::zeros());
        if det(&rows(&d)).abs() < T::q(1, 4) {
            return;
        }
    }
}
fn ukf_moments<T: Scal>() {
    // the nonlinear moments against sigma points formed here, one state
    struct Sq<T>([T; 3]);
    impl<T: Scal> VectorFn<1, 1> for Sq<T> {
        fn eval<S: Numeric>(&self, x: &[S; 1]) -> [S; 1] {
            let k = |i: usize| S::from_f64(self.0[i].smug());
            [k(0) + k(1) * x[0] + k(2) * x[0] * x[0]]
        }
    }
    let c = T::vars::<3>("c");
    let f = |x: T| c[0] + c[1] * x + c[2] * x * x;
    let (x, d, q, r) = (T::var("x"), T::pos("d"), T::var("q"), T::var("r"));
    let reg = T::nonneg("reg");
    let (mut al, mut be, mut ka) = ukf_spread::<T>();
    T::assume(and(vec![gt(d, T::q(1, 10)), gt(al, T::q(1, 10))]));
    let p = d * d;
    let mut k = UnscentedKalmanFilter::<1, 1, T>::new(Vector::new([x]), Matrix::new([[p]]), Matrix::zeros(), Matrix::zeros());
    k.set_process_noise(Matrix::new([[q]]));
    k.set_measurement_noise(Matrix::new([[r]]));
    if T::choose("default spread", 2) == 1 {
        (al, be, ka) = (T::from_f64(1e-3), T::TWO, T::ZERO);
    } else {
        k = match k.with_scaling(al, be, ka) {
            Ok(k) => k,
            Err(_) => T::abandon(),
        };
    }
    let with_reg = T::choose("regularised", 2) == 1;
    let (mut k, extra) = if with_reg { match k.with_regularization(reg) { Ok(k) => (k, reg), Err(_) => return T::prove("regularization accepted", b(false)) } } else { (k, T::ZERO) };
    if k.predict(&Sq(c)).is_err() {
        return T::prove("a positive variance predicts", b(false));
    }
    let n = T::ONE;
    let lam = al * al * (n + ka) - n;
    let off = ((n + lam) * p + extra).sqrt();
    let wm = lam / (n + lam);
    let wc = wm + (T::ONE - al * al + be);
    let w = T::ONE / (T::TWO * (n + lam));
    let (y0, y1, y2) = (f(x), f(x + off), f(x - off));
    let m = wm * y0 + w * (y1 + y2);
    let v = q + wc * (y0 - m) * (y0 - m) + w * ((y1 - m) * (y1 - m) + (y2 - m) * (y2 - m));
    T::prove("predicted mean", eq(k.state()[0], m));
    T::prove("predicted variance", eq(k.covariance()[(0, 0)], v));
    // measurement through the same points
    let e = T::vars::<3>("e");
    let h = |x: T| e[0] + e[1] * x + e[2] * x * x;
    let (z0, z1, z2) = (h(y0), h(y1), h(y2));
    let zm = wm * z0 + w * (z1 + z2);
    let z = T::var("z");
    if !with_reg && k.update(&Sq(e), Vector::new([z])).is_ok() {
        let s = r + wc * (z0 - zm) * (z0 - zm) + w * ((z1 - zm) * (z1 - zm) + (z2 - zm) * (z2 - zm));
        T::prove("innovation and its variance", and(vec![eq(k.innovation()[0], z - zm), eq(k.innovation_covariance()[(0, 0)], s)]));
        let cr = wc * (y0 - m) * (z0 - zm) + w * ((y1 - m) * (z1 - zm) + (y2 - m) * (z2 - zm));
        T::prove("posterior mean", eq((k.state()[0] - m) * s, cr * (z - zm)));
        T::prove("posterior variance", eq((v - k.covariance()[(0, 0)]) * s, cr * cr));
    }
}
fn ukf_refuse<T: Scal>() {
    let (x, p, q, r) = (T::vars::<2>("x"), Matrix::<2, 2, T>::new([[T::TWO, T::ONE], [T::ONE, T::i(3)]]), psym::<T, 2>("q"), psym::<T, 2>("r"));
    let mk = |p| UnscentedKalmanFilter::<2, 2, T>::new(Vector::new(x), p, q, r);
    let keep = |k: &UnscentedKalmanFilter<2, 2, T>, p| and(vec![veq(&k.state(), &x), msame(&k.covariance(), p)]);
    let bad = Bad::<2>(T::choose("nan", 2) == 1);
    let mut k = mk(p);
    T::prove("non-finite model refused", b(k.predict(&bad) == Err(EstimationError::NonFinite)));
    T::prove("belief unchanged", keep(&k, &p));
    let ind = Matrix::new([[T::ONE, T::TWO], [T::TWO, T::ONE]]);
    let mut k = mk(ind);
    T::prove("indefinite covariance refused", b(k.predict(&Lin(Matrix::<2, 2, T>::identity())) == Err(EstimationError::NotPositiveDefinite)));
    T::prove("belief unchanged by it", keep(&k, &ind));
    let mut nf = p;
    nf[(T::choose("i", 2), T::choose("j", 2))] = T::special("bad");
    let mut k = mk(nf);
    let mut kq = mk(p);
    kq.set_process_noise(Matrix::new([[T::ONE, T::ZERO], [T::ZERO, T::special("badq")]]));
    T::prove("non-finite process noise refused", b(kq.predict(&Lin(Matrix::<2, 2, T>::identity())) == Err(EstimationError::NonFinite)));
    T::prove("belief unchanged by process noise", keep(&kq, &p));
    T::prove("non-finite covariance refused", b(k.predict(&Lin(Matrix::<2, 2, T>::identity())).is_err()));
    let mut k = mk(p);
    let lin = Lin(Matrix::<2, 2, T>::identity());
    let mut z = T::vars::<2>("z");
    let good = Vector::new(z);
    z[T::choose("k", 2)] = T::special("badz");
    T::prove("non-finite measurement refused", b(k.update(&lin, Vector::new(z)) == Err(EstimationError::NonFinite) && k.update_with_residual(&lin, Vector::new(z)) == Err(EstimationError::NonFinite)));
    T::prove("belief unchanged by measurement", keep(&k, &p));
    T::prove("non-finite prediction refused", b(k.update(&bad, good) == Err(EstimationError::NonFinite)));
    T::prove("belief unchanged by a model", keep(&k, &p));
    k.set_measurement_noise(Matrix::new([[-T::ONE, T::ZERO], [T::ZERO, T::ONE]]));
    T::prove("indefinite innovation refused", b(k.update(&lin, good) == Err(EstimationError::NotPositiveDefinite)));
    T::prove("belief unchanged by an indefinite innovation", keep(&k, &p));
    k.set_measurement_noise(Matrix::new([[T::special("rr"), T::ZERO], [T::ZERO, T::ONE]]));
    T::prove("non-finite noise refused", b(k.update(&lin, good) == Err(EstimationError::NonFinite)));
    T::prove("belief unchanged by noise", keep(&k, &p));
    // before any prediction the points coincide: the reading moves nothing
    let mut k = mk(p);
    k.set_measurement_noise(Matrix::identity());
    T::prove("update before predict accepted", b(k.update(&lin, good).is_ok()));
    T::prove("update before predict moves nothing", and(vec![veq(&k.state(), &x), meq(&k.covariance(), &p)]));
    let x2 = T::vars::<2>("x2");
    k.set_state(Vector::new(x2));
    T::prove("set_state", veq(&k.state(), &x2));
}
fn ukf_tuning<T: Scal>() {
    let (x, p) = (T::vars::<2>("x"), psym::<T, 2>("p"));
    let mk = || UnscentedKalmanFilter::<2, 2, T>::new(Vector::new(x), p, p, p);
    let (a, be, ka) = (T::var("a"), T::var("b"), T::var("k"));
    let r = mk().with_scaling(a, be, ka);
    let spread = a * a * (T::TWO + ka);
    T::prove("scaling accepted exactly when the spread is positive", if r.is_ok() { gt(spread, T::ZERO) } else { le(spread, T::ZERO) });
    let g = T::var("g");
    let r = mk().with_regularization(g);
    T::prove("regularization accepted exactly when not negative", if r.is_ok() { ge(g, T::ZERO) } else { lt(g, T::ZERO) });
    let mut s = [T::ONE, T::TWO, T::ZERO, T::ZERO];
    s[T::choose("i", 4)] = T::special("bad");
    T::prove("non-finite tuning refused", b(match mk().with_scaling(s[0], s[1], s[2]) {
        Err(e) => e == EstimationError::InvalidTuning,
        Ok(k) => k.with_regularization(s[3]) == Err(EstimationError::InvalidTuning),
    }));
}
// ---------------------------------------------------------------- models
fn turn_model<T: Scal>() {
    let (x, y, h, v) = (T::var("x"), T::var("y"), T::var("h"), T::var("v"));
    let (w, dt) = (T::var("w"), T::var("dt"));
    let m = ConstantTurnAndSpeed { timestep: dt.smug() };
    let o = m.eval(&[x, y, h, v, w]);
    T::prove("speed and turn rate are kept", eqs(&o[3..], &[v, w]));
    let h1 = h + w * dt;
    T::prove("heading advances by the turn, modulo a full circle", and(vec![eq(o[2].cos(), h1.cos()), eq(o[2].sin(), h1.sin())]));
    T::prove("heading is wrapped", between(-T::PI, o[2], T::PI));
    T::assume(gt(w.abs(), T::q(1, 1000)));
    T::prove("arc of constant turn", and(vec![eq((o[0] - x) * w, v * (h1.sin() - h.sin())), eq((o[1] - y) * w, v * (h.cos() - h1.cos()))]));
}
fn straight_model<T: Scal>() {
    let (x, y, h, v, dt) = (T::var("x"), T::var("y"), T::var("h"), T::var("v"), T::var("dt"));
    let m = ConstantTurnAndSpeed { timestep: dt.smug() };
    let o = m.eval(&[x, y, h, v, T::ZERO]);
    T::prove("straight line", eqs(&o[..2], &[x + v * dt * h.cos(), y + v * dt * h.sin()]));
}
fn turn_sampled<T: Scal>() {
    // small turn rates: the position is within the arc's curvature of the straight line and continuous across the switch
    let w = T::rnd(-3, 3, 8) * T::q(1, [1, 1_000_000, 100_000_000][T::choose("scale", 3)]);
    let (h, v, dt) = (T::rnd(-3, 3, 16), T::rnd(-5, 5, 8), T::rnd(0, 2, 8));
    let o = ConstantTurnAndSpeed { timestep: dt.smug() }.eval(&[T::ZERO, T::ZERO, h, v, w]);
    // 40-point midpoint rule along the arc
    let n = 200;
    let (mut x, mut y) = (T::ZERO, T::ZERO);
    for i in 0..n {
        let t = dt * T::q(2 * i + 1, 2 * n);
        x = x + v * (h + w * t).cos() * dt / T::i(n);
        y = y + v * (h + w * t).sin() * dt / T::i(n);
    }
    T::prove_close("x along the arc", o[0], x, 2e-2);
    T::prove_close("y along the arc", o[1], y, 2e-2);
    if w.abs() < T::q(1, 1000) {
        T::prove_close("x along a nearly straight arc", o[0], x, 2e-5);
        T::prove_close("y along a nearly straight arc", o[1], y, 2e-5);
    }
}
fn direct_measurement<T: Scal>() {
    let (i, j) = (T::choose("i", 4), T::choose("j", 4));
    let m = DirectMeasurement::<3, 2>::try_new([i, j]);
    T::prove("indices checked", b(m.is_ok() == (i < 3 && j < 3)));
    let Ok(m) = m else { return };
    let x = T::vars::<3>("x");
    T::prove("selects its components", eqs(&m.eval(&x), &[x[i], x[j]]));
    T::prove("indices kept", b(m.indices() == [i, j]));
}
fn wrapped_residual<T: Scal>() {
    let (z, p) = (T::vars::<3>("z"), T::vars::<3>("p"));
    let k = T::choose("angular", 4);
    let idx: &[usize] = [&[][..], &[0], &[1, 2], &[7]][k];
    let r = residual_with_wrapped_angles(Vector::new(z), Vector::new(p), idx);
    for c in 0..3 {
        let d = z[c] - p[c];
        if idx.contains(&c) {
            T::prove("wrapped into one turn", between(-T::PI, r[c], T::PI));
            T::prove("same angle", and(vec![eq(r[c].cos(), d.cos()), eq(r[c].sin(), d.sin())]));
        } else {
            T::prove("plain difference", eq(r[c], d));
        }
    }
}

fn main() {
    run::main(
        run::Info { id: "C08", assumptions: &["state dimensions 1 to 3 and measurement dimensions 1 and 2 stand for the const-generic ones; 4x2 and 3x2 are sampled"] },
        vec![
            proof!(kf_predict, "KalmanFilter: new, predict, predict_with_control, setters"),
            proof!(kf_update_1, "KalmanFilter::update, normalized_innovation_squared (2x1)"),
            proof!(kf_update_1_3, "KalmanFilter::update (3x1)"),
            proof!(kf_update_2, "KalmanFilter::update (2x2)"),
            proof!(kf_shrinks, "KalmanFilter::update"),
            sampled!(kf_sampled, 200, "KalmanFilter::predict, update (4x2)"),
            proof!(kf_refuse, "KalmanFilter::update"),
            proof!(ekf_predict, "ExtendedKalmanFilter::predict"),
            proof!(ekf_update, "ExtendedKalmanFilter::update, update_with_residual"),
            proof!(ekf_refuse, "ExtendedKalmanFilter::update, update_with_residual"),
            proof!(ukf_linear, "UnscentedKalmanFilter::predict, update, update_with_residual"),
            proof!(ukf_moments, "UnscentedKalmanFilter::predict, update, weights"),
            sampled!(ukf_sampled, 200, "UnscentedKalmanFilter::predict, update (3x2)"),
            proof!(ukf_refuse, "UnscentedKalmanFilter::predict, update, update_with_residual"),
            proof!(ukf_tuning, "UnscentedKalmanFilter::with_scaling, with_regularization"),
            proof!(turn_model, "ConstantTurnAndSpeed"),
            proof!(straight_model, "ConstantTurnAndSpeed"),
            sampled!(turn_sampled, 200, "ConstantTurnAndSpeed"),
            proof!(direct_measurement, "DirectMeasurement"),
            proof!(wrapped_residual, "residual_with_wrapped_angles"),
        ],
    );
}
