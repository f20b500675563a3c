use contracts::*;
use multicalc::error::EstimationError;
use multicalc::estimation::*;
use multicalc::linear_algebra::Vector3D;
use multicalc::scalar::Dual;
use multicalc::spatial::{Quaternion, SO3};

type St<T> = NominalState<T>;
type F<const M: usize, T> = ErrorStateKalmanFilter<M, T>;
type M15<T> = Matrix<15, 15, T>;

fn v3<T: Scal>(a: [T; 3]) -> Vector3D<T> {
    Vector::new(a)
}
fn arr<T: Scal, const N: usize>(v: Vector<N, T>) -> [T; N] {
    *v.as_array()
}
fn so3<T: Scal>(q: [T; 4]) -> SO3<T> {
    SO3::from_quaternion(Quaternion::new(q[0], q[1], q[2], q[3]))
}
fn quat<T: Scal>(r: SO3<T>) -> [T; 4] {
    r.quaternion().as_array()
}
fn rotm<T: Scal>(q: [T; 4]) -> Matrix<3, 3, T> {
    let [w, x, y, z] = q;
    let two = T::TWO;
    Matrix::new([
        [w * w + x * x - y * y - z * z, two * (x * y - w * z), two * (x * z + w * y)],
        [two * (x * y + w * z), w * w - x * x + y * y - z * z, two * (y * z - w * x)],
        [two * (x * z - w * y), two * (y * z + w * x), w * w - x * x - y * y + z * z],
    ])
}
fn ham<T: Scal>(a: [T; 4], b: [T; 4]) -> [T; 4] {
    [
        a[0] * b[0] - a[1] * b[1] - a[2] * b[2] - a[3] * b[3],
        a[0] * b[1] + a[1] * b[0] + a[2] * b[3] - a[3] * b[2],
        a[0] * b[2] - a[1] * b[3] + a[2] * b[0] + a[3] * b[1],
        a[0] * b[3] + a[1] * b[2] - a[2] * b[1] + a[3] * b[0],
    ]
}
fn skew<T: Scal>(a: &[T; 3]) -> Matrix<3, 3, T> {
    let z = T::ZERO;
    Matrix::new([[z, -a[2], a[1]], [a[2], z, -a[0]], [-a[1], a[0], z]])
}
fn add<T: Scal, const N: usize>(a: [T; N], b: [T; N]) -> [T; N] {
    std::array::from_fn(|i| a[i] + b[i])
}
fn sub<T: Scal, const N: usize>(a: [T; N], b: [T; N]) -> [T; N] {
    std::array::from_fn(|i| a[i] - b[i])
}
fn mul<T: Scal, const N: usize>(a: [T; N], k: T) -> [T; N] {
    a.map(|x| x * k)
}
/// Rotations below the exponential's series switch differ from a unit quaternion by the series'
/// tail; algebraic identities are stated for no turn and for turns clear of that switch.
fn clear_turn<T: Scal>(bias: [T; 3], dt: T) -> [T; 3] {
    if T::choose("turning", 2) == 0 {
        return bias;
    }
    let w = T::vars::<3>("w");
    let d = sub(w, bias);
    T::assume(gt(dot(&d, &d) * dt * dt, T::q(1, 1000)));
    w
}
struct Plain<T> {
    p: [T; 3],
    v: [T; 3],
    q: [T; 4],
    g: [T; 3],
    a: [T; 3],
}
impl<T: Scal> Plain<T> {
    fn free() -> Self {
        Plain { p: T::vars("p"), v: T::vars("v"), q: T::unit::<4>("q"), g: T::vars("bg"), a: T::vars("ba") }
    }
    fn of(s: St<T>) -> Self {
        Plain { p: arr(s.position()), v: arr(s.velocity()), q: quat(s.orientation()), g: arr(s.gyroscope_bias()), a: arr(s.accelerometer_bias()) }
    }
    fn nominal(&self) -> St<T> {
        NominalState::new(v3(self.p), v3(self.v), so3(self.q), v3(self.g), v3(self.a))
    }
    fn is(&self, s: St<T>) -> P<T> {
        let o = Self::of(s);
        and(vec![eqs(&self.p, &o.p), eqs(&self.v, &o.v), eqs(&self.q, &o.q), eqs(&self.g, &o.g), eqs(&self.a, &o.a)])
    }
    fn plus(&self, e: &[T; 15]) -> Self {
        let k = |i: usize| [e[i], e[i + 1], e[i + 2]];
        Plain { p: add(self.p, k(0)), v: add(self.v, k(3)), q: ham(self.q, quat(SO3::exp(v3(k(6))))), g: add(self.g, k(9)), a: add(self.a, k(12)) }
    }
    fn step(&self, w: [T; 3], f: [T; 3], dt: T, grav: [T; 3]) -> Self {
        let acc = add(mv(&rotm(self.q), &sub(f, self.a)), grav);
        Plain {
            p: std::array::from_fn(|i| self.p[i] + self.v[i] * dt + acc[i] * dt * dt / T::TWO),
            v: std::array::from_fn(|i| self.v[i] + acc[i] * dt),
            q: ham(self.q, quat(SO3::exp(v3(mul(sub(w, self.g), dt))))),
            g: self.g,
            a: self.a,
        }
    }
    /// the stated error transition
    fn transition(&self, w: [T; 3], f: [T; 3], dt: T) -> M15<T> {
        let r = rotm(self.q);
        let vr = mm(&r, &skew(&sub(f, self.a)));
        let th = rotm(quat(SO3::exp(v3(mul(sub(w, self.g), -dt)))));
        Matrix::from_fn(|i, j| {
            let (bi, bj, k, l) = (i / 3, j / 3, i % 3, j % 3);
            let id = if k == l { T::ONE } else { T::ZERO };
            match (bi, bj) {
                (0, 1) => id * dt,
                (1, 2) => -vr[(k, l)] * dt,
                (1, 4) => -r[(k, l)] * dt,
                (2, 2) => th[(k, l)],
                (2, 3) => -id * dt,
                _ if bi == bj => id,
                _ => T::ZERO,
            }
        })
    }
}
fn noise<T: Scal>(n: [T; 4]) -> ImuNoise<T> {
    ImuNoise { gyroscope_noise_density: n[0], accelerometer_noise_density: n[1], gyroscope_bias_random_walk: n[2], accelerometer_bias_random_walk: n[3] }
}
fn qd<T: Scal>(n: [T; 4], dt: T) -> M15<T> {
    Matrix::from_fn(|i, j| {
        if i != j {
            return T::ZERO;
        }
        match i / 3 {
            1 => n[1] * dt * n[1] * dt,
            2 => n[0] * dt * n[0] * dt,
            3 => n[2] * n[2] * dt,
            4 => n[3] * n[3] * dt,
            _ => T::ZERO,
        }
    })
}
fn evened<T: Scal, const N: usize>(m: &Matrix<N, N, T>) -> Matrix<N, N, T> {
    Matrix::from_fn(|i, j| (m[(i, j)] + m[(j, i)]) / T::TWO)
}
/// correlation between the listed directions, plain variance elsewhere
fn corr<T: Scal>(idx: &[usize]) -> M15<T> {
    let mut p = Matrix::zeros();
    for i in 0..15 {
        p[(i, i)] = T::var(&format!("d{i}"));
    }
    for &i in idx {
        for &j in idx {
            if i < j {
                let c = T::var(&format!("c{i}_{j}"));
                p[(i, j)] = c;
                p[(j, i)] = c;
            }
        }
    }
    p
}
/// A reading of every part of the state: `a·p + b·v + c·R u + d·bg + e·ba + k·(a·p)²`.
#[derive(Clone, Copy)]
struct Probe<T> {
    a: [T; 3],
    b: [T; 3],
    c: [T; 3],
    u: [T; 3],
    d: [T; 3],
    e: [T; 3],
    k: T,
}
impl<T: Scal> Probe<T> {
    fn zero() -> Self {
        let z = [T::ZERO; 3];
        Probe { a: z, b: z, c: z, u: z, d: z, e: z, k: T::ZERO }
    }
    fn rnd() -> Self {
        let g = || std::array::from_fn::<T, 3, _>(|_| T::rnd(-2, 2, 8));
        Probe { a: g(), b: g(), c: g(), u: g(), d: g(), e: g(), k: T::rnd(-1, 1, 4) }
    }
    fn at(&self, s: &Plain<T>) -> T {
        let ap = dot(&self.a, &s.p);
        ap + dot(&self.b, &s.v) + dot(&self.c, &mv(&rotm(s.q), &self.u)) + dot(&self.d, &s.g) + dot(&self.e, &s.a) + self.k * ap * ap
    }
    fn row(&self, s: &Plain<T>) -> [T; 15] {
        let ap = dot(&self.a, &s.p);
        let m = mm(&rotm(s.q), &skew(&self.u));
        std::array::from_fn(|j| {
            let l = j % 3;
            match j / 3 {
                0 => self.a[l] * (T::ONE + T::TWO * self.k * ap),
                1 => self.b[l],
                2 => -(0..3).fold(T::ZERO, |t, i| t + self.c[i] * m[(i, l)]),
                3 => self.d[l],
                _ => self.e[l],
            }
        })
    }
}
struct Probes<const M: usize, T>([Probe<T>; M]);
impl<const M: usize, T: Scal> NominalStateFn<M> for Probes<M, T> {
    fn eval<S: Numeric>(&self, s: &NominalState<S>) -> [S; M] {
        std::array::from_fn(|r| {
            let o = &self.0[r];
            let k = |t: T| S::from_f64(t.smug());
            let dp = |c: &[T; 3], x: &[S; 3]| {
                let mut t = S::ZERO;
                for i in 0..3 {
                    t = t + k(c[i]) * x[i];
                }
                t
            };
            let ap = dp(&o.a, s.position().as_array());
            let ru = s.orientation().act(Vector::new([k(o.u[0]), k(o.u[1]), k(o.u[2])]));
            ap + dp(&o.b, s.velocity().as_array()) + dp(&o.c, ru.as_array()) + dp(&o.d, s.gyroscope_bias().as_array()) + dp(&o.e, s.accelerometer_bias().as_array()) + k(o.k) * ap * ap
        })
    }
}
// ---------------------------------------------------------------- nominal state
fn nominal<T: Scal>() {
    let s = Plain::<T>::free();
    T::prove("parts are kept", s.is(s.nominal()));
    let z = [T::ZERO; 3];
    T::prove("at rest", Plain { p: z, v: z, q: s.q, g: z, a: z }.is(NominalState::at_rest(so3(s.q))));
    let mut e = T::vars::<15>("e");
    e[6..9].copy_from_slice(&clear_turn([T::ZERO; 3], T::ONE));
    let m = s.nominal().plus_error(Vector::new(e));
    T::prove("folds in every part of the error", s.plus(&e).is(m));
    let q = quat(m.orientation());
    T::prove("attitude stays a unit quaternion", eq(dot(&q, &q), T::ONE));
    let back = arr(m.error_from(s.nominal()));
    let turn = SO3::exp(v3([e[6], e[7], e[8]])).log();
    T::prove("error_from recovers the linear parts", and(vec![eqs(&back[..6], &e[..6]), eqs(&back[9..], &e[9..])]));
    T::prove("error_from recovers the turn", veq(&turn, &back[6..9]));
}
fn roundtrip<T: Scal>() {
    let scale = [T::ONE, T::q(1, 1000), T::q(1, 10_000_000)][T::rndi(3)];
    let g = |lo, hi| T::rnd(lo, hi, 16) * scale;
    let e: [T; 15] = std::array::from_fn(|i| if i / 3 == 2 { g(-1, 1) * T::q(17, 10) } else { g(-4, 4) });
    let q: [T; 4] = std::array::from_fn(|i| T::rnd(-3, 3, 8) + if i == 0 { T::i(4) } else { T::ZERO });
    let n = dot(&q, &q).sqrt();
    let p = || std::array::from_fn::<T, 3, _>(|_| T::rnd(-4, 4, 8));
    let s = NominalState::new(v3(p()), v3(p()), so3(q.map(|x| x / n)), v3(p()), v3(p()));
    let back = arr(s.plus_error(Vector::new(e)).error_from(s));
    for i in 0..15 {
        T::prove_close("error round trip", back[i] / scale, e[i] / scale, if scale < T::q(1, 100_000) { 1e-6 } else { 1e-9 });
    }
}
fn propagation<T: Scal>() {
    let s = Plain::<T>::free();
    let (f, grav, dt) = (T::vars::<3>("f"), T::vars::<3>("grav"), T::var("dt"));
    let w = clear_turn(s.g, dt);
    let n = s.nominal().propagated(v3(w), v3(f), dt, v3(grav));
    T::prove("stated equations of motion", s.step(w, f, dt, grav).is(n));
    let q = quat(n.orientation());
    T::prove("attitude stays a unit quaternion", eq(dot(&q, &q), T::ONE));
}
fn mk<const M: usize, T: Scal>(s: &Plain<T>, p: M15<T>, n: [T; 4], r: Matrix<M, M, T>) -> F<M, T> {
    ErrorStateKalmanFilter::new(s.nominal(), p, noise(n), r)
}
fn transition_stated<T: Scal>() {
    let s = Plain::<T>::free();
    let (f, dt) = (T::vars::<3>("f"), T::var("dt"));
    let w = clear_turn(s.g, dt);
    let k = mk::<1, T>(&s, Matrix::zeros(), T::vars("n"), Matrix::zeros());
    T::prove("error transition as stated", meq(&k.error_state_transition(v3(w), v3(f), dt), &s.transition(w, f, dt)));
}
/// the transition against the derivative of the propagation, by dual numbers through the real code
fn transition_is_derivative<T: Scal>() {
    T::angle_div(2);
    let s = Plain::<T>::free();
    let (f, dt, grav) = (T::vars::<3>("f"), T::var("dt"), T::vars::<3>("grav"));
    let w = clear_turn(s.g, dt);
    let k = mk::<1, T>(&s, Matrix::zeros(), T::vars("n"), Matrix::zeros());
    let t = k.error_state_transition(v3(w), v3(f), dt);
    let c = |a: [T; 3]| Vector::new(a.map(Dual::constant));
    let base = s.nominal().lifted_to_dual().propagated(c(w), c(f), Dual::constant(dt), c(grav));
    for j in 0..15 {
        let mut e = [Dual::constant(T::ZERO); 15];
        e[j] = Dual::variable(T::ZERO);
        let m = s.nominal().lifted_to_dual().plus_error(Vector::new(e)).propagated(c(w), c(f), Dual::constant(dt), c(grav));
        let d = m.error_from(base);
        let d: [T; 15] = std::array::from_fn(|i| d[i].deriv);
        let col: [T; 15] = std::array::from_fn(|i| t[(i, j)]);
        // exact except where the documentation says the timestep squared is left out
        T::prove("velocity and bias rows", and(vec![eqs(&col[3..6], &d[3..6]), eqs(&col[9..], &d[9..])]));
        let half = dt / T::TWO;
        let pos: [T; 3] = std::array::from_fn(|i| col[i] + if j / 3 == 2 || j / 3 == 4 { col[3 + i] * half } else { T::ZERO });
        T::prove("position rows, to the half timestep squared", eqs(&pos, &d[..3]));
        if j / 3 != 3 {
            T::prove("rotation rows", eqs(&col[6..9], &d[6..9]));
        } else {
            // −J_r(ω dt) dt against −I dt
            let jr = SO3::right_jacobian(v3(mul(sub(w, s.g), dt)));
            let want: [T; 3] = std::array::from_fn(|i| -jr[(i, j - 9)] * dt);
            T::prove("rotation rows, gyroscope bias", eqs(&want, &d[6..9]));
        }
    }
}
// ---------------------------------------------------------------- predict
fn predict_state<T: Scal>() {
    let s = Plain::<T>::free();
    let (f, dt) = (T::vars::<3>("f"), T::pos("dt"));
    let w = clear_turn(s.g, dt);
    let p = corr::<T>(&[0, 4, 7, 10, 14]);
    let n = T::vars::<4>("n");
    let mut k = mk::<1, T>(&s, p, n, Matrix::zeros());
    T::prove("starts at the given belief", and(vec![s.is(k.nominal_state()), meq(&k.covariance(), &p)]));
    let own = T::choose("gravity", 2) == 1;
    let grav = if own { T::vars("grav") } else { [T::ZERO, T::ZERO, T::from_f64(-9.81)] };
    if own {
        k = k.with_gravity(v3(grav));
    }
    T::prove("prediction accepted", b(k.predict(v3(w), v3(f), dt).is_ok()));
    T::prove("nominal state by the equations of motion", s.step(w, f, dt, grav).is(k.nominal_state()));
}
fn predict_cov<T: Scal>() {
    // any covariance, against the transition of the contract above
    let mut s = Plain::<T>::free();
    let c = T::unit::<2>("yaw");
    s.q = match T::choose("axis", 2) {
        0 => [c[0], T::ZERO, T::ZERO, c[1]],
        _ => [c[0], c[1], T::ZERO, T::ZERO],
    };
    let mut w = s.g;
    let i = T::choose("turning", 3);
    w[i] = w[i] + T::var("w");
    let f = add(s.a, T::vars::<3>("f"));
    let dt = T::var("dt");
    let p = mat::<T, 15, 15>("p");
    let n = T::vars::<4>("n");
    let mut k = mk::<1, T>(&s, p, n, Matrix::zeros());
    let t = k.error_state_transition(v3(w), v3(f), dt);
    T::prove("prediction accepted", b(k.predict(v3(w), v3(f), dt).is_ok()));
    let want = evened(&madd(&mm(&mm(&t, &p), &tr(&t)), &qd(n, dt)));
    let got = k.covariance();
    T::prove("covariance propagated", meq(&got, &want));
    T::prove("covariance exactly symmetric", msame(&got, &tr(&got)));
}
fn predict_refuse<T: Scal>() {
    let s = Plain::<T>::free();
    let p = corr::<T>(&[0, 7]);
    let mut k = mk::<1, T>(&s, p, T::vars("n"), Matrix::identity());
    let (mut w, mut f, mut dt) = (T::vars::<3>("w"), T::vars::<3>("f"), T::var("dt"));
    let bad = T::special("bad");
    match T::choose("where", 7) {
        i @ 0..=2 => w[i] = bad,
        i @ 3..=5 => f[i - 3] = bad,
        _ => dt = bad,
    }
    T::prove("non-finite reading refused", b(k.predict(v3(w), v3(f), dt) == Err(EstimationError::NonFinite)));
    T::prove("filter unchanged", and(vec![s.is(k.nominal_state()), meq(&k.covariance(), &p)]));
    let (w, f, dt) = (s.g, T::vars::<3>("f2"), T::var("dt2"));
    k = k.with_gravity(v3([T::ZERO, bad, T::ZERO]));
    T::prove("non-finite gravity refused", b(k.predict(v3(w), v3(f), dt) == Err(EstimationError::NonFinite)));
    T::prove("filter unchanged by it", and(vec![s.is(k.nominal_state()), meq(&k.covariance(), &p)]));
    let mut k = mk::<1, T>(&s, corr(&[]), noise_bad(bad), Matrix::identity());
    T::prove("non-finite noise reported", b(k.predict(v3(w), v3(f), dt) == Err(EstimationError::NonFinite)));
    let mut broken = s.nominal();
    let mut q = s.q;
    q[T::choose("part", 4)] = bad;
    broken = NominalState::new(broken.position(), broken.velocity(), so3(q), broken.gyroscope_bias(), broken.accelerometer_bias());
    T::prove("is_finite sees the attitude", b(!broken.is_finite() && s.nominal().is_finite()));
    for i in 0..12 {
        let mut v = [[T::ZERO; 3]; 4];
        v[i / 3][i % 3] = bad;
        T::prove("is_finite sees every vector", b(!NominalState::new(v3(v[0]), v3(v[1]), so3(s.q), v3(v[2]), v3(v[3])).is_finite()));
    }
}
fn noise_bad<T: Scal>(bad: T) -> [T; 4] {
    let mut n = [T::ONE; 4];
    n[T::choose("noise", 4)] = bad;
    n
}
// ---------------------------------------------------------------- update
/// gain, innovation covariance, corrected covariance before the reset
fn corrected<T: Scal>(p: &M15<T>, h: &[T; 15], r: T, joseph: bool) -> ([T; 15], T, M15<T>) {
    let ph: [T; 15] = mv(p, h);
    let s = dot(h, &ph) + r;
    let k = ph.map(|x| x / s);
    let kh = Matrix::<15, 15, T>::from_fn(|i, j| k[i] * h[j]);
    let a = msub(&ident(), &kh);
    let ap = mm(&a, p);
    let out = if joseph { madd(&mm(&ap, &tr(&a)), &Matrix::from_fn(|i, j| k[i] * k[j] * r)) } else { ap };
    (k, s, out)
}
fn reset_of<T: Scal>(p: &M15<T>, th: &[T; 3]) -> M15<T> {
    let mut g = ident::<T, 15>();
    let h = skew(th);
    for i in 0..3 {
        for j in 0..3 {
            g[(6 + i, 6 + j)] = g[(6 + i, 6 + j)] - h[(i, j)] / T::TWO;
        }
    }
    mm(&mm(&g, p), &tr(&g))
}
fn inject<T: Scal>() {
    let s = Plain::<T>::free();
    let p = mat::<T, 15, 15>("p");
    let e = T::vars::<15>("e");
    let mut k = mk::<1, T>(&s, p, T::vars("n"), Matrix::zeros());
    k.inject_error_and_reset(Vector::new(e));
    T::prove("error folded into the nominal state", s.plus(&e).is(k.nominal_state()));
    T::prove("covariance carried across", meq(&k.covariance(), &reset_of(&p, &[e[6], e[7], e[8]])));
}
/// one reading, measured part of the state free
fn update_one<T: Scal>() {
    T::merge(true);
    let part = T::choose("part", 6);
    let mut s = Plain::<T>::free();
    let c = T::unit::<2>("yaw");
    s.q = [c[0], T::ZERO, T::ZERO, c[1]];
    let mut o = Probe::<T>::zero();
    let idx: &[usize] = match part {
        0 => {
            o.a = [T::ONE, T::ZERO, T::ZERO];
            &[0, 3, 7]
        }
        1 => {
            o.b = [T::ZERO, T::var("b1"), T::ZERO];
            &[4, 1, 13]
        }
        2 => {
            o.c = [T::ONE, T::ZERO, T::ZERO];
            o.u = [T::var("u"), T::ZERO, T::ZERO];
            &[8, 0, 11]
        }
        3 => {
            o.d = [T::ZERO, T::ZERO, T::var("d2")];
            &[11, 8, 4]
        }
        4 => {
            o.e = [T::var("e0"), T::ZERO, T::ZERO];
            &[12, 3, 6]
        }
        _ => {
            o.a = [T::ZERO, T::ZERO, T::ONE];
            o.k = T::var("k");
            &[2, 5, 14]
        }
    };
    let p = corr::<T>(idx);
    let r = T::var("r");
    let joseph = T::choose("joseph", 2) == 1;
    let mut k = mk::<1, T>(&s, p, T::vars("n"), Matrix::new([[r]]));
    if !joseph {
        k = k.with_covariance_update(CovarianceUpdate::Naive);
    }
    let entry = T::choose("entry", 3);
    let z = T::var("z");
    let model = Probes([o]);
    let y = if entry == 0 { z - o.at(&s) } else { z };
    let r2 = T::var("r2");
    let res = match entry {
        0 => k.update(&model, Vector::new([z])),
        1 => k.update_with_residual(&model, Vector::new([z])),
        _ => k.update_other(&model, Vector::new([z]), Matrix::new([[r2]])),
    };
    let r = if entry == 2 { r2 } else { r };
    let h = o.row(&s);
    let (kg, sig, post) = corrected(&p, &h, r, joseph);
    match res {
        Ok(()) => {
            let e = kg.map(|g| g * y);
            T::prove("correction folded into the nominal state", s.plus(&e).is(k.nominal_state()));
            let want = evened(&reset_of(&post, &[e[6], e[7], e[8]]));
            T::prove("covariance of the correction", meq(&k.covariance(), &want));
            T::prove("covariance exactly symmetric", msame(&k.covariance(), &tr(&k.covariance())));
            if entry == 2 {
                T::prove("another width leaves the report alone", and(vec![eq(k.innovation()[0], T::ZERO), eq(k.innovation_covariance()[(0, 0)], T::ZERO)]));
            } else {
                T::prove("innovation reported", and(vec![eq(k.innovation()[0], y), eq(k.innovation_covariance()[(0, 0)], sig)]));
                T::prove("normalised innovation squared", match k.normalized_innovation_squared() {
                    Ok(n) => eq(n * sig, y * y),
                    Err(_) => b(false),
                });
            }
        }
        Err(e) => {
            T::prove("refused only without positive innovation", and(vec![b(e == EstimationError::NotPositiveDefinite), le(sig, T::ZERO)]));
            T::prove("filter unchanged", and(vec![s.is(k.nominal_state()), msame(&k.covariance(), &p), eq(k.innovation()[0], T::ZERO)]));
        }
    }
}
fn rnd_state<T: Scal>() -> Plain<T> {
    let q: [T; 4] = std::array::from_fn(|_| T::rnd(-3, 3, 8) + T::q(1, 50));
    let n = dot(&q, &q).sqrt();
    let p = || std::array::from_fn::<T, 3, _>(|_| T::rnd(-4, 4, 8));
    Plain { p: p(), v: p(), q: q.map(|x| x / n), g: p(), a: p() }
}
fn rnd_cov<T: Scal>() -> M15<T> {
    let l = M15::<T>::from_fn(|i, j| if i == j { T::rnd(1, 2, 8) } else if i > j { T::rnd(-1, 1, 8) / T::TWO } else { T::ZERO });
    mscale(&mm(&l, &tr(&l)), T::q(1, 16))
}
fn update_sampled<T: Scal>() {
    let s = rnd_state::<T>();
    let p = rnd_cov::<T>();
    let o: [Probe<T>; 2] = [Probe::rnd(), Probe::rnd()];
    let l = [T::rnd(1, 2, 8), T::rnd(-1, 1, 8), T::rnd(1, 2, 8)];
    let r = Matrix::new([[l[0] * l[0], l[0] * l[1]], [l[0] * l[1], l[1] * l[1] + l[2] * l[2]]]);
    let joseph = T::rndi(2) == 1;
    let mut k = mk::<2, T>(&s, p, [T::ONE; 4], r);
    if !joseph {
        k = k.with_covariance_update(CovarianceUpdate::Naive);
    }
    let y: [T; 2] = [T::rnd(-1, 1, 8), T::rnd(-1, 1, 8)];
    let z = [o[0].at(&s) + y[0], o[1].at(&s) + y[1]];
    T::prove("update accepted", b(k.update(&Probes(o), Vector::new(z)).is_ok()));
    let h = Matrix::<2, 15, T>::new([o[0].row(&s), o[1].row(&s)]);
    let ph = mm(&p, &tr(&h));
    let sg = madd(&mm(&h, &ph), &r);
    let d = sg[(0, 0)] * sg[(1, 1)] - sg[(0, 1)] * sg[(1, 0)];
    let si = Matrix::<2, 2, T>::new([[sg[(1, 1)] / d, -sg[(0, 1)] / d], [-sg[(1, 0)] / d, sg[(0, 0)] / d]]);
    let kg = mm(&ph, &si);
    let e = mv(&kg, &y);
    let a = msub(&ident::<T, 15>(), &mm(&kg, &h));
    let post = if joseph { madd(&mm(&mm(&a, &p), &tr(&a)), &mm(&mm(&kg, &r), &tr(&kg))) } else { mm(&a, &p) };
    let want = evened(&reset_of(&post, &[e[6], e[7], e[8]]));
    mclose("covariance of the correction", &k.covariance(), &want);
    let (g, w) = (Plain::of(k.nominal_state()), s.plus(&e));
    for i in 0..3 {
        T::prove_close("position", g.p[i], w.p[i], 1e-8);
        T::prove_close("velocity", g.v[i], w.v[i], 1e-8);
        T::prove_close("gyroscope bias", g.g[i], w.g[i], 1e-8);
        T::prove_close("accelerometer bias", g.a[i], w.a[i], 1e-8);
    }
    for i in 0..4 {
        T::prove_close("attitude", g.q[i], w.q[i], 1e-8);
    }
    mclose("innovation covariance", &k.innovation_covariance(), &sg);
    T::prove_close("normalised innovation squared", k.normalized_innovation_squared().unwrap_or(T::NAN), dot(&y, &mv(&si, &y)), 1e-7);
    // consistency measure against the exact error
    let mut k = mk::<2, T>(&s, p, [T::ONE; 4], r);
    let er: [T; 15] = std::array::from_fn(|_| T::rnd(-1, 1, 8) / T::TWO);
    let n = k.normalized_estimation_error_squared(s.nominal().plus_error(Vector::new(er)));
    let x = p.cholesky().map(|c| arr(c.solve(Vector::new(er)))).unwrap_or([T::NAN; 15]);
    T::prove_close("normalised estimation error squared", n.unwrap_or(T::NAN) / T::i(100), dot(&er, &x) / T::i(100), 1e-6);
    // a wide prediction
    let (w, f, dt) = (std::array::from_fn(|_| T::rnd(-2, 2, 8)), std::array::from_fn(|_| T::rnd(-9, 9, 8)), T::rnd(0, 1, 64) / T::i(4));
    let nn: [T; 4] = std::array::from_fn(|_| T::rnd(0, 1, 8));
    k.set_imu_noise(noise(nn));
    T::prove("prediction accepted", b(k.predict(v3(w), v3(f), dt).is_ok()));
    let t = s.transition(w, f, dt);
    mclose("covariance propagated", &k.covariance(), &madd(&mm(&mm(&t, &p), &tr(&t)), &qd(nn, dt)));
}
fn update_refuse<T: Scal>() {
    struct Bad(bool);
    impl NominalStateFn<2> for Bad {
        fn eval<S: Numeric>(&self, s: &NominalState<S>) -> [S; 2] {
            let p = s.position();
            [p[0], if self.0 { p[1] * S::INFINITY } else { p[1] * S::NAN }]
        }
    }
    let s = Plain::<T>::free();
    let p = corr::<T>(&[0, 7]);
    let mk = |r| mk::<2, T>(&s, p, [T::ONE; 4], r);
    let keep = |k: &F<2, T>| and(vec![s.is(k.nominal_state()), msame(&k.covariance(), &p), veq(&k.innovation(), &[T::ZERO; 2]), meq(&k.innovation_covariance(), &Matrix::zeros())]);
    let mut o = [Probe::<T>::zero(); 2];
    o[0].a[0] = T::ONE;
    o[1].a[1] = T::ONE;
    let lin = Probes(o);
    let mut z = T::vars::<2>("z");
    let good = Vector::new(z);
    z[T::choose("i", 2)] = T::special("bad");
    let mut k = mk(Matrix::identity());
    T::prove("non-finite measurement refused", b(k.update(&lin, Vector::new(z)) == Err(EstimationError::NonFinite)));
    T::prove("non-finite residual refused", b(k.update_with_residual(&lin, Vector::new(z)) == Err(EstimationError::NonFinite)));
    T::prove("non-finite residual of another sensor refused", b(k.update_other(&lin, Vector::new(z), Matrix::identity()) == Err(EstimationError::NonFinite)));
    let model = Bad(T::choose("inf", 2) == 1);
    T::prove("non-finite model refused", b(k.update(&model, good) == Err(EstimationError::NonFinite) && k.update_with_residual(&model, good) == Err(EstimationError::NonFinite)));
    T::prove("filter unchanged", keep(&k));
    let mut r = Matrix::identity();
    r[(T::choose("ri", 2), T::choose("rj", 2))] = T::special("badr");
    k.set_measurement_noise(r);
    T::prove("non-finite noise refused", b(k.update(&lin, good) == Err(EstimationError::NonFinite)));
    T::prove("filter unchanged by it", keep(&k));
    T::assume(and(vec![le(p[(1, 1)], T::ZERO)]));
    k.set_measurement_noise(Matrix::new([[T::ONE, T::ZERO], [T::ZERO, T::ZERO]]));
    T::prove("indefinite innovation refused", b(k.update(&lin, good) == Err(EstimationError::NotPositiveDefinite)));
    T::prove("filter unchanged by an indefinite innovation", keep(&k));
    T::prove("no normalised innovation yet", b(k.normalized_innovation_squared() == Err(EstimationError::NotPositiveDefinite)));
    T::prove("no consistency for an indefinite covariance", b(k.normalized_estimation_error_squared(s.nominal()) == Err(EstimationError::NotPositiveDefinite)));
    let o = Plain { p: T::vars("p2"), ..Plain::free() };
    k.set_nominal_state(o.nominal());
    T::prove("set_nominal_state", and(vec![o.is(k.nominal_state()), msame(&k.covariance(), &p)]));
}
fn consistency<T: Scal>() {
    // independent directions: the sum of squared errors in standard deviations
    let s = Plain::<T>::free();
    let d: [T; 15] = std::array::from_fn(|i| T::pos(&format!("d{i}")));
    let p = M15::<T>::from_fn(|i, j| if i == j { d[i] * d[i] } else { T::ZERO });
    let k = mk::<1, T>(&s, p, [T::ONE; 4], Matrix::identity());
    let mut o = Plain::<T>::free();
    o.q = s.q;
    let e = arr(o.nominal().error_from(s.nominal()));
    T::prove("error of the given truth", and(vec![eqs(&e[..3], &sub(o.p, s.p)), eqs(&e[3..6], &sub(o.v, s.v)), eqs(&e[6..9], &[T::ZERO; 3]), eqs(&e[9..12], &sub(o.g, s.g)), eqs(&e[12..], &sub(o.a, s.a))]));
    let want = (0..15).fold(T::ZERO, |t, i| t + e[i] * e[i] / (d[i] * d[i]));
    T::prove("normalised estimation error squared", match k.normalized_estimation_error_squared(o.nominal()) {
        Ok(n) => eq(n, want),
        Err(_) => b(false),
    });
}
fn condition<T: Scal>() {
    let s = rnd_state::<T>();
    // known directions: a rotation of a known diagonal in two planes
    let (i, j) = (T::rndi(15), T::rndi(15));
    let d: [T; 15] = std::array::from_fn(|_| T::rnd(-2, 4, 4));
    let (c, sn) = (T::q(3, 5), T::q(4, 5));
    let mut u = ident::<T, 15>();
    if i != j {
        u[(i, i)] = c;
        u[(j, j)] = c;
        u[(i, j)] = -sn;
        u[(j, i)] = sn;
    }
    let build = |d: &[T; 15]| mm(&mm(&u, &M15::<T>::from_fn(|a, b| if a == b { d[a] } else { T::ZERO })), &tr(&u));
    let mut p = build(&d);
    // a lopsided half is evened out first
    let (a, b_, x) = (T::rndi(15), T::rndi(15), T::rnd(-1, 1, 4));
    p[(a, b_)] = p[(a, b_)] + x;
    p[(b_, a)] = p[(b_, a)] - x;
    let floor = T::rnd(0, 1, 8);
    let mut k = mk::<1, T>(&s, p, [T::ONE; 4], Matrix::identity());
    T::prove("conditioning accepted", b(k.condition_covariance(floor).is_ok()));
    mclose("directions below the floor lifted to it, the others kept", &k.covariance(), &build(&d.map(|v| v.max(floor))));
    T::prove("nominal state kept", s.is(k.nominal_state()));
}
fn condition_refuse<T: Scal>() {
    let s = Plain::<T>::free();
    let mut p = ident::<T, 15>();
    let (i, j) = ([0, 7, 14][T::choose("i", 3)], [0, 8, 14][T::choose("j", 3)]);
    p[(i, j)] = T::special("bad");
    let mut k = mk::<1, T>(&s, p, [T::ONE; 4], Matrix::identity());
    T::prove("non-finite covariance refused", b(k.condition_covariance(T::ZERO) == Err(EstimationError::NonFinite)));
    T::prove("filter unchanged", and(vec![s.is(k.nominal_state()), msame(&k.covariance(), &p)]));
}

fn main() {
    run::main(
        run::Info { id: "C09", assumptions: &["SO3::exp and SO3::log are taken by their own contracts (C06)", "covariance corrections are proved for correlations among the measured direction and two others; the full 15x15 correction with two readings is sampled"] },
        vec![
            proof!(nominal, "NominalState::new, at_rest, plus_error, error_from"),
            sampled!(roundtrip, 300, "NominalState::plus_error, error_from"),
            proof!(propagation, "NominalState::propagated"),
            proof!(transition_stated, "ErrorStateKalmanFilter::error_state_transition"),
            proof!(transition_is_derivative, "ErrorStateKalmanFilter::error_state_transition, NominalState::propagated, lifted_to_dual"),
            proof!(predict_state, "ErrorStateKalmanFilter::new, with_gravity, predict"),
            proof!(predict_cov, "ErrorStateKalmanFilter::predict, propagate_covariance"),
            proof!(predict_refuse, "ErrorStateKalmanFilter::predict, NominalState::is_finite"),
            proof!(inject, "ErrorStateKalmanFilter::inject_error_and_reset"),
            proof!(update_one, "ErrorStateKalmanFilter::update, update_with_residual, update_other, fold_in, measurement_jacobian"),
            sampled!(update_sampled, 40, "ErrorStateKalmanFilter::update, predict, normalized_innovation_squared, normalized_estimation_error_squared"),
            proof!(update_refuse, "ErrorStateKalmanFilter::update, update_with_residual, update_other"),
            proof!(consistency, "ErrorStateKalmanFilter::normalized_estimation_error_squared"),
            sampled!(condition, 100, "ErrorStateKalmanFilter::condition_covariance"),
            proof!(condition_refuse, "ErrorStateKalmanFilter::condition_covariance"),
        ],
    );
}
