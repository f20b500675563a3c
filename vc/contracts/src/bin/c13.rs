use contracts::*;
use multicalc::control::*;
use multicalc::error::{ControlError, LinalgError};
use multicalc::spatial::{Quaternion, SE2, SO2, SO3};

type Q<T> = Quaternion<T>;
fn act<T: Scal>(q: &[T; 4], v: &[T; 3]) -> [T; 3] {
    // v + 2 w (u × v) + 2 u × (u × v)
    let u = [q[1], q[2], q[3]];
    let c = cross(&u, v);
    let cc = cross(&u, &c);
    std::array::from_fn(|i| v[i] + T::TWO * (q[0] * c[i] + cc[i]))
}
fn conj<T: Scal>(q: &[T; 4]) -> [T; 4] {
    [q[0], -q[1], -q[2], -q[3]]
}
fn so3<T: Scal>(q: &[T; 4]) -> SO3<T> {
    SO3::from_quaternion(Q::new(q[0], q[1], q[2], q[3]))
}
fn v3<T: Scal>(v: [T; 3]) -> Vector<3, T> {
    Vector::new(v)
}

// ---- pure pursuit
fn pursuit<T: Scal>() {
    let a = T::var("heading");
    let (c, s) = (a.cos(), a.sin());
    let p = T::vars::<2>("p");
    let l = T::pos("lookahead");
    let g = T::vars::<2>("goal");
    let pose = SE2::from_parts(SO2::from_angle(a), Vector::new(p));
    let Ok(r) = pure_pursuit_curvature(pose, Vector::new(g), l) else { return T::prove("a positive distance is accepted", b(false)) };
    let d = [g[0] - p[0], g[1] - p[1]];
    let lat = c * d[1] - s * d[0];
    T::prove("curvature is twice the lateral offset over the squared distance", eq(r.value() * l * l, T::TWO * lat));
    let v = T::var("speed");
    let t = r.to_body_twist(v);
    T::prove("body twist keeps the speed", eq(t.linear(), v));
    T::prove("body twist turns at speed times curvature", eq(t.angular(), v * r.value()));
    T::prove("curvature wraps its value", eq(Curvature::new(v).value(), v));
}
/// with the distance that goes with the goal, the arc it names passes through the goal
fn pursuit_arc<T: Scal>() {
    let a = T::var("heading");
    let (c, s) = (a.cos(), a.sin());
    let p = T::vars::<2>("p");
    let l = T::pos("lookahead");
    let u = T::unit::<2>("bearing");
    let body = [l * u[0], l * u[1]];
    let g = [p[0] + c * body[0] - s * body[1], p[1] + s * body[0] + c * body[1]];
    let k = pure_pursuit_curvature(SE2::from_parts(SO2::from_angle(a), Vector::new(p)), Vector::new(g), l).unwrap().value();
    // the arc through the origin, tangent to +x, of curvature k: k (x² + y²) = 2 y
    T::prove("the goal lies on the arc", eq(k * (body[0] * body[0] + body[1] * body[1]), T::TWO * body[1]));
    T::prove("twice the sine of the bearing over the distance", eq(k * l, T::TWO * u[1]));
    T::prove("turns toward the goal", eq(k * body[1], T::TWO * u[1] * u[1]));
}
fn pursuit_refused<T: Scal>() {
    let bad = T::special("bad");
    let pose = SE2::from_parts(SO2::from_angle(T::var("heading")), Vector::new(T::vars::<2>("p")));
    let g = T::vars::<2>("goal");
    let l = T::pos("lookahead");
    let f = |g: [T; 2], l: T| pure_pursuit_curvature(pose, Vector::new(g), l).err();
    T::prove("distance must be positive", b(f(g, -T::nonneg("x")) == Some(ControlError::NonPositiveLookaheadDistance)));
    T::prove("distance must be finite", b(f(g, bad) == Some(ControlError::NonPositiveLookaheadDistance)));
    T::prove("goal must be finite", b(f([bad, g[1]], l) == Some(ControlError::NonFinite) && f([g[0], bad], l) == Some(ControlError::NonFinite)));
}

// ---- thrust command
fn thrust_laws<T: Scal>(cmd: &ThrustCommand<T>, push: [T; 3], h: [T; 2], close: bool) {
    let q = cmd.attitude().quaternion().as_array();
    let (f, s, u) = (act(&q, &[T::ONE, T::ZERO, T::ZERO]), act(&q, &[T::ZERO, T::ONE, T::ZERO]), act(&q, &[T::ZERO, T::ZERO, T::ONE]));
    let t = cmd.thrust_acceleration();
    let same = |n: &str, a: T, b: T| if close { T::prove_close(n, a, b, 1e-7) } else { T::prove(n, eq(a, b)) };
    same("unit attitude", dot(&q, &q), T::ONE);
    T::prove("pushes, never pulls", ge(t, T::ZERO));
    for i in 0..3 {
        same("thrust along body up is the wanted specific force", t * u[i], push[i]);
    }
    same("side axis is square to the heading", s[0] * h[0] + s[1] * h[1], T::ZERO);
    T::prove("nose is on the heading side", gt(f[0] * h[0] + f[1] * h[1], T::ZERO));
    let m = T::var("mass");
    T::prove("force is mass times acceleration", eq(cmd.thrust_force(m), m * t));
}
fn tilt<T: Scal>(axis: usize) {
    T::merge(true);
    let psi = T::var("heading");
    let (ch, sh) = (psi.cos(), psi.sin());
    let u = T::unit::<2>("tilt");
    let k = T::pos("push");
    if axis == 0 { T::assume(ne(u[0], T::ZERO)) } // else the push is straight along the heading
    let g = T::var("gravity");
    let push = if axis == 0 { [k * u[1] * ch, k * u[1] * sh, k * u[0]] } else { [-k * u[1] * sh, k * u[1] * ch, k * u[0]] };
    let Ok(cmd) = thrust_command_from_acceleration(v3([push[0], push[1], push[2] - g]), psi, g) else { return T::prove("a defined push is accepted", b(false)) };
    T::prove("strength of the push", eq(cmd.thrust_acceleration(), k));
    thrust_laws(&cmd, push, [ch, sh], false);
}
fn thrust_pitch<T: Scal>() {
    tilt::<T>(0);
}
fn thrust_roll<T: Scal>() {
    tilt::<T>(1);
}
/// every push that is not along the heading: leaned forward by one angle and sideways by another
fn thrust_general<T: Scal>() {
    T::merge(true);
    let psi = T::ZERO;
    let g = T::var("gravity");
    let (f, r) = (T::unit::<2>("forward"), T::unit::<2>("sideways"));
    T::assume(gt(f[0], T::ZERO));
    let k = T::pos("push");
    let h = [T::ONE, T::ZERO];
    let (x, y, z) = (k * f[1], k * f[0] * r[1], k * f[0] * r[0]);
    let p = [x * h[0] - y * h[1], x * h[1] + y * h[0], z];
    match thrust_command_from_acceleration(v3([p[0], p[1], p[2] - g]), psi, g) {
        Ok(c) => thrust_laws(&c, p, h, false),
        Err(_) => T::prove("a defined push is accepted", b(false)),
    }
}
fn thrust_any<T: Scal>() {
    let a: [T; 3] = std::array::from_fn(|_| T::rnd(-30, 30, 4));
    let g = [T::from_f64(9.81), T::rnd(0, 20, 2), T::rnd(-3, 0, 2)][T::rndi(3) as usize];
    let psi = T::rnd(-10, 10, 32);
    let push = [a[0], a[1], a[2] + g];
    let h = [psi.cos(), psi.sin()];
    let n = dot(&push, &push).sqrt();
    let along = (push[0] * h[0] + push[1] * h[1]).abs();
    if T::holds(le(n, T::q(1, 1000))) || T::holds(ge(along, n * T::q(999_999, 1_000_000))) {
        return;
    }
    match thrust_command_from_acceleration(v3(a), psi, g) {
        Ok(c) => thrust_laws(&c, push, h, true),
        Err(_) => T::prove("a defined push is accepted", b(false)),
    }
}
fn thrust_refused<T: Scal>() {
    let bad = T::special("bad");
    let k = T::choose("which", 5);
    let mut v = [T::var("ax"), T::var("ay"), T::var("az"), T::var("psi"), T::var("g")];
    v[k] = bad;
    let f = |v: [T; 5]| thrust_command_from_acceleration(v3([v[0], v[1], v[2]]), v[3], v[4]).err();
    T::prove("non-finite argument refused", b(f(v) == Some(ControlError::NonFinite)));
    let g = T::var("gravity");
    T::prove("free fall has no direction", b(f([T::ZERO, T::ZERO, -g, T::var("psi"), g]) == Some(ControlError::UndefinedThrustDirection)));
    let p = T::pos("push");
    T::prove("a push along the heading leaves it undefined", b(f([p, T::ZERO, -g, T::ZERO, g]) == Some(ControlError::UndefinedHeadingDirection)));
    T::prove("or against it", b(f([-p, T::ZERO, -g, T::ZERO, g]) == Some(ControlError::UndefinedHeadingDirection)));
}

// ---- linear-quadratic regulator
/// A plant whose first stage the solver settles exactly: nilpotent, so the passes end
fn lqr_laws<T: Scal, const N: usize, const M: usize>(a: Matrix<N, N, T>, bm: Matrix<N, M, T>, q: Matrix<N, N, T>, r: Matrix<M, M, T>) {
    let c = match Lqr::new(a, bm, q, r) {
        Ok(c) => c,
        Err(_) => return T::prove("a regulable plant is accepted", b(false)),
    };
    let (p, k) = (c.cost_to_go(), c.gain());
    let w = madd(&r, &mm(&mm(&tr(&bm), &p), &bm));
    let lhs = mm(&w, &k);
    let rhs = mm(&mm(&tr(&bm), &p), &a);
    T::prove("gain satisfies its normal equation", meq(&lhs, &rhs));
    T::prove("closed loop", meq(&c.closed_loop(), &msub(&a, &mm(&bm, &k))));
    let p2 = madd(&q, &msub(&mm(&mm(&tr(&a), &p), &a), &mm(&tr(&rhs), &k)));
    T::prove("cost to go is the Riccati fixed point", meq(&p, &p2));
    T::prove("cost to go is symmetric", meq(&p, &tr(&p)));
    let (x, xr, uf) = (T::vars::<N>("x"), T::vars::<N>("ref"), T::vars::<M>("ff"));
    let u = c.control(Vector::new(x));
    let want = mv(&k, &x);
    T::prove("command is the negated gain on the state", and((0..M).map(|i| eq(u[i], -want[i])).collect()));
    let u = c.control_tracking(Vector::new(x), Vector::new(xr), Vector::new(uf));
    let want = mv(&k, &std::array::from_fn(|i| x[i] - xr[i]));
    T::prove("tracking adds the feedforward", and((0..M).map(|i| eq(u[i], uf[i] - want[i])).collect()));
    // one step of any other input costs more: x'Px ≤ x'Qx + u'Ru + (Ax+Bu)'P(Ax+Bu)
    if N == 2 && M == 1 {
        let v = T::vars::<M>("other");
        let nx = mv(&a, &x);
        let bu = mv(&bm, &v);
        let y: [T; N] = std::array::from_fn(|i| nx[i] + bu[i]);
        let e: [T; M] = { let kx = mv(&k, &x); std::array::from_fn(|i| v[i] + kx[i]) };
        let other = dot(&x, &mv(&q, &x)) + dot(&v, &mv(&r, &v)) + dot(&y, &mv(&p, &y));
        T::prove("any other input costs more by the squared difference", eq(other - dot(&x, &mv(&p, &x)), dot(&e, &mv(&w, &e))));
    }
}
fn lqr_nilpotent<T: Scal>() {
    let z = T::ZERO;
    // far from the point where the factorisation gives up
    let eff = |n: &str| T::var_in(n, T::q(1, 10), T::i(10));
    match T::choose("plant", 3) {
        0 => {
            let a = Matrix::new([[z, T::var_in("a", -T::i(10), T::i(10))], [z, z]]);
            let q = Matrix::new([[eff("q0"), z], [z, eff("q1")]]);
            let bm = if T::choose("pushed", 2) == 0 { [[z], [T::var_in("b", -T::i(10), T::i(10))]] } else { [[T::var_in("b", -T::i(10), T::i(10))], [z]] };
            lqr_laws(a, Matrix::new(bm), q, Matrix::new([[eff("r")]]));
        }
        1 => {
            let a = Matrix::new([[z, T::var_in("a", -T::i(10), T::i(10))], [z, z]]);
            let q = Matrix::new([[eff("q0"), z], [z, eff("q1")]]);
            let bm = Matrix::new([[T::var_in("b0", -T::i(10), T::i(10)), z], [z, T::var_in("b1", -T::i(10), T::i(10))]]);
            lqr_laws(a, bm, q, Matrix::new([[eff("r0"), z], [z, eff("r1")]]));
        }
        // a plant that forgets its state at once
        _ => {
            let q = Matrix::new([[eff("q0"), z], [z, eff("q1")]]);
            lqr_laws(Matrix::new([[z, z], [z, z]]), Matrix::new([[T::var_in("b0", -T::i(10), T::i(10))], [T::var_in("b1", -T::i(10), T::i(10))]]), q, Matrix::new([[eff("r")]]));
        }
    }
}
fn lqr_any<T: Scal>() {
    fn go<T: Scal, const N: usize, const M: usize>() {
        let g = |lo, hi| T::rnd(lo, hi, 8);
        let full = N == M && T::rndi(2) == 0;
        let a = Matrix::<N, N, T>::from_fn(|_, _| g(-2, 2)).scale(if full { T::ONE } else { T::q(1, 2 * N as i64 + 1) });
        let bm = Matrix::<N, M, T>::from_fn(|i, j| if full && i == j { T::i(3) } else { g(-1, 1) });
        let l = Matrix::<N, N, T>::from_fn(|_, _| g(-2, 2));
        let q = madd(&mm(&l, &tr(&l)), &mscale(&ident(), T::q(1, 4)));
        let l = Matrix::<M, M, T>::from_fn(|_, _| g(-2, 2));
        let r = madd(&mm(&l, &tr(&l)), &mscale(&ident(), T::q(1, 2)));
        let Ok(c) = Lqr::new(a, bm, q, r) else { return T::prove("a regulable plant is accepted", b(false)) };
        let (p, k) = (c.cost_to_go(), c.gain());
        let w = madd(&r, &mm(&mm(&tr(&bm), &p), &bm));
        let rhs = mm(&mm(&tr(&bm), &p), &a);
        let close = |n: &str, x: &[Vec<T>], y: &[Vec<T>], s: T| {
            for (a, b) in x.iter().flatten().zip(y.iter().flatten()) {
                T::prove(n, le((*a - *b).abs(), s * T::q(1, 10_000_000)));
            }
        };
        let size = rows(&p).into_iter().flatten().fold(T::ONE, |t, x| t.max(x.abs())) * T::i(50);
        close("gain", &rows(&mm(&w, &k)), &rows(&rhs), size);
        close("closed loop", &rows(&c.closed_loop()), &rows(&msub(&a, &mm(&bm, &k))), T::i(20));
        close("Riccati", &rows(&p), &rows(&madd(&q, &msub(&mm(&mm(&tr(&a), &p), &a), &mm(&tr(&rhs), &k)))), size);
        let mut z = c.closed_loop();
        for _ in 0..12 { z = mm(&z, &z); }
        close("the closed loop settles", &rows(&z), &rows(&Matrix::<N, N, T>::from_fn(|_, _| T::ZERO)), T::i(1000));
        match c.certify_stability() {
            Ok(v) => {
                let cl = c.closed_loop();
                close("certificate", &rows(&madd(&msub(&mm(&mm(&tr(&cl), &v), &cl), &v), &q)), &rows(&Matrix::<N, N, T>::from_fn(|_, _| T::ZERO)), size);
                let rv = rows(&v);
                for i in 1..=N {
                    T::prove("certificate is positive definite", gt(det(&rv[..i].iter().map(|r| r[..i].to_vec()).collect::<Vec<_>>()), T::ZERO));
                }
            }
            Err(_) => T::prove("a settling loop is certified", b(false)),
        }
    }
    match T::rndi(4) {
        0 => go::<T, 1, 1>(),
        1 => go::<T, 2, 1>(),
        2 => go::<T, 2, 2>(),
        _ => go::<T, 4, 2>(),
    }
}
fn lqr_refused<T: Scal>() {
    let bad = T::special("bad");
    let k = T::choose("which", 4);
    let n = |x| Matrix::<1, 1, T>::new([[x]]);
    let mut v = [T::q(1, 2), T::ONE, T::ONE, T::ONE];
    v[k] = bad;
    T::prove("non-finite entry", b(Lqr::new(n(v[0]), n(v[1]), n(v[2]), n(v[3])).err() == Some(ControlError::Linalg(LinalgError::NonFinite))));
    T::prove("input cost must be positive definite", b(Lqr::new(n(T::ONE), n(T::ONE), n(T::ONE), n(-T::nonneg("x"))).err() == Some(ControlError::Linalg(LinalgError::NotPositiveDefinite))));
    let e = T::ONE + T::pos("x");
    let i2 = ident::<T, 2>();
    let skew = Matrix::new([[T::ONE, e], [-e, T::ONE]]);
    T::prove("costs must be symmetric", b(Lqr::new(i2, i2, skew, i2).err() == Some(ControlError::Linalg(LinalgError::NotSymmetric)) && Lqr::new(i2, i2, i2, skew).err() == Some(ControlError::Linalg(LinalgError::NotSymmetric))));
}
fn lqr_unfit<T: Scal>() {
    let n = |x| Matrix::<1, 1, T>::new([[x]]);
    let i2 = ident::<T, 2>();
    // unreachable and runaway
    T::prove("a runaway the input cannot reach", b(matches!(Lqr::new(n(T::i(2)), n(T::ZERO), n(T::ONE), n(T::ONE)).err(), Some(ControlError::Linalg(LinalgError::DidNotConverge { .. })))));
    // a loop that settles but whose cost does not see a direction has no certificate
    let a = Matrix::new([[T::q(1, 2), T::ZERO], [T::ZERO, T::q(1, 2)]]);
    let half = Matrix::new([[T::ONE, T::ZERO], [T::ZERO, T::ZERO]]);
    match Lqr::new(a, i2, half, i2) {
        Ok(c) => T::prove("unseen direction", b(c.certify_stability().err() == Some(ControlError::Linalg(LinalgError::NotPositiveDefinite)))),
        Err(_) => T::prove("settles", b(false)),
    }
}

// ---- geometric attitude law
fn ctl<T: Scal>() -> Option<(GeometricAttitudeController<T>, T, T, Matrix<3, 3, T>)> {
    let (ka, kr) = (T::pos("ka"), T::pos("kr"));
    let (j, _) = spd::<T, 3>("j");
    match GeometricAttitudeController::new(ka, kr, j) {
        Ok(c) => Some((c, ka, kr, j)),
        Err(_) => {
            T::prove("positive gains and inertia accepted", b(false));
            None
        }
    }
}
fn geometric<T: Scal>() {
    let Some((c, ka, kr, j)) = ctl::<T>() else { return };
    T::prove("gains read back", and(vec![eq(c.attitude_gain(), ka), eq(c.rate_gain(), kr), meq(&c.inertia(), &j)]));
    let (q, d) = (T::unit::<4>("q"), T::unit::<4>("desired"));
    let (w, wd, wdd) = (T::vars::<3>("w"), T::vars::<3>("wd"), T::vars::<3>("wdd"));
    let e = GeometricAttitudeController::attitude_error(so3(&q), so3(&d));
    // relative turn of the body away from its target, r = d* q: the error is 2 r₀ (r₁ r₂ r₃), the sine of the turn on its axis
    let r = {
        let (a, x) = (conj(&d), q);
        let (u, v) = ([a[1], a[2], a[3]], [x[1], x[2], x[3]]);
        let cr = cross(&u, &v);
        [a[0] * x[0] - dot(&u, &v), a[0] * v[0] + x[0] * u[0] + cr[0], a[0] * v[1] + x[0] * u[1] + cr[1], a[0] * v[2] + x[0] * u[2] + cr[2]]
    };
    T::prove("attitude error is the sine of the turn along its axis", and((0..3).map(|i| eq(e[i], T::TWO * r[0] * r[i + 1])).collect()));
    let t = c.torque(so3(&q), v3(w), so3(&d), v3(wd), v3(wdd));
    // carried into the body frame
    let into = |v: &[T; 3]| act(&conj(&q), &act(&d, v));
    let (cw, ca) = (into(&wd), into(&wdd));
    let jw = mv(&j, &w);
    let gyro = cross(&w, &jw);
    let wc = cross(&w, &cw);
    // with J·ẇ = τ - w × J w, the rate error w - c obeys J d(w - c)/dt = -kr (w - c) - ka e, where dc/dt = -w × c + ca
    let jf = mv(&j, &std::array::from_fn(|i| wc[i] - ca[i]));
    for i in 0..3 {
        T::prove("closed loop is the documented error dynamics", eq(t[i] - gyro[i] + jf[i], -ka * e[i] - kr * (w[i] - cw[i])));
    }
}
fn geometric_rest<T: Scal>() {
    let Some((c, _, kr, _)) = ctl::<T>() else { return };
    let d = T::unit::<4>("desired");
    let z = v3([T::ZERO; 3]);
    // either quaternion of the target attitude
    let s = if T::choose("sign", 2) == 0 { T::ONE } else { -T::ONE };
    let q: [T; 4] = std::array::from_fn(|i| s * d[i]);
    let t = c.torque(so3(&q), z, so3(&d), z, z);
    T::prove("no torque at the target", veq(&t, &[T::ZERO; 3]));
    // spinning about the body's own axis: power of the correction is never positive
    let w = T::vars::<3>("w");
    let t = c.torque(so3(&q), v3(w), so3(&d), z, z);
    let p = dot(&t.into_array(), &w);
    T::prove("only damping at the target", eq(p, -kr * dot(&w, &w)));
}
fn geometric_refused<T: Scal>() {
    let bad = T::special("bad");
    let (ka, kr) = (T::pos("ka"), T::pos("kr"));
    let i3 = ident::<T, 3>();
    let f = |a, r, j| GeometricAttitudeController::new(a, r, j).err();
    T::prove("non-finite gain", b(f(bad, kr, i3) == Some(ControlError::NonFinite) && f(ka, bad, i3) == Some(ControlError::NonFinite)));
    let (i, j) = (T::choose("i", 3), T::choose("j", 3));
    let mut m = i3;
    m[(i, j)] = bad;
    T::prove("non-finite inertia", b(f(ka, kr, m) == Some(ControlError::NonFinite)));
    let x = T::nonneg("x");
    T::prove("gains must be positive", b(f(-x, kr, i3) == Some(ControlError::NonPositiveGain) && f(ka, -x, i3) == Some(ControlError::NonPositiveGain)));
    let y = T::pos("y");
    let mut m = i3;
    if i != j {
        m[(i, j)] = T::ONE + y;
        T::prove("asymmetric inertia", b(f(ka, kr, m) == Some(ControlError::NotSymmetricInertia)));
        m[(i, j)] = T::ONE + y;
        m[(j, i)] = T::ONE + y;
        T::prove("indefinite inertia", b(f(ka, kr, m) == Some(ControlError::NonPositiveInertia)));
    } else {
        m[(i, i)] = -x;
        T::prove("inertia must be positive definite", b(f(ka, kr, m) == Some(ControlError::NonPositiveInertia)));
    }
}

// ---- follow the gap
struct Ftg<T> {
    fov: T,
    range: T,
    width: T,
    open: T,
    cruise: T,
    gain: T,
    bias: T,
    stop: T,
    clear: T,
    half: T,
}
impl<T: Scal> Ftg<T> {
    fn build<const B: usize>(&self) -> Option<FollowTheGap<B, T>> {
        FollowTheGap::try_new(self.fov, self.range, self.width, self.open, self.cruise).ok()?
            .with_steering_gain(self.gain).ok()?
            .with_goal_bias(self.bias).ok()?
            .with_speed_scaling(self.stop, self.clear).ok()?
            .with_frontal_half_angle(self.half).ok()
    }
}
/// what the documentation promises of one reactive step; `reads` are the cleaned readings
fn gap_laws<T: Scal, const B: usize>(f: &Ftg<T>, free: &[bool; B], reads: &[T; B], goal: T, out: &FollowTheGapOutput<T>, ang: &dyn Fn(usize) -> T) {
    let mut least = f.range;
    for r in reads { least = least.min(*r) }
    T::prove("clearance is the nearest reading", eq(out.minimum_clearance(), least));
    // maximal open runs wide enough for the chassis
    let mut gaps = vec![];
    let mut i = 0;
    while i < B {
        if !free[i] { i += 1; continue }
        let s = i;
        while i < B && free[i] { i += 1 }
        let e = i - 1;
        let wide = if s > 0 && e + 1 < B {
            let (x, y) = (reads[s - 1], reads[e + 1]);
            let d2 = x * x + y * y - T::TWO * x * y * (ang(e + 1) - ang(s - 1)).cos();
            T::holds(ge(d2.max(T::ZERO).sqrt(), f.width))
        } else { true };
        if wide { gaps.push((s, e)) }
    }
    T::prove("blocked exactly when no open stretch fits the robot", b(out.is_blocked() == gaps.is_empty()));
    let t = out.body_twist();
    if gaps.is_empty() {
        T::prove("blocked means a full stop", and(vec![eq(t.linear(), T::ZERO), eq(t.angular(), T::ZERO), eq(out.heading(), T::ZERO), b(out.gap_start_index() == 0 && out.gap_end_index() == 0)]));
        return;
    }
    if out.is_blocked() { return }
    let inset = |i: usize| (f.width * T::HALF / reads[i]).atan();
    let bounds = |(s, e): (usize, usize)| (ang(s) + if s > 0 { inset(s - 1) } else { T::ZERO }, ang(e) - if e + 1 < B { inset(e + 1) } else { T::ZERO });
    let aim_of = |g: (usize, usize)| {
        let (lo, hi) = bounds(g);
        if T::holds(gt(lo, hi)) { (ang(g.0) + ang(g.1)) * T::HALF } else { goal.max(lo).min(hi) }
    };
    let score_of = |g: (usize, usize)| {
        let (lo, hi) = bounds(g);
        (hi - lo).max(T::ZERO) - f.bias * (aim_of(g) - goal).abs()
    };
    let pick = (out.gap_start_index(), out.gap_end_index());
    T::prove("the reported gap is an open stretch that fits", b(gaps.contains(&pick)));
    if !gaps.contains(&pick) { return }
    T::prove("heading is the aim inside that gap", eq(out.heading(), aim_of(pick)));
    T::prove("heading stays inside the gap", between(ang(pick.0), out.heading(), ang(pick.1)));
    for g in &gaps {
        if *g != pick {
            T::prove("no other gap scores better", ge(score_of(pick), score_of(*g)));
        }
    }
    T::prove("turn rate is the gain on the heading", eq(t.angular(), f.gain * out.heading()));
    let mut front = f.range;
    for i in 0..B {
        if T::holds(le(ang(i).abs(), f.half)) { front = front.min(reads[i]) }
    }
    let v = f.cruise * ((front - f.stop) / (f.clear - f.stop)).max(T::ZERO).min(T::ONE);
    T::prove("speed ramps with the room ahead", eq(t.linear(), v));
    T::prove("speed stays within the cruise speed", between(T::ZERO, t.linear(), f.cruise));
}
fn gap<T: Scal, const B: usize>() {
    T::merge(true);
    let range = T::pos("range");
    let f = Ftg { fov: [T::PI, T::TWO_PI, T::i(2)][T::choose("view", 3)], range, width: T::pos("width"), open: T::pos("open"), cruise: T::pos("cruise"), gain: T::pos("gain"), bias: T::nonneg("bias"), stop: T::nonneg("stop"), clear: T::pos("clear"), half: T::q(1, 2) };
    T::assume(le(f.open, range));
    T::assume(lt(f.width, range * T::TWO));
    T::assume(lt(f.stop, f.clear));
    let Some(c) = f.build::<B>() else { return T::prove("valid settings accepted", b(false)) };
    let mut free = [false; B];
    let mut reads = [range; B];
    let mut raw = [T::ZERO; B];
    for i in 0..B {
        match T::choose("beam", 2) {
            0 => {
                let x = T::pos("near");
                T::assume(lt(x, f.open));
                raw[i] = x;
                reads[i] = x.min(range);
            }
            _ => {
                let x = T::pos("far");
                T::assume(ge(x, f.open));
                raw[i] = x;
                reads[i] = x.min(range);
                free[i] = true;
            }
        }
    }
    let goal = T::var("goal");
    match c.compute(&raw, goal) {
        Ok(out) => gap_laws(&f, &free, &reads, goal, &out, &|i| f.fov * T::q(2 * i as i64 - (B as i64 - 1), 2 * (B as i64 - 1))),
        Err(_) => T::prove("a finite goal is accepted", b(false)),
    }
}
fn gap_2<T: Scal>() { gap::<T, 2>() }
fn gap_3<T: Scal>() { gap::<T, 3>() }
fn gap_4<T: Scal>() { gap::<T, 4>() }
/// a beam that is missing, zero or negative counts as open at full range
fn gap_missing<T: Scal>() {
    T::merge(true);
    let range = T::pos("range");
    let open = T::pos("open");
    T::assume(le(open, range));
    let Ok(c) = FollowTheGap::<3, T>::try_new(T::PI, range, range, open, T::pos("cruise")) else { return T::prove("valid settings accepted", b(false)) };
    let goal = T::var("goal");
    let mut v = [T::pos("a"), T::pos("b"), T::pos("c")];
    for x in &v { T::assume(le(*x, range)) }
    let k = T::choose("missing", 3);
    let (mut a, mut d) = (v, v);
    a[k] = if T::choose("kind", 2) == 0 { T::special("bad") } else { -T::nonneg("x") };
    d[k] = range;
    v[k] = range + T::pos("far");
    let (x, y, z) = (c.compute(&a, goal).unwrap(), c.compute(&d, goal).unwrap(), c.compute(&v, goal).unwrap());
    for (n, o) in [("a missing beam counts as open at full range", &x), ("beyond range counts as full range", &z)] {
        T::prove(n, and(vec![
            b(o.is_blocked() == y.is_blocked() && o.gap_start_index() == y.gap_start_index() && o.gap_end_index() == y.gap_end_index()),
            eq(o.heading(), y.heading()),
            eq(o.minimum_clearance(), y.minimum_clearance()),
            eq(o.body_twist().linear(), y.body_twist().linear()),
        ]));
    }
}
fn gap_many<T: Scal>() {
    fn go<T: Scal, const B: usize>() {
        let r = |lo, hi| T::rnd(lo, hi, 16);
        let range = T::ONE + r(0, 9);
        let stop = r(0, 2);
        let fov = T::TWO_PI * T::q(1 + T::rndi(8) as i64, 8);
        let f = Ftg { fov, range, width: (T::q(1, 16) + r(0, 1)), open: range * T::q(1 + T::rndi(8) as i64, 8), cruise: T::q(1, 16) + r(0, 3), gain: T::q(1, 16) + r(0, 3), bias: r(0, 2), stop, clear: stop + T::q(1, 16) + r(0, 5), half: fov * T::q(1 + T::rndi(4) as i64, 8) };
        let Some(c) = f.build::<B>() else { return T::prove("valid settings accepted", b(false)) };
        let mut raw: [T; B] = std::array::from_fn(|_| match T::rndi(8) {
            0 => T::ZERO,
            1 => T::NAN,
            2 => range * T::TWO,
            3 => f.open,
            4 => -T::ONE,
            _ => r(0, 10),
        });
        let runs = T::rndi(2) == 0;
        for i in 1..B { if runs && T::rndi(3) != 0 { raw[i] = raw[i - 1] } }
        let symmetric = T::rndi(4) == 0;
        if symmetric { for i in 0..B / 2 { raw[B - 1 - i] = raw[i] } }
        let reads: [T; B] = std::array::from_fn(|i| if !raw[i].is_finite() || T::holds(le(raw[i], T::ZERO)) { range } else { raw[i].min(range) });
        let free: [bool; B] = std::array::from_fn(|i| T::holds(ge(reads[i], f.open)));
        let goal = if symmetric { T::ZERO } else { r(-3, 3) };
        T::tol(1e-9);
        let out = c.compute(&raw, goal).unwrap();
        gap_laws(&f, &free, &reads, goal, &out, &|i| c.beam_angle(i).unwrap());
        let ang = |i: usize| f.fov * T::q(2 * i as i64 - (B as i64 - 1), 2 * (B as i64 - 1));
        for i in 0..B { T::prove_close("beam angle", c.beam_angle(i).unwrap(), ang(i), 1e-12) }
        T::prove("no beam past the end", b(c.beam_angle(B).is_none()));
    }
    match T::rndi(4) {
        0 => go::<T, 5>(),
        1 => go::<T, 8>(),
        2 => go::<T, 13>(),
        _ => go::<T, 36>(),
    }
}
/// two stretches that score the same: the straighter aim wins, and the earlier one on a full tie
fn gap_tie<T: Scal>() {
    let f = Ftg { fov: T::PI, range: T::i(8), width: T::q(1, 8), open: T::i(4), cruise: T::ONE, gain: T::ONE, bias: T::ZERO, stop: T::ONE, clear: T::i(2), half: T::ONE };
    let c = f.build::<9>().unwrap();
    let (n, o) = (T::i(3), T::i(8));
    let pair = |c: &FollowTheGap<9, T>, v: [T; 9]| { let r = c.compute(&v, T::ZERO).unwrap(); (r.gap_start_index(), r.gap_end_index()) };
    T::prove("full tie goes to the earlier gap", b(pair(&c, [n, o, o, n, n, n, o, o, n]) == (1, 2)));
    T::prove("straighter gap wins a tie on the left", b(pair(&c, [n, o, n, n, o, n, n, n, n]) == (4, 4)));
    T::prove("straighter gap wins a tie on the right", b(pair(&c, [n, n, n, n, o, n, n, o, n]) == (4, 4)));
}
fn gap_defaults<T: Scal>() {
    let range = T::i(8);
    let width = T::i(2);
    let (a, d) = (FollowTheGap::<3, T>::try_new(T::PI, range, width, T::i(4), T::ONE).unwrap(), Ftg { fov: T::PI, range, width, open: T::i(4), cruise: T::ONE, gain: T::q(3, 2), bias: T::HALF, stop: T::ONE, clear: range, half: T::PI / T::i(4) }.build::<3>().unwrap());
    T::prove("documented defaults", b(a == d));
    let v = [T::var_in("a", T::i(4), T::i(8)), T::var_in("b", T::q(1, 2), T::i(8)), T::var_in("c", T::i(4), T::i(8))];
    let g = T::var_in("goal", -T::ONE, T::ONE);
    let (x, y) = (a.compute(&v, g).unwrap(), d.compute(&v, g).unwrap());
    T::prove("and they steer alike", and(vec![eq(x.heading(), y.heading()), eq(x.body_twist().linear(), y.body_twist().linear())]));
}
fn gap_refused<T: Scal>() {
    let good = [T::i(2), T::i(8), T::ONE, T::i(4), T::ONE];
    let new = |v: [T; 5]| FollowTheGap::<3, T>::try_new(v[0], v[1], v[2], v[3], v[4]).err();
    T::prove("valid settings accepted", b(new(good).is_none()));
    let k = T::choose("which", 5);
    let bad = T::special("bad");
    let with = |k: usize, x: T| { let mut v = good; v[k] = x; new(v) };
    T::prove("non-finite setting", b(with(k, bad) == Some(ControlError::NonFinite)));
    let x = T::nonneg("x");
    let e = [ControlError::InvalidFieldOfView, ControlError::NonPositiveRange, ControlError::NonPositiveChassisWidth, ControlError::NonPositiveRange, ControlError::NonPositiveSpeed];
    T::prove("settings must be positive", b(with(k, -x) == Some(e[k])));
    T::prove("more than a turn of view", b(with(0, T::TWO_PI + T::pos("y")) == Some(e[0])));
    T::prove("threshold past the range", b(with(3, T::i(8) + T::pos("y")) == Some(e[1])));
    T::prove("chassis as wide as the range", b(with(2, T::i(16) + x) == Some(e[2])));
    T::prove("one beam", b(FollowTheGap::<1, T>::try_new(good[0], good[1], good[2], good[3], good[4]).err() == Some(ControlError::InvalidBeamCount)));
    let c = FollowTheGap::<3, T>::try_new(good[0], good[1], good[2], good[3], good[4]).unwrap();
    T::prove("goal must be finite", b(c.compute(&[T::ONE; 3], bad).err() == Some(ControlError::NonFinite)));
    T::prove("gain", b(c.with_steering_gain(bad).err() == Some(ControlError::NonFinite) && c.with_steering_gain(-x).err() == Some(ControlError::NonPositiveSpeed)));
    T::prove("bias", b(c.with_goal_bias(bad).err() == Some(ControlError::NonFinite) && c.with_goal_bias(-T::pos("y")).err() == Some(ControlError::NegativeGoalBias)));
    T::prove("scaling not finite", b(c.with_speed_scaling(bad, T::ONE).err() == Some(ControlError::NonFinite) && c.with_speed_scaling(T::ONE, bad).err() == Some(ControlError::NonFinite)));
    T::prove("scaling", b(c.with_speed_scaling(-T::pos("y"), T::ONE).err() == Some(ControlError::InvalidSpeedScaling) && c.with_speed_scaling(T::ONE + x, T::ONE).err() == Some(ControlError::InvalidSpeedScaling)));
    T::prove("frontal angle", b(c.with_frontal_half_angle(bad).err() == Some(ControlError::NonFinite) && c.with_frontal_half_angle(-x).err() == Some(ControlError::InvalidFieldOfView) && c.with_frontal_half_angle(T::ONE + T::pos("y")).err() == Some(ControlError::InvalidFieldOfView)));
}

fn main() {
    run::main(
        run::Info { id: "C13", assumptions: &["the thrust attitude is proved for pushes in or square to the heading plane and sampled elsewhere", "the Riccati solution is proved for nilpotent plants and sampled elsewhere; the command law holds for every state", "gap following is proved for two to four beams and sampled up to thirty-six"] },
        vec![
            proof!(pursuit, "pure_pursuit_curvature, Curvature"),
            proof!(pursuit_arc, "pure_pursuit_curvature"),
            proof!(pursuit_refused, "pure_pursuit_curvature"),
            proof!(thrust_pitch, "thrust_command_from_acceleration, ThrustCommand"),
            proof!(thrust_roll, "thrust_command_from_acceleration, ThrustCommand"),
            proof!(thrust_general, "thrust_command_from_acceleration, ThrustCommand"),
            sampled!(thrust_any, 3000, "thrust_command_from_acceleration, ThrustCommand"),
            proof!(thrust_refused, "thrust_command_from_acceleration"),
            proof!(lqr_nilpotent, "Lqr::new, gain, closed_loop, cost_to_go, control, control_tracking"),
            sampled!(lqr_any, 400, "Lqr::new, gain, closed_loop, cost_to_go, certify_stability"),
            proof!(lqr_refused, "Lqr::new"),
            sampled!(lqr_unfit, 1, "Lqr::new, certify_stability"),
            proof!(geometric, "GeometricAttitudeController::new, attitude_error, torque"),
            proof!(geometric_rest, "GeometricAttitudeController::torque"),
            proof!(geometric_refused, "GeometricAttitudeController::new"),
            proof!(gap_2, "FollowTheGap::try_new, compute, with_*"),
            proof!(gap_3, "FollowTheGap::try_new, compute, with_*"),
            proof!(gap_4, "FollowTheGap::try_new, compute, with_*"),
            proof!(gap_missing, "FollowTheGap::compute"),
            proof!(gap_tie, "FollowTheGap::compute"),
            proof!(gap_defaults, "FollowTheGap::try_new"),
            sampled!(gap_many, 1500, "FollowTheGap::compute, beam_angle"),
            proof!(gap_refused, "FollowTheGap::try_new, with_*, compute"),
        ],
    );
}
