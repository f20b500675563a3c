//! C27: vehicle models — wheels and odometry, the unicycle, rotor mixing and rotor lag.
use contracts::*;
use multicalc::error::{KinematicsError as K, PlantError as E};
use multicalc::kinematics::*;
use multicalc::linear_algebra::Vector;
use multicalc::plant::{MultirotorMixer, RotorLag, RotorSpin};
use multicalc::scalar::VectorFn;
use multicalc::spatial::{SE2, SO2};
use multicalc::Dual;

// ---- wheels
fn drive<T: Scal>() -> (DifferentialDrive<T>, T, T) {
    let (r, w) = (T::pos("wheel radius"), T::pos("track"));
    let Ok(d) = DifferentialDrive::new(r, w) else {
        T::prove("positive geometry accepted", b(false));
        T::abandon()
    };
    (d, r, w)
}
/// each wheel's contact point moves as the body carries it; the two maps undo each other
fn wheels<T: Scal>() {
    let (d, r, w) = drive::<T>();
    T::prove("geometry kept", eqs(&[d.wheel_radius(), d.wheelbase()], &[r, w]));
    let (l, rt) = (T::var("left"), T::var("right"));
    let t = d.forward(WheelVelocities::new(l, rt));
    // the left wheel sits half the track to the left, where the body's turning slows it
    let law = |v: T, o: T, l: T, rt: T| eqs(&[v - o * w / T::TWO, v + o * w / T::TWO], &[r * l, r * rt]);
    T::prove("rolling without slip", law(t.linear(), t.angular(), l, rt));
    let back = d.inverse(t);
    T::prove("inverse undoes forward", eqs(&[back.left(), back.right()], &[l, rt]));
    let (v, o) = (T::var("speed"), T::var("rate"));
    let c = d.inverse(BodyTwist::new(v, o));
    T::prove("inverse rolls without slip", law(v, o, c.left(), c.right()));
    let a = d.forward_arc(WheelRotations::new(l, rt));
    T::prove("arc of a turn of the wheels", law(a.linear(), a.angular(), l, rt));
    let c = d.inverse_arc(BodyArc::new(v, o));
    T::prove("turn of the wheels for an arc", law(v, o, c.left(), c.right()));
    let c = d.wheel_rotations_from_travel(l, rt);
    T::prove("rotation from travel", eqs(&[c.left() * r, c.right() * r], &[l, rt]));
    let (p, q) = d.wheel_travel(WheelRotations::new(l, rt));
    T::prove("travel from rotation", eqs(&[p, q], &[r * l, r * rt]));
}
fn twists<T: Scal>() {
    let (v, o, s, dt) = (T::var("v"), T::var("o"), T::var("s"), T::var("dt"));
    let t = BodyTwist::new(v, o);
    T::prove("tangent", veq(&t.to_tangent(), &[v, T::ZERO, o]));
    let tan = Vector::new([v, s, o]);
    let p = BodyTwist::project_tangent(tan);
    T::prove("projected", eqs(&[p.linear(), p.angular(), BodyTwist::tangent_slip(tan)], &[v, o, s]));
    let a = t.integrate_over(dt);
    T::prove("held for a time", eqs(&[a.linear(), a.angular()], &[v * dt, o * dt]));
    let zeros = [BodyTwist::<T>::zeros().linear(), BodyTwist::<T>::zeros().angular(), BodyArc::<T>::zeros().linear(), BodyArc::<T>::zeros().angular(), WheelVelocities::<T>::zeros().left(), WheelVelocities::<T>::zeros().right(), WheelRotations::<T>::zeros().left(), WheelRotations::<T>::zeros().right()];
    T::prove("at rest", eqs(&zeros, &[T::ZERO; 8]));
}
fn wheels_refused<T: Scal>() {
    let (ok, bad) = (T::pos("ok"), T::special("bad"));
    let no = |r: T, w: T| DifferentialDrive::new(r, w).err();
    T::prove("non-finite", b(no(bad, ok) == Some(K::NonFinite) && no(ok, bad) == Some(K::NonFinite) && no(bad, -ok) == Some(K::NonFinite)));
    let z = -T::nonneg("not positive");
    T::prove("not positive", b(no(z, ok) == Some(K::NonPositiveParameter) && no(ok, z) == Some(K::NonPositiveParameter)));
}

// ---- odometry
fn turned<T: Scal>(name: &str) -> T {
    let th = T::var_in(name, T::q(1, 10), T::i(7));
    T::assume(ge(th, T::q(1, 10)));
    if T::choose(&format!("{name} sign"), 2) == 0 { th } else { -th }
}
fn is_pose<T: Scal>(p: SE2<T>, h: T, t: &[T; 2]) -> P<T> {
    let m = p.rotation().to_matrix();
    and(vec![veq(&p.translation(), t), eqs(&[m[(0, 0)], m[(1, 0)], m[(0, 1)], m[(1, 1)]], &[h.cos(), h.sin(), -h.sin(), h.cos()])])
}
/// a turn is along a circle of radius arc length over turn, centred across the heading
fn arc<T: Scal>() {
    T::angle_div(2);
    let (th, ds, t) = (T::var("heading"), T::var("arc"), T::vars::<2>("t"));
    let turn = if T::choose("straight", 2) == 0 { T::ZERO } else { turned("turn") };
    let pose = SE2::from_parts(SO2::from_angle(th), Vector::new(t));
    let p = integrate(pose, BodyArc::new(ds, turn));
    let want = if turn == T::ZERO {
        [t[0] + ds * th.cos(), t[1] + ds * th.sin()]
    } else {
        let r = ds / turn;
        let c = [t[0] - r * th.sin(), t[1] + r * th.cos()];
        [c[0] + r * (th + turn).sin(), c[1] - r * (th + turn).cos()]
    };
    T::prove("along the circle", is_pose(p, th + turn, &want));
    let (d, _, _) = drive::<T>();
    let q = d.odometry_step(pose, d.inverse_arc(BodyArc::new(ds, turn)));
    T::prove("from the wheels", is_pose(q, th + turn, &want));
    let next = OdometryStep.eval(&[t[0], t[1], th, ds, turn]);
    T::prove("the process model is that step", eqs(&next[..2], &want));
    T::prove("its heading is wrapped", and(vec![between(-T::PI, next[2], T::PI), eqs(&[next[2].cos(), next[2].sin()], &[(th + turn).cos(), (th + turn).sin()])]));
}
/// two arcs of one curvature are one arc
fn arcs_join<T: Scal>() {
    T::angle_div(2);
    let (th, v, t) = (T::var("heading"), T::var("curve"), T::vars::<2>("t"));
    let (a, c) = (T::var_in("a", T::q(1, 10), T::i(3)), T::var_in("c", T::q(1, 10), T::i(3)));
    T::assume(and(vec![ge(a, T::q(1, 10)), ge(c, T::q(1, 10))]));
    let pose = SE2::from_parts(SO2::from_angle(th), Vector::new(t));
    let two = integrate(integrate(pose, BodyArc::new(v * a, a)), BodyArc::new(v * c, c));
    let one = integrate(pose, BodyArc::new(v * (a + c), a + c));
    let m = one.rotation().to_matrix();
    T::prove("one arc", and(vec![veq(&two.translation(), one.translation().as_array()), meq(&two.rotation().to_matrix(), &m)]));
}
/// nearly straight arcs, against the series
fn near_straight<T: Scal>() {
    let turn = match T::rndi(4) {
        0 => T::ZERO,
        1 => T::rnd(-1, 1, 1000) * T::q(1, 1_000_000_000),
        2 => T::rnd(-1, 1, 1000) * T::q(1, 100_000),
        _ => T::rnd(-1, 1, 1000) * T::q(1, 100),
    };
    let ds = T::rnd(-9, 9, 97);
    let p = integrate(SE2::identity(), BodyArc::new(ds, turn));
    let q = turn * turn;
    let ahead = ds * (T::ONE - q / T::i(6) + q * q / T::i(120));
    let across = ds * turn * (T::q(1, 2) - q / T::i(24) + q * q / T::i(720));
    T::prove_close("ahead", p.translation()[0], ahead, 1e-13);
    T::prove_close("across", p.translation()[1], across, 1e-13);
    T::prove_close("heading", p.rotation().log(), turn, 1e-14);
}
/// the unicycle law, and the arc as its solution
fn unicycle<T: Scal>() {
    let (v, o, s) = (T::var("v"), T::var("o"), T::vars::<3>("s"));
    let u = Unicycle::new(BodyTwist::new(v, o));
    let want = [v * s[2].cos(), v * s[2].sin(), o];
    T::prove("law", veq(&u.derivative(&Vector::new(s)), &want));
    T::prove("as a field", veq(&u.field()(T::var("time"), &Vector::new(s)), &want));
}
fn arc_solves<T: Scal>() {
    T::angle_div(2);
    let (th, v, t) = (T::var("heading"), T::var("v"), T::vars::<2>("t"));
    let (o, dt) = (T::var_in("rate", T::q(1, 10), T::i(3)), T::var_in("time", T::ONE, T::i(2)));
    T::assume(and(vec![ge(o, T::q(1, 10)), ge(dt, T::ONE)]));
    let up = |x: T| Dual { value: x, deriv: T::ZERO };
    let time = Dual { value: dt, deriv: T::ONE };
    let pose = SE2::from_parts(SO2::from_angle(up(th)), Vector::new([up(t[0]), up(t[1])]));
    let p = integrate(pose, BodyTwist::new(up(v), up(o)).integrate_over(time));
    let h = th + o * dt;
    let rate = Unicycle::new(BodyTwist::new(v, o)).derivative(&Vector::new([p.translation()[0].value, p.translation()[1].value, h]));
    T::prove("moves as the unicycle does", eqs(&[p.translation()[0].deriv, p.translation()[1].deriv], &[rate[0], rate[1]]));
    let m = p.rotation().to_matrix();
    T::prove("turns as the unicycle does", eqs(&[m[(0, 0)].deriv, m[(1, 0)].deriv], &[-h.sin() * rate[2], h.cos() * rate[2]]));
}

// ---- mixing
/// what rotors at these places add up to
fn felt<const N: usize, T: Scal>(at: &[[T; 3]; N], sign: &[T; N], ratio: T, f: &[T]) -> [T; 4] {
    let mut w = [T::ZERO; 4];
    for k in 0..N {
        // place cross (0, 0, f), and the twist against the rotor's own turn
        let turn = cross(&at[k], &[T::ZERO, T::ZERO, f[k]]);
        w = [w[0] + f[k], w[1] + turn[0], w[2] + turn[1], w[3] + turn[2] + sign[k] * ratio * f[k]];
    }
    w
}
fn mix<const N: usize, T: Scal>(m: MultirotorMixer<N, T>, at: &[[T; 3]; N], sign: &[T; N], ratio: T, lo: T, hi: T) {
    T::prove("limits kept", eqs(&[m.minimum_thrust(), m.maximum_thrust()], &[lo, hi]));
    let f: [T; N] = T::vars("f");
    let w = felt(at, sign, ratio, &f);
    let got = m.wrench(Vector::new(f));
    T::prove("what rotors add up to", and(vec![veq(&got.force(), &[T::ZERO, T::ZERO, w[0]]), veq(&got.torque(), &[w[1], w[2], w[3]])]));
    let a = m.allocation();
    T::prove("as a matrix", eqs(&mv(&a, &f), &w));
    // any wanted push and turn
    let want = T::vars::<4>("wanted");
    let c = m.rotor_thrusts(want[0], Vector::new([want[1], want[2], want[3]]));
    let g = c.thrusts();
    T::prove("inside the limits", and(g.as_slice().iter().map(|x| between(lo, *x, hi)).collect()));
    if !c.saturated() {
        T::prove("gives what was asked", eqs(&felt(at, sign, ratio, g.as_slice()), &want));
        // of all the ways to give it, the least effort: the rest of f is across it
        let same = eqs(&w, &want);
        let d: Vec<T> = (0..N).map(|k| f[k] - g[k]).collect();
        T::prove("least effort", imp(same, eq(sum(&(0..N).map(|k| d[k] * g[k]).collect::<Vec<_>>()), T::ZERO)));
    }
}
fn thrust_limits<T: Scal>() -> (T, T) {
    let (lo, hi) = (T::var("least"), T::var("most"));
    T::assume(lt(lo, hi));
    (lo, hi)
}
fn quad<T: Scal>() {
    // the size at which the allocation inverts in closed form; others are sampled
    let (arm, ratio) = (T::TWO.sqrt(), T::ONE);
    let (lo, hi) = thrust_limits();
    let Ok(m) = MultirotorMixer::quadrotor_x(arm, ratio, lo, hi) else { return T::prove("accepted", b(false)) };
    let h = arm / T::TWO.sqrt();
    let at = [[h, -h, T::ZERO], [-h, h, T::ZERO], [h, h, T::ZERO], [-h, -h, T::ZERO]];
    mix(m, &at, &[T::ONE, T::ONE, -T::ONE, -T::ONE], ratio, lo, hi);
}
fn ring<const N: usize, T: Scal>(at: [[i64; 2]; N], height: i64) {
    let ratio = T::q(1, 10);
    let (lo, hi) = thrust_limits();
    let at = at.map(|p| [T::q(p[0], 4), T::q(p[1], 4), T::i(height)]);
    let spin = |k: usize| k % 2 == 0;
    let spins = std::array::from_fn(|k| if spin(k) { RotorSpin::Clockwise } else { RotorSpin::CounterClockwise });
    let sign = std::array::from_fn(|k| if spin(k) { T::ONE } else { -T::ONE });
    let Ok(m) = MultirotorMixer::<N, T>::new(at.map(Vector::new), spins, ratio, lo, hi) else { return T::prove("accepted", b(false)) };
    mix(m, &at, &sign, ratio, lo, hi);
}
/// six rotors, more than the four ways to push and turn
fn two_rings<T: Scal>() {
    ring::<6, T>([[2, 1], [1, 2], [-2, 1], [-2, -1], [1, -2], [2, -1]], -1)
}
/// layouts of every size
fn layouts<T: Scal>() {
    let ratio = T::rnd(1, 20, 7) / T::i(100);
    let (lo, hi) = (T::rnd(-3, 0, 50), T::rnd(1, 9, 50));
    if T::rndi(2) == 0 {
        let arm = T::rnd(1, 40, 7) / T::i(20);
        let h = arm / T::TWO.sqrt();
        let at = [[h, -h, T::ZERO], [-h, h, T::ZERO], [h, h, T::ZERO], [-h, -h, T::ZERO]];
        return layout(MultirotorMixer::quadrotor_x(arm, ratio, lo, hi).unwrap(), &at, &[T::ONE, T::ONE, -T::ONE, -T::ONE], ratio, lo, hi);
    }
    let at: [[T; 3]; 5] = std::array::from_fn(|k| {
        let side = T::TWO * T::PI * (T::i(k as i64) + T::rnd(0, 1, 20) / T::TWO) / T::i(5);
        let far = T::rnd(1, 3, 50) / T::TWO;
        [far * side.cos(), far * side.sin(), T::rnd(-1, 1, 9)]
    });
    let first = T::rndi(2);
    let sign: [T; 5] = std::array::from_fn(|k| if k % 2 == first { T::ONE } else { -T::ONE });
    let spins = sign.map(|s| if s == T::ONE { RotorSpin::Clockwise } else { RotorSpin::CounterClockwise });
    let m = MultirotorMixer::new(at.map(Vector::new), spins, ratio, lo, hi).unwrap();
    layout(m, &at, &sign, ratio, lo, hi);
}
fn layout<const N: usize, T: Scal>(m: MultirotorMixer<N, T>, at: &[[T; 3]; N], sign: &[T; N], ratio: T, lo: T, hi: T) {
    T::tol(1e-7);
    let f: [T; N] = std::array::from_fn(|_| lo + (hi - lo) * T::rnd(-1, 5, 40) / T::i(4));
    let w = felt(at, sign, ratio, &f);
    let got = m.wrench(Vector::new(f));
    let (force, turn) = (got.force(), got.torque());
    for (a, b) in [force[0], force[1], force[2], turn[0], turn[1], turn[2]].into_iter().zip([T::ZERO, T::ZERO, w[0], w[1], w[2], w[3]]) {
        T::prove_close("what rotors add up to", a, b, 1e-9);
    }
    // a wrench some thrusts give, perhaps out of reach
    let c = m.rotor_thrusts(w[0], Vector::new([w[1], w[2], w[3]]));
    let g = c.thrusts();
    T::prove("inside the limits", and(g.as_slice().iter().map(|x| between(lo, *x, hi)).collect()));
    // the thrusts wanted before limits, by the normal equations: least effort
    let a = Matrix::<4, N, T>::from_fn(|i, k| {
        let one: [T; N] = std::array::from_fn(|j| if j == k { T::ONE } else { T::ZERO });
        felt(at, sign, ratio, &one)[i]
    });
    let y = mm(&a, &tr(&a)).inverse().unwrap();
    let y = mv(&y, &w);
    let share = mv(&tr(&a), &y);
    let mut out = false;
    let mut close = false;
    for k in 0..N {
        close |= T::holds(or(vec![between(lo - T::q(1, 1_000_000), share[k], lo + T::q(1, 1_000_000)), between(hi - T::q(1, 1_000_000), share[k], hi + T::q(1, 1_000_000))]));
        out |= T::holds(or(vec![lt(share[k], lo), gt(share[k], hi)]));
        T::prove_close("each rotor's share, held inside its limits", g[k], share[k].max(lo).min(hi), 1e-7);
    }
    T::prove("says so when one is", b(close || c.saturated() == out));
}
fn mixer_refused<T: Scal>() {
    let (arm, ratio, lo) = (T::pos("arm"), T::pos("ratio"), T::var("least"));
    let (hi, bad) = (lo + T::pos("span"), T::special("bad"));
    let no = |arm: T, ratio: T, lo: T, hi: T| MultirotorMixer::quadrotor_x(arm, ratio, lo, hi).err();
    T::prove("non-finite", b([no(bad, ratio, lo, hi), no(arm, bad, lo, hi), no(arm, ratio, bad, hi), no(arm, ratio, lo, bad)].iter().all(|e| *e == Some(E::NonFinite))));
    let z = -T::nonneg("not positive");
    T::prove("arm", b(no(z, ratio, lo, hi) == Some(E::NonPositiveArmLength)));
    T::prove("ratio", b(no(arm, z, lo, hi) == Some(E::NonPositiveTorqueRatio)));
    T::prove("limits", b(no(arm, ratio, hi, lo) == Some(E::InvalidThrustLimits) && no(arm, ratio, lo, lo) == Some(E::InvalidThrustLimits)));
    let mut p = [[arm, T::ZERO, T::ZERO]; 4];
    p[T::choose("rotor", 4)][T::choose("slot", 3)] = bad;
    let new = |p: [[T; 3]; 4]| MultirotorMixer::new(p.map(Vector::new), [RotorSpin::Clockwise; 4], ratio, lo, hi).err();
    T::prove("place", b(new(p) == Some(E::NonFinite)));
}
/// layouts that cannot give every push and turn
fn dependent<T: Scal>() {
    let spins = |n: usize| if n % 2 == 0 { RotorSpin::Clockwise } else { RotorSpin::CounterClockwise };
    let r = || T::rnd(-2, 2, 97);
    let (lo, hi, ratio) = (T::ZERO, T::i(9), T::rnd(1, 20, 7) / T::i(100));
    match T::rndi(3) {
        // three rotors
        0 => {
            let e = MultirotorMixer::<3, T>::new(std::array::from_fn(|_| Vector::new([r(), r(), r()])), std::array::from_fn(spins), ratio, lo, hi).err();
            T::prove("too few", b(e == Some(E::RotorLayoutNotIndependent)));
        }
        // all in a line through anywhere
        1 => {
            let (p, u) = ([r(), r()], [r(), T::ONE]);
            let e = MultirotorMixer::<6, T>::new(std::array::from_fn(|_| { let t = r(); Vector::new([p[0] + t * u[0], p[1] + t * u[1], r()]) }), std::array::from_fn(spins), ratio, lo, hi).err();
            T::prove("in a line", b(e == Some(E::RotorLayoutNotIndependent)));
        }
        // all turning one way
        _ => {
            let e = MultirotorMixer::<5, T>::new(std::array::from_fn(|_| Vector::new([r(), r(), r()])), [RotorSpin::Clockwise; 5], ratio, lo, hi).err();
            T::prove("all turning one way", b(e == Some(E::RotorLayoutNotIndependent)));
        }
    }
}

// ---- lag
/// the exact response to a command held still
fn lag<T: Scal>() {
    let (tau, dt) = (T::pos("lag"), T::pos("tick"));
    let (x, u) = (T::vars::<2>("thrust"), T::vars::<2>("asked"));
    let Ok(mut m) = RotorLag::<2, T>::new(tau, dt) else { return T::prove("accepted", b(false)) };
    T::prove("from nothing", and(vec![veq(&m.thrusts(), &[T::ZERO; 2]), eqs(&[m.time_constant(), m.timestep()], &[tau, dt])]));
    m = m.with_thrusts(Vector::new(x));
    T::prove("from there", veq(&m.thrusts(), &x));
    T::prove("rate", eqs(&[m.rate(Vector::new(u))[0] * tau, m.rate(Vector::new(u))[1] * tau], &[u[0] - x[0], u[1] - x[1]]));
    let mut n = m;
    let left = (-dt / tau).exp();
    let want: [T; 2] = std::array::from_fn(|k| u[k] + (x[k] - u[k]) * left);
    let y = m.stepped(Vector::new(u));
    T::prove("the gap shrinks by its share", and(vec![veq(&y, &want), veq(&m.thrusts(), &want)]));
    for k in 0..2 {
        let (lo, hi) = if T::holds(le(x[k], u[k])) { (x[k], u[k]) } else { (u[k], x[k]) };
        T::prove("never past what was asked", between(lo, y[k], hi));
        T::prove("always nearer", or(vec![eq(x[k], u[k]), lt((y[k] - u[k]) * (y[k] - u[k]), (x[k] - u[k]) * (x[k] - u[k]))]));
    }
    // over another time
    let t = T::pos("other");
    let y = n.stepped_over(Vector::new(u), t);
    let left = (-t / tau).exp();
    T::prove("over another time", and(vec![veq(&y, &std::array::from_fn::<T, 2, _>(|k| u[k] + (x[k] - u[k]) * left)), veq(&n.thrusts(), y.as_array())]));
    n.reset();
    T::prove("reset", veq(&n.thrusts(), &[T::ZERO; 2]));
}
/// many short ticks are one long one
fn ticks_join<T: Scal>() {
    let (tau, x, u) = (T::pos("lag"), T::vars::<1>("thrust"), T::vars::<1>("asked"));
    let (s, t) = (tau * T::pos("s"), tau * T::pos("t"));
    let Ok(m) = RotorLag::<1, T>::new(tau, s) else { return T::prove("accepted", b(false)) };
    let (mut a, mut c) = (m.with_thrusts(Vector::new(x)), m.with_thrusts(Vector::new(x)));
    let one = a.stepped_over(Vector::new(u), s + t);
    c.stepped(Vector::new(u));
    let two = c.stepped_over(Vector::new(u), t);
    T::prove("one long tick", veq(&one, two.as_array()));
}
fn lag_refused<T: Scal>() {
    let (ok, bad, z) = (T::pos("ok"), T::special("bad"), -T::nonneg("not positive"));
    let no = |a: T, c: T| RotorLag::<1, T>::new(a, c).err();
    T::prove("non-finite", b(no(bad, ok) == Some(E::NonFinite) && no(ok, bad) == Some(E::NonFinite)));
    T::prove("lag time", b(no(z, ok) == Some(E::NonPositiveTimeConstant)));
    T::prove("tick", b(no(ok, z) == Some(E::NonPositiveTimestep)));
}
/// ticks far shorter than the lag close their share to the last digit
fn short_ticks<T: Scal>() {
    let e = [T::q(1, 1_000_000_000_000), T::q(1, 1_000_000), T::q(1, 1000)][T::rndi(3)] * T::rnd(1, 9, 97);
    let u = T::rnd(1, 9, 97);
    let mut m = RotorLag::<1, T>::new(T::ONE, e).unwrap();
    let share = e * (T::ONE - e / T::TWO * (T::ONE - e / T::i(3) * (T::ONE - e / T::i(4))));
    let mut n = m;
    T::prove_close("share", m.stepped(Vector::new([u]))[0] / share, u, 1e-12);
    T::prove_close("share over", n.stepped_over(Vector::new([u]), e)[0] / share, u, 1e-12);
}
fn main() {
    run::main(
        run::Info { id: "C27", assumptions: &[
            "rotor mixing is proved for the unit quadrotor layout and one six-rotor layout, for every wrench and limit; other layouts are sampled (bounded)",
            "constant-twist arcs are proved for turns of at least 0.1 rad and for exactly straight travel; nearer-straight turns are sampled (bounded)",
        ] },
        vec![
            proof!(wheels, "DifferentialDrive::forward, inverse, forward_arc, inverse_arc, wheel_travel, wheel_rotations_from_travel"),
            proof!(twists, "BodyTwist::to_tangent, project_tangent, tangent_slip, integrate_over"),
            proof!(wheels_refused, "DifferentialDrive::new"),
            proof!(arc, "integrate, DifferentialDrive::odometry_step, OdometryStep::eval"),
            proof!(arcs_join, "integrate"),
            sampled!(near_straight, 400, "integrate"),
            proof!(unicycle, "Unicycle::derivative, field"),
            proof!(arc_solves, "integrate, BodyTwist::integrate_over, Unicycle::derivative"),
            proof!(quad, "MultirotorMixer::quadrotor_x, rotor_thrusts, wrench, allocation"),
            sampled!(layouts, 400, "MultirotorMixer::new, quadrotor_x, rotor_thrusts, wrench"),
            proof!(mixer_refused, "MultirotorMixer::new, quadrotor_x"),
            sampled!(dependent, 300, "MultirotorMixer::new"),
            proof!(lag, "RotorLag::new, with_thrusts, stepped, stepped_over, rate, reset"),
            proof!(ticks_join, "RotorLag::stepped, stepped_over"),
            proof!(lag_refused, "RotorLag::new"),
            sampled!(short_ticks, 200, "RotorLag::new, stepped, stepped_over"),
            proof!(two_rings, "MultirotorMixer::new, rotor_thrusts, wrench, allocation"),
        ],
    );
}
