use contracts::*;
use multicalc::error::EstimationError;
use multicalc::estimation::{MadgwickFilter, MahonyFilter};
use multicalc::linear_algebra::Vector3D;
use multicalc::spatial::{Quaternion, SO3};

fn v3<T: Scal>(a: [T; 3]) -> Vector3D<T> {
    Vector::new(a)
}
fn so3<T: Scal>(q: [T; 4]) -> SO3<T> {
    SO3::from_quaternion(Quaternion::new(q[0], q[1], q[2], q[3]))
}
fn quat<T: Scal>(r: SO3<T>) -> [T; 4] {
    r.quaternion().as_array()
}
fn rotm<T: Scal>(q: [T; 4]) -> Matrix<3, 3, T> {
    let [w, x, y, z] = q;
    let two = T::TWO;
    Matrix::new([
        [w * w + x * x - y * y - z * z, two * (x * y - w * z), two * (x * z + w * y)],
        [two * (x * y + w * z), w * w - x * x + y * y - z * z, two * (y * z - w * x)],
        [two * (x * z - w * y), two * (y * z + w * x), w * w - x * x - y * y + z * z],
    ])
}
fn ham<T: Scal>(a: [T; 4], b: [T; 4]) -> [T; 4] {
    [
        a[0] * b[0] - a[1] * b[1] - a[2] * b[2] - a[3] * b[3],
        a[0] * b[1] + a[1] * b[0] + a[2] * b[3] - a[3] * b[2],
        a[0] * b[2] - a[1] * b[3] + a[2] * b[0] + a[3] * b[1],
        a[0] * b[3] + a[1] * b[2] - a[2] * b[1] + a[3] * b[0],
    ]
}
fn add<T: Scal>(a: [T; 3], b: [T; 3]) -> [T; 3] {
    std::array::from_fn(|i| a[i] + b[i])
}
fn mul<T: Scal>(a: [T; 3], k: T) -> [T; 3] {
    a.map(|x| x * k)
}
fn norm<T: Scal>(a: [T; 3]) -> T {
    dot(&a, &a).sqrt()
}
/// either filter behind one face
#[derive(Clone, Copy, PartialEq)]
enum Filter<T: Numeric> {
    Mahony(MahonyFilter<T>),
    Madgwick(MadgwickFilter<T>),
}
use Filter::*;
impl<T: Scal> Filter<T> {
    fn new(madgwick: bool, q: [T; 4]) -> Self {
        if madgwick { Madgwick(MadgwickFilter::new(so3(q))) } else { Mahony(MahonyFilter::new(so3(q))) }
    }
    fn gains(self, p: T, i: T) -> Self {
        match self {
            Mahony(f) => Mahony(f.with_proportional_gain(p).with_integral_gain(i)),
            Madgwick(f) => Madgwick(f.with_correction_gain(p).with_bias_gain(i)),
        }
    }
    fn references(self, up: [T; 3], north: [T; 3]) -> Self {
        match self {
            Mahony(f) => Mahony(f.with_reference_directions(v3(up), v3(north))),
            Madgwick(f) => Madgwick(f.with_reference_directions(v3(up), v3(north))),
        }
    }
    fn step(&mut self, w: [T; 3], a: [T; 3], m: Option<[T; 3]>, dt: T) -> Result<(), EstimationError> {
        match self {
            Mahony(f) => f.step(v3(w), v3(a), m.map(v3), dt),
            Madgwick(f) => f.step(v3(w), v3(a), m.map(v3), dt),
        }
    }
    fn step_two(&mut self, w: [T; 3], a: [T; 3], dt: T) -> Result<(), EstimationError> {
        match self {
            Mahony(f) => f.step_without_magnetometer(v3(w), v3(a), dt),
            Madgwick(f) => f.step_without_magnetometer(v3(w), v3(a), dt),
        }
    }
    fn set_bias(&mut self, bias: [T; 3]) {
        match self {
            Mahony(f) => f.set_gyroscope_bias(v3(bias)),
            Madgwick(f) => f.set_gyroscope_bias(v3(bias)),
        }
    }
    fn set_orientation(&mut self, q: [T; 4]) {
        match self {
            Mahony(f) => f.set_orientation(so3(q)),
            Madgwick(f) => f.set_orientation(so3(q)),
        }
    }
    fn q(&self) -> [T; 4] {
        quat(match self {
            Mahony(f) => f.orientation(),
            Madgwick(f) => f.orientation(),
        })
    }
    fn bias(&self) -> [T; 3] {
        *match self {
            Mahony(f) => f.gyroscope_bias(),
            Madgwick(f) => f.gyroscope_bias(),
        }
        .as_array()
    }
    fn is(&self, q: &[T; 4], bias: &[T; 3]) -> P<T> {
        and(vec![eqs(&self.q(), q), eqs(&self.bias(), bias)])
    }
}
/// the attitude turned through `w·dt`, kept a unit quaternion
fn turned<T: Scal>(q: [T; 4], w: [T; 3], dt: T) -> [T; 4] {
    let t = ham(q, quat(SO3::exp(v3(mul(w, dt)))));
    let n = dot(&t, &t).sqrt();
    t.map(|x| x / n)
}
/// what the readings ask for, in body axes
fn correction<T: Scal>(q: [T; 4], a: [T; 3], m: Option<[T; 3]>, up: [T; 3], north: [T; 3]) -> [T; 3] {
    let r = rotm(q);
    let rt = tr(&r);
    let mut c = cross(&mul(a, T::ONE / norm(a)), &mv(&rt, &up));
    if let Some(m) = m {
        let m = mul(m, T::ONE / norm(m));
        let vert = dot(&mv(&r, &m), &up);
        // length of the level part
        let lev = add(mv(&r, &m), mul(up, -vert));
        let flat = norm(lev);
        let wanted = add(mul(north, flat), mul(up, vert));
        c = add(c, cross(&m, &mv(&rt, &wanted)));
    }
    c
}
/// A net turn of nothing, or one clear of the exponential's series switch. The gyroscope reading
/// that nets it out after offset and correction is worked back from it, so it covers every reading.
fn net_turn<T: Scal>(dt: T) -> [T; 3] {
    if T::choose("turning", 2) == 0 {
        return [T::ZERO; 3];
    }
    let r = T::vars::<3>("rate");
    T::assume(gt(dot(&r, &r) * dt * dt, T::q(1, 1000)));
    r
}
fn pick<T: Scal>(q: [T; 4]) -> Filter<T> {
    Filter::new(T::choose("madgwick", 2) == 1, q)
}
const UP: [i64; 3] = [0, 0, 1];
const NORTH: [i64; 3] = [1, 0, 0];
fn int<T: Scal>(a: [i64; 3]) -> [T; 3] {
    a.map(T::i)
}
// ---------------------------------------------------------------- the law
fn lean<T: Scal>() {
    // push sensor only, from any state
    T::merge(true);
    let bias = T::vars::<3>("b");
    let (kp, ki) = (T::var("kp"), T::var("ki"));
    let madgwick = T::choose("madgwick", 2) == 1;
    let q = T::unit::<4>("q");
    let mut f = Filter::new(madgwick, q).gains(kp, ki);
    f.set_bias(bias);
    let dt = T::pos("dt");
    let len = T::pos("len");
    let dir = T::unit::<3>("a");
    let c = cross(&dir, &mv(&tr(&rotm(q)), &int(UP)));
    let c = match f {
        Mahony(_) => c,
        Madgwick(_) => {
            // no disagreement at all is the contract of a settled filter
            T::assume(gt(dot(&c, &c), T::ZERO));
            mul(c, T::ONE / norm(c))
        }
    };
    let nb: [T; 3] = std::array::from_fn(|i| bias[i] - c[i] * ki * dt);
    let rate = net_turn(dt);
    let w: [T; 3] = std::array::from_fn(|i| rate[i] + nb[i] - c[i] * kp);
    let a = mul(dir, len);
    let entry = T::choose("entry", 2) == 0;
    let r = if entry { f.step(w, a, None, dt) } else { f.step_two(w, a, dt) };
    T::prove("finite readings accepted", b(r.is_ok()));
    T::prove("offset takes its share of the correction", eqs(&f.bias(), &nb));
    T::prove("attitude turned by the corrected rate", eqs(&f.q(), &turned(q, rate, dt)));
    T::prove("unit attitude", eq(dot(&f.q(), &f.q()), T::ONE));
}
fn heading<T: Scal>() {
    // magnetometer as well; the push reading is zero, so only the field speaks
    T::merge(true);
    let (q, bias) = (T::unit::<4>("q"), T::vars::<3>("b"));
    let (kp, ki) = (T::var("kp"), T::var("ki"));
    let mut f = pick(q).gains(kp, ki);
    f.set_bias(bias);
    let dt = T::pos("dt");
    let m = T::unit::<3>("m");
    let len = T::pos("len");
    let r = rotm(q);
    let world = mv(&r, &m);
    let across = T::ONE - world[2] * world[2];
    let flat = if T::holds(gt(across, T::ZERO)) { across.sqrt() } else { T::ZERO };
    let c = cross(&m, &mv(&tr(&r), &[flat, T::ZERO, world[2]]));
    let c = match f {
        Mahony(_) => c,
        Madgwick(_) => {
            T::assume(gt(dot(&c, &c), T::ZERO));
            mul(c, T::ONE / norm(c))
        }
    };
    let nb: [T; 3] = std::array::from_fn(|i| bias[i] - c[i] * ki * dt);
    let rate = net_turn(dt);
    let w: [T; 3] = std::array::from_fn(|i| rate[i] + nb[i] - c[i] * kp);
    T::prove("finite readings accepted", b(f.step(w, [T::ZERO; 3], Some(mul(m, len)), dt).is_ok()));
    T::prove("offset takes its share of the correction", eqs(&f.bias(), &nb));
    T::prove("attitude turned by the corrected rate", eqs(&f.q(), &turned(q, rate, dt)));
}
fn silent<T: Scal>() {
    // no readings, or no gain: the turn rate alone
    T::merge(true);
    let (q, bias) = (T::unit::<4>("q"), T::vars::<3>("b"));
    let dt = T::pos("dt");
    let z = [T::ZERO; 3];
    let case = T::choose("case", 4);
    let (kp, ki) = if case < 2 { (T::var("kp"), T::var("ki")) } else { (T::ZERO, T::ZERO) };
    let mut f = pick(q).gains(kp, ki);
    f.set_bias(bias);
    let (a, m) = match case {
        0 => (z, None),
        1 => (z, Some(z)),
        2 => (T::vars("a"), None),
        _ => ([T::ZERO, T::ONE, T::var("a")], Some([T::ONE, T::TWO, T::ZERO])),
    };
    let rate = net_turn(dt);
    T::prove("finite readings accepted", b(f.step(add(rate, bias), a, m, dt).is_ok()));
    T::prove("the offset is kept", eqs(&f.bias(), &bias));
    T::prove("the turn rate is integrated exactly", eqs(&f.q(), &turned(q, rate, dt)));
}
fn settled<T: Scal>() {
    // readings the attitude already explains, field dipping at any angle
    T::merge(true);
    let (q, bias) = (T::unit::<4>("q"), T::vars::<3>("b"));
    let (kp, ki) = (T::var("kp"), T::var("ki"));
    let mut f = pick(q).gains(kp, ki);
    f.set_bias(bias);
    let rt = tr(&rotm(q));
    let (ga, gm) = (T::pos("ga"), T::pos("gm"));
    let dip = T::var("dip");
    T::assume(gt(dip.cos(), T::ZERO));
    let a = mul(mv(&rt, &int(UP)), ga);
    let field = mul(mv(&rt, &[dip.cos(), T::ZERO, dip.sin()]), gm);
    let m = if T::choose("compass", 2) == 1 { Some(field) } else { None };
    let dt = T::pos("dt");
    T::prove("accepted", b(f.step(bias, a, m, dt).is_ok()));
    T::prove("left alone", f.is(&q, &bias));
}
/// the correction is towards the measurement: a step that does not overshoot lowers the angle to it
fn towards<T: Scal>() {
    let q: [T; 4] = std::array::from_fn(|_| T::rnd(-3, 3, 8) + T::q(1, 50));
    let n = dot(&q, &q).sqrt();
    let q = q.map(|x| x / n);
    let a: [T; 3] = std::array::from_fn(|_| T::rnd(-3, 3, 8) + T::q(1, 100));
    let dir = mul(a, T::ONE / norm(a));
    let up: [T; 3] = int(UP);
    let lean = |f: &Filter<T>| dot(&dir, &mv(&tr(&rotm(f.q())), &up));
    let mut f = pick(q).gains(T::rnd(1, 4, 4), T::ZERO);
    let before = lean(&f);
    if T::holds(gt(before.abs(), T::q(99, 100))) {
        return;
    }
    T::prove("accepted", b(f.step([T::ZERO; 3], a, None, T::q(1, 100)).is_ok()));
    T::prove("measured and predicted up draw together", gt(lean(&f), before));
}
fn references<T: Scal>() {
    T::merge(true);
    let q = [T::ONE, T::ZERO, T::ZERO, T::ZERO];
    let f = pick(q);
    let k = T::pos("k");
    // up anywhere, north anywhere off it
    let ([ca, sa], [cb, sb], [ct, st]) = (T::unit::<2>("a"), T::unit::<2>("b"), T::unit::<2>("t"));
    let u = [ca * cb, ca * sb, sa];
    let side = [-sb * ct - sa * cb * st, cb * ct - sa * sb * st, ca * st];
    let (along, across) = (T::var("along"), T::pos("across"));
    T::assume(and(vec![gt(across, T::q(1, 10)), between(T::i(-10), along, T::i(10))]));
    let g = f.references(mul(u, k), add(mul(u, along), mul(side, across)));
    T::prove("state kept", g.is(&q, &[T::ZERO; 3]));
    let mut s = g.gains(T::ONE, T::ONE);
    // seen through the law: readings along the references are already explained
    T::prove("accepted", b(s.step([T::ZERO; 3], u, Some(side), T::ONE).is_ok()));
    T::prove("readings along the references are already explained", s.is(&q, &[T::ZERO; 3]));
}
fn references_refused<T: Scal>() {
    let q = T::unit::<4>("q");
    let f = pick(q);
    let z = [T::ZERO; 3];
    let (u, n) = (T::vars::<3>("u"), T::vars::<3>("n"));
    T::prove("no up", b(f.references(z, n) == f));
    T::prove("no north", b(f.references([T::ONE, T::TWO, T::i(3)], z) == f));
    T::prove("north along up", b(f.references([T::ONE, T::TWO, T::TWO], mul([T::ONE, T::TWO, T::TWO], T::var("k"))) == f));
    let mut bad = [T::ONE; 3];
    bad[T::choose("i", 3)] = T::NAN;
    T::prove("non-finite up", b(f.references(bad, n) == f));
    T::prove("non-finite north", b(f.references([T::ONE, T::ZERO, T::ZERO], bad) == f));
    let _ = u;
}
fn references_rounded<T: Scal>() {
    // north along up in floating point, where squaring up leaves rounding behind
    let f = Filter::new(T::rndi(2) == 1, [T::ONE, T::ZERO, T::ZERO, T::ZERO]);
    let u: [T; 3] = [T::rnd(1, 9, 10), T::rnd(-9, 9, 7), T::rnd(-9, 9, 3)];
    let k = T::rnd(1, 9, 10) * if T::rndi(2) == 0 { T::ONE } else { -T::ONE };
    T::prove("north along up is no pair of directions", b(f.references(u, mul(u, k)) == f));
    // and squared up otherwise: up to rounding the field along up and north is already explained
    let n: [T; 3] = [T::rnd(-9, 9, 10), T::rnd(1, 9, 7), T::rnd(-9, 9, 3)];
    let c = cross(&u, &n);
    let gap = norm(c) / (norm(u) * norm(n));
    if T::holds(lt(gap, T::q(1, 100))) {
        return;
    }
    let mut g = f.references(u, n).gains(T::ONE, T::ONE);
    let up = mul(u, T::ONE / norm(u));
    let lev = add(n, mul(up, -dot(&up, &n)));
    T::prove("accepted", b(g.step([T::ZERO; 3], u, Some(lev), T::ONE).is_ok()));
    if let Mahony(_) = g {
        for i in 0..3 {
            T::prove_close("already explained", g.bias()[i], T::ZERO, 1e-12);
        }
    }
}
fn refuse<T: Scal>() {
    let (q, bias) = (T::unit::<4>("q"), T::vars::<3>("b"));
    let mut f = pick(q);
    f.set_bias(bias);
    let mut w = T::vars::<3>("w");
    let (mut a, mut m) = ([T::ONE, T::TWO, T::i(3)], [T::ONE, T::ZERO, T::ZERO]);
    let mut dt = T::var("dt");
    let bad = T::special("bad");
    let site = T::choose("where", 10);
    match site {
        0..=2 => w[site] = bad,
        3..=5 => a[site - 3] = bad,
        6..=8 => m[site - 6] = bad,
        _ => dt = bad,
    }
    T::prove("non-finite reading refused", b(f.step(w, a, Some(m), dt) == Err(EstimationError::NonFinite)));
    T::prove("filter untouched", f.is(&q, &bias));
    if site < 6 || site == 9 {
        T::prove("non-finite reading refused without a field", b(f.step_two(w, a, dt) == Err(EstimationError::NonFinite)));
        T::prove("filter untouched without a field", f.is(&q, &bias));
    }
}
/// a non-finite gain reaches the result, which is then refused
fn refuse_result<T: Scal>() {
    let q = [T::ONE, T::ZERO, T::ZERO, T::ZERO];
    let mut f = pick(q);
    let first = T::choose("gain", 2) == 0;
    let bad = T::special("bad");
    f = if first { f.gains(bad, T::ONE) } else { f.gains(T::ONE, bad) };
    let r = f.step([T::ZERO; 3], [T::ZERO, T::ONE, T::ONE], None, T::ONE);
    T::prove("a non-finite result is refused", b(r == Err(EstimationError::NonFinite)));
    T::prove("filter untouched", f.is(&q, &[T::ZERO; 3]));
}
fn starting<T: Scal>() {
    let q = T::unit::<4>("q");
    let mut f = pick(q);
    T::prove("starts where told with no offset", f.is(&q, &[T::ZERO; 3]));
    let q2 = T::unit::<4>("r");
    let bias = T::vars::<3>("b");
    f.set_bias(bias);
    f.set_orientation(q2);
    T::prove("setters replace their own part", f.is(&q2, &bias));
    // documented starting gains
    let (p, i) = match f {
        Mahony(_) => (T::ONE, T::from_f64(0.1)),
        Madgwick(_) => (T::from_f64(0.1), T::from_f64(0.01)),
    };
    let mut g = f.gains(p, i);
    let a = [T::ZERO, T::ONE, T::ZERO];
    f.set_orientation([T::ONE, T::ZERO, T::ZERO, T::ZERO]);
    g.set_orientation([T::ONE, T::ZERO, T::ZERO, T::ZERO]);
    f.set_bias([T::ZERO; 3]);
    g.set_bias([T::ZERO; 3]);
    T::prove("accepted", b(f.step([T::ZERO; 3], a, None, T::ONE).is_ok() && g.step([T::ZERO; 3], a, None, T::ONE).is_ok()));
    T::prove("documented starting gains", f.is(&g.q(), &g.bias()));
}
fn law_sampled<T: Scal>() {
    // every reading together, tilted references, against the law
    let q: [T; 4] = std::array::from_fn(|_| T::rnd(-3, 3, 8) + T::q(1, 50));
    let n = dot(&q, &q).sqrt();
    let q = q.map(|x| x / n);
    let g = |k: i64| std::array::from_fn::<T, 3, _>(|_| T::rnd(-k, k, 16) + T::q(1, 100));
    let (up, nr) = (g(2), g(2));
    let (w, a, m, bias) = (g(3), g(10), g(1), g(1));
    let (kp, ki, dt) = (T::rnd(0, 3, 8), T::rnd(0, 3, 8), T::rnd(0, 1, 16));
    let u = mul(up, T::ONE / norm(up));
    let lev = add(nr, mul(u, -dot(&u, &nr)));
    let no = mul(lev, T::ONE / norm(lev));
    let mut f = Filter::new(T::rndi(2) == 1, q).gains(kp, ki).references(up, nr);
    f.set_bias(bias);
    let with = T::rndi(3) > 0;
    let m = with.then_some(m);
    T::prove("accepted", b(f.step(w, a, m, dt).is_ok()));
    let mut c = correction(q, a, m, u, no);
    if let Madgwick(_) = f {
        c = mul(c, T::ONE / norm(c));
    }
    let nb: [T; 3] = std::array::from_fn(|i| bias[i] - c[i] * ki * dt);
    let rate: [T; 3] = std::array::from_fn(|i| w[i] - nb[i] + c[i] * kp);
    let t = turned(q, rate, dt);
    for i in 0..3 {
        T::prove_close("offset", f.bias()[i], nb[i], 1e-9);
    }
    for i in 0..4 {
        T::prove_close("attitude", f.q()[i], t[i], 1e-9);
    }
    let q = f.q();
    T::prove_close("unit attitude", dot(&q, &q), T::ONE, 1e-14);
}
fn converges<T: Scal>() {
    // any starting tilt short of upside down, constant rate offset: the facing is found
    let q: [T; 4] = [T::i(3), T::rnd(-2, 2, 8), T::rnd(-2, 2, 8), T::rnd(-2, 2, 8)];
    let n = dot(&q, &q).sqrt();
    let mut f = Filter::new(false, q.map(|x| x / n)).gains(T::TWO, T::q(1, 2));
    let off: [T; 3] = std::array::from_fn(|_| T::rnd(-1, 1, 8) / T::i(10));
    for _ in 0..4000 {
        T::prove("accepted", b(f.step(off, [T::ZERO, T::ZERO, T::i(9)], Some([T::q(1, 2), T::ZERO, T::q(-2, 5)]), T::q(1, 50)).is_ok()));
    }
    let q = f.q();
    for i in 0..3 {
        T::prove_close("facing found", q[i + 1], T::ZERO, 1e-6);
        T::prove_close("offset found", f.bias()[i], off[i], 1e-6);
    }
}

fn main() {
    run::main(
        run::Info { id: "C10", assumptions: &["SO3::exp is taken by its own contract (C06)"] },
        vec![
            proof!(lean, "MahonyFilter::step, step_without_magnetometer; MadgwickFilter::step, step_without_magnetometer; attitude_correction::correction"),
            proof!(heading, "MahonyFilter::step; attitude_correction::correction"),
            proof!(silent, "MahonyFilter::step, MadgwickFilter::step"),
            proof!(settled, "MahonyFilter::step, MadgwickFilter::step"),
            sampled!(towards, 300, "MahonyFilter::step"),
            proof!(references, "with_reference_directions of both filters"),
            proof!(references_refused, "with_reference_directions of both filters"),
            sampled!(references_rounded, 300, "with_reference_directions of both filters"),
            proof!(refuse, "step, step_without_magnetometer of both filters"),
            proof!(refuse_result, "step of both filters"),
            proof!(starting, "new, set_orientation, set_gyroscope_bias, gains of both filters"),
            sampled!(law_sampled, 400, "step of both filters"),
            sampled!(converges, 6, "MahonyFilter::step"),
        ],
    );
}
