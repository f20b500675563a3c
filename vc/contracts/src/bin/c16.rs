use contracts::*;
use multicalc::error::MotionError;
use multicalc::motion::*;

struct Case<T: Scal> {
    v: T,
    a: T,
    j: Option<T>,
    d: T,
    durs: [T; 7],
    p: MotionProfile<T>,
}
/// Every move of non-zero length against any limits falls in one of these shapes; each is written by its
/// phase times, so the roots the planner takes come out in closed form.
/// trapezoid: cruise reached / not; S-curve: acceleration limit reached / not, speed limit reached / not.
fn case<T: Scal>(shape: usize) -> Case<T> {
    let sign = if T::choose("direction", 2) == 0 { T::ONE } else { -T::ONE };
    let z = T::ZERO;
    let (v, a, j, d, durs);
    match shape {
        0 => {
            // triangle
            let (peak, acc) = (T::pos("peak"), T::pos("acceleration"));
            v = peak + T::nonneg("spare_speed");
            a = acc;
            j = None;
            d = peak * peak / acc;
            durs = [z, peak / acc, z, z, z, peak / acc, z];
        }
        1 => {
            let (peak, acc, tc) = (T::pos("peak"), T::pos("acceleration"), T::pos("cruise"));
            v = peak;
            a = acc;
            j = None;
            d = peak * peak / acc + peak * tc;
            durs = [z, peak / acc, z, tc, z, peak / acc, z];
        }
        2 => {
            // jerk only
            let (tj, jl) = (T::pos("jerk_time"), T::pos("jerk"));
            v = jl * tj * tj + T::nonneg("spare_speed");
            a = jl * tj + T::pos("spare_acceleration");
            j = Some(jl);
            d = T::i(2) * jl * tj * tj * tj;
            durs = [tj, z, tj, z, tj, z, tj];
        }
        3 => {
            // the speed limit met before the acceleration limit; `over` more jerk time would do without
            let (tj, jl, over) = (T::pos("jerk_time"), T::pos("jerk"), T::pos("over"));
            v = jl * tj * tj;
            let r = tj + over;
            a = jl * r + T::pos("spare_acceleration");
            j = Some(jl);
            d = T::TWO * jl * r * r * r;
            let tc = T::TWO * over * (T::i(3) * tj * tj + T::i(3) * tj * over + over * over) / (tj * tj);
            durs = [tj, z, tj, tc, tj, z, tj];
        }
        6 => {
            // the same, on a move so long that without the speed limit the acceleration limit would be held
            let (tj, jl, over, th) = (T::pos("jerk_time"), T::pos("jerk"), T::pos("over"), T::nonneg("hold"));
            v = jl * tj * tj;
            let ta = tj + over;
            a = jl * ta;
            j = Some(jl);
            d = a * (ta + th) * (T::TWO * ta + th);
            let tc = ta * (ta + th) * (T::TWO * ta + th) / (tj * tj) - T::TWO * tj;
            durs = [tj, z, tj, tc, tj, z, tj];
        }
        4 => {
            // acceleration limit held
            let (tj, jl, th) = (T::pos("jerk_time"), T::pos("jerk"), T::nonneg("hold"));
            a = jl * tj;
            let peak = a * (tj + th);
            v = peak + T::nonneg("spare_speed");
            j = Some(jl);
            d = peak * (tj + tj + th);
            durs = [tj, th, tj, z, tj, th, tj];
        }
        _ => {
            let (tj, jl, th, over) = (T::pos("jerk_time"), T::pos("jerk"), T::nonneg("hold"), T::pos("over"));
            a = jl * tj;
            v = a * (tj + th);
            j = Some(jl);
            d = a * (tj + th + over) * (tj + tj + th + over);
            let tc = over * (T::i(3) * tj + T::TWO * th + over) / (tj + th);
            durs = [tj, th, tj, tc, tj, th, tj];
        }
    }
    let d = d * sign;
    let Ok(l) = ProfileLimits::try_new(v, a, j) else {
        T::prove("positive limits accepted", b(false));
        T::abandon()
    };
    let planner = MotionProfilePlanner::new(l);
    let strategies = [ProfileStrategy::Automatic, if j.is_some() { ProfileStrategy::JerkLimited } else { ProfileStrategy::Trapezoidal }];
    let planner = match T::choose("strategy", 2) {
        0 => planner,
        k => planner.with_strategy(strategies[k]),
    };
    let Ok(p) = planner.plan(d) else {
        T::prove("a finite displacement is planned", b(false));
        T::abandon()
    };
    Case { v, a, j, d, durs, p }
}
/// time-optimal shape: phases that are full at a limit or absent
fn shape<T: Scal>() {
    let c = case::<T>(T::choose("shape", 7));
    let p = &c.p;
    T::prove("phase times", eqs(&p.phase_durations(), &c.durs));
    T::prove("duration", eq(p.duration(), sum(&c.durs)));
    T::prove("distance", eq(p.distance(), c.d));
    T::prove("peak speed within the limit and of the direction of travel", and(vec![le(p.peak_speed().abs(), c.v), ge(p.peak_speed() * c.d, T::ZERO)]));
}
fn ends<T: Scal>() {
    let c = case::<T>(T::choose("shape", 7));
    let (e, f) = (T::nonneg("before"), T::nonneg("after"));
    let Ok(s) = c.p.state_at(-e) else { return T::prove("state", b(false)) };
    T::prove("starts at the origin at rest", and(vec![eq(s.position, T::ZERO), eq(s.velocity, T::ZERO)]));
    let Ok(s) = c.p.state_at(c.p.duration() + f) else { return T::prove("state", b(false)) };
    T::prove("ends on target at rest, and stays", and(vec![eq(s.position, c.d), eq(s.velocity, T::ZERO), eq(s.acceleration, T::ZERO), eq(s.jerk, T::ZERO)]));
}
fn start_of<T: Scal>(durs: &[T; 7], k: usize) -> T {
    durs[..k].iter().fold(T::ZERO, |a, x| a + *x)
}
/// within each phase, boundaries included, constant jerk carries one state into the other
fn motion<T: Scal>(shape: usize) {
    let c = case::<T>(shape);
    let k = T::choose("phase", 7);
    if T::holds(le(c.durs[k], T::ZERO)) {
        T::abandon()
    }
    let (u, w) = (T::var_in("u", T::ZERO, T::ONE), T::var_in("w", T::ZERO, T::ONE));
    T::assume(and(vec![lt(u, T::ONE), le(u, w)]));
    let t0 = start_of(&c.durs, k);
    let Ok(s) = c.p.state_at(t0 + u * c.durs[k]) else { return T::prove("state", b(false)) };
    let Ok(e) = c.p.state_at(t0 + w * c.durs[k]) else { return T::prove("state", b(false)) };
    let h = (w - u) * c.durs[k];
    T::prove("position is the integral of velocity", eq(e.position, s.position + s.velocity * h + s.acceleration * h * h / T::i(2) + s.jerk * h * h * h / T::i(6)));
    T::prove("velocity is the integral of acceleration", eq(e.velocity, s.velocity + s.acceleration * h + s.jerk * h * h / T::i(2)));
    if c.j.is_some() {
        T::prove("acceleration is the integral of jerk", eq(e.acceleration, s.acceleration + s.jerk * h));
    } else {
        T::prove("no jerk", eq(s.jerk, T::ZERO));
    }
}
fn limits<T: Scal>(shape: usize) {
    let c = case::<T>(shape);
    let k = T::choose("phase", 7);
    if T::holds(le(c.durs[k], T::ZERO)) {
        T::abandon()
    }
    let u = T::var_in("u", T::ZERO, T::ONE);
    T::assume(lt(u, T::ONE));
    let Ok(s) = c.p.state_at(start_of(&c.durs, k) + u * c.durs[k]) else { return T::prove("state", b(false)) };
    T::prove("speed limit", le(s.velocity.abs(), c.v));
    T::prove("never runs backward", ge(s.velocity * c.d, T::ZERO));
    T::prove("acceleration limit", le(s.acceleration.abs(), c.a));
    T::prove("jerk limit", le(s.jerk.abs(), c.j.unwrap_or(T::ZERO)));
    T::prove("between the ends", and(vec![le(s.position.abs(), c.d.abs()), ge(s.position * c.d, T::ZERO)]));
}
fn motion_trapezoid<T: Scal>() {
    motion::<T>(T::choose("shape", 2))
}
fn motion_scurve<T: Scal>() {
    motion::<T>(2 + T::choose("shape", 5))
}
fn limits_trapezoid<T: Scal>() {
    limits::<T>(T::choose("shape", 2))
}
fn limits_scurve<T: Scal>() {
    limits::<T>(2 + T::choose("shape", 5))
}
fn stretch<T: Scal>() {
    let c = case::<T>(T::choose("shape", 7));
    let s = T::ONE + T::pos("stretch");
    let dur = c.p.duration();
    let q = c.p.stretched_to(s * dur);
    T::prove("new duration", eq(q.duration(), s * dur));
    T::prove("same distance", eq(q.distance(), c.d));
    T::prove("phase times scale", eqs(&q.phase_durations(), &c.durs.map(|x| x * s)));
    let k = T::choose("phase", 7);
    if T::holds(le(c.durs[k], T::ZERO)) {
        T::abandon()
    }
    let u = T::var_in("u", T::ZERO, T::ONE);
    T::assume(lt(u, T::ONE));
    let t = start_of(&c.durs, k) + u * c.durs[k];
    let (Ok(x), Ok(y)) = (c.p.state_at(t), q.state_at(s * t)) else { return T::prove("state", b(false)) };
    T::prove("same path", eq(y.position, x.position));
    T::prove("derivatives scale down", and(vec![eq(y.velocity * s, x.velocity), eq(y.acceleration * s * s, x.acceleration), eq(y.jerk * s * s * s, x.jerk)]));
    let Ok(y) = q.state_at(s * dur + T::nonneg("after")) else { return T::prove("state", b(false)) };
    T::prove("ends on target at rest", and(vec![eq(y.position, c.d), eq(y.velocity, T::ZERO), eq(y.acceleration, T::ZERO)]));
}
fn same_profile<T: Scal>(p: &MotionProfile<T>, q: &MotionProfile<T>, t: T) -> P<T> {
    let (Ok(x), Ok(y)) = (p.state_at(t), q.state_at(t)) else { return b(false) };
    and(vec![
        eqs(&p.phase_durations(), &q.phase_durations()),
        eq(p.duration(), q.duration()),
        eq(p.distance(), q.distance()),
        eqs(&[x.position, x.velocity, x.acceleration, x.jerk], &[y.position, y.velocity, y.acceleration, y.jerk]),
    ])
}
fn stretch_refused<T: Scal>() {
    let c = case::<T>(1);
    let short = match T::choose("bad", 4) {
        0 => c.p.duration(),
        1 => c.p.duration() - T::pos("less"),
        2 => T::special("bad"),
        _ => -T::nonneg("negative"),
    };
    let q = c.p.stretched_to(short);
    T::prove("unchanged", same_profile(&c.p, &q, T::nonneg("t")));
}
/// a move and its mirror image
fn mirrored<T: Scal>() {
    let l = ProfileLimits::try_new(T::pos("v"), T::pos("a"), None).unwrap();
    let d = T::pos("d");
    let pl = MotionProfilePlanner::new(l);
    let (Ok(p), Ok(q)) = (pl.plan(d), pl.plan(-d)) else { return T::prove("planned", b(false)) };
    T::prove("same times", eqs(&p.phase_durations(), &q.phase_durations()));
    T::prove("opposite distance", eq(p.distance(), -q.distance()));
    let t = T::nonneg("t");
    let (Ok(x), Ok(y)) = (p.state_at(t), q.state_at(t)) else { return T::prove("state", b(false)) };
    T::prove("mirrored", eqs(&[x.position, x.velocity, x.acceleration, x.jerk], &[-y.position, -y.velocity, -y.acceleration, -y.jerk]));
}
/// directly on the limits and displacement, the planner choosing the shape
fn trapezoid_any<T: Scal>() {
    let (v, a, d) = (T::pos("v"), T::pos("a"), T::pos("d"));
    let l = ProfileLimits::try_new(v, a, if T::choose("jerk ignored", 2) == 0 { None } else { Some(T::pos("j")) }).unwrap();
    let pl = MotionProfilePlanner::new(l).with_strategy(ProfileStrategy::Trapezoidal);
    T::prove("accessors", and(vec![eqs(&[pl.limits().speed(), pl.limits().acceleration()], &[v, a]), b(pl.strategy() == ProfileStrategy::Trapezoidal)]));
    let Ok(p) = pl.plan(d) else { return T::prove("planned", b(false)) };
    T::prove("reaches the displacement", eq(p.distance(), d));
    let s = p.peak_speed();
    let t = p.phase_durations();
    T::prove("phase times", eqs(&t, &[T::ZERO, s / a, T::ZERO, t[3], T::ZERO, s / a, T::ZERO]));
    T::prove("cruise only at the speed limit", and(vec![gt(s, T::ZERO), le(s, v), ge(t[3], T::ZERO), or(vec![eq(s, v), eq(t[3], T::ZERO)])]));
    T::prove("duration", eq(p.duration(), sum(&t)));
}
fn still<T: Scal>() {
    let (v, a, j) = (T::pos("v"), T::pos("a"), T::pos("j"));
    let l = ProfileLimits::try_new(v, a, if T::choose("shape", 2) == 0 { None } else { Some(j) }).unwrap();
    let Ok(p) = MotionProfilePlanner::new(l).plan(T::ZERO) else { return T::prove("planned", b(false)) };
    T::prove("no time", and(vec![eq(p.duration(), T::ZERO), eqs(&p.phase_durations(), &[T::ZERO; 7]), eq(p.distance(), T::ZERO), eq(p.peak_speed(), T::ZERO)]));
    let Ok(s) = p.state_at(T::var("t")) else { return T::prove("state", b(false)) };
    T::prove("at rest", eqs(&[s.position, s.velocity, s.acceleration, s.jerk], &[T::ZERO; 4]));
    T::prove("cannot be stretched", same_profile(&p, &p.stretched_to(T::pos("long")), T::var("u")));
}
fn refused<T: Scal>() {
    let (bad, o, e) = (T::special("bad"), T::pos("ok"), T::nonneg("e"));
    let f = |v, a, j| ProfileLimits::try_new(v, a, j).err() == Some(MotionError::LimitNotPositive);
    T::prove("non-finite limits", b(f(bad, o, None) && f(o, bad, None) && f(o, o, Some(bad))));
    T::prove("limits not above zero", b(f(-e, o, None) && f(o, -e, None) && f(o, o, Some(-e))));
    let (plain, jerky) = (ProfileLimits::try_new(o, o, None).unwrap(), ProfileLimits::try_new(o, o, Some(o)).unwrap());
    T::prove("read back", and(vec![eqs(&[jerky.speed(), jerky.acceleration(), jerky.jerk().unwrap_or(T::ZERO)], &[o, o, o]), b(plain.jerk().is_none())]));
    T::prove("non-finite displacement", b(MotionProfilePlanner::new(plain).plan(bad).err() == Some(MotionError::NonFinite) && MotionProfilePlanner::new(jerky).plan(bad).err() == Some(MotionError::NonFinite)));
    let d = T::var("d");
    T::prove("an S-curve needs a jerk limit", b(MotionProfilePlanner::new(plain).with_strategy(ProfileStrategy::JerkLimited).plan(d).err() == Some(MotionError::JerkLimitRequired)));
    let p = MotionProfilePlanner::new(plain).plan(o).unwrap();
    T::prove("non-finite time", b(p.state_at(bad).err() == Some(MotionError::NonFinite)));
    let s = SynchronizedProfile::<2, T>::from_profiles([p, p]);
    T::prove("non-finite time, several axes", b(s.state_at(bad).err() == Some(MotionError::NonFinite)));
    T::prove("a common duration above zero", b(SynchronizedProfile::try_from_profiles_over([p], bad).err() == Some(MotionError::DurationNotPositive) && SynchronizedProfile::try_from_profiles_over([p], -e).err() == Some(MotionError::DurationNotPositive)));
}
fn axis_profile<T: Scal>(kind: usize, k: usize) -> (MotionProfile<T>, T, T, T) {
    let (t1, a) = (T::pos(&format!("ramp{k}")), T::pos(&format!("a{k}")));
    let v = a * t1;
    match kind {
        0 => {
            let tc = T::pos(&format!("cruise{k}"));
            let d = -(v * t1 + v * tc);
            (MotionProfilePlanner::new(ProfileLimits::try_new(v, a, None).unwrap()).plan(d).unwrap(), d, v, a)
        }
        1 => {
            let (d, v1) = (v * t1, v + T::pos(&format!("spare{k}")));
            (MotionProfilePlanner::new(ProfileLimits::try_new(v1, a, None).unwrap()).plan(d).unwrap(), d, v1, a)
        }
        _ => (MotionProfilePlanner::new(ProfileLimits::try_new(v, a, None).unwrap()).plan(T::ZERO).unwrap(), T::ZERO, v, a),
    }
}
fn synchronized<T: Scal>() {
    let axes = [axis_profile::<T>(T::choose("axis 0", 3), 0), axis_profile::<T>(T::choose("axis 1", 3), 1)];
    let longest = axes[0].0.duration().max(axes[1].0.duration());
    let arr = [axes[0].0, axes[1].0];
    let (s, want) = match T::choose("pace", 2) {
        0 => (SynchronizedProfile::from_profiles(arr), longest),
        _ => {
            let r = T::pos("requested");
            let Ok(s) = SynchronizedProfile::try_from_profiles_over(arr, r) else { return T::prove("accepted", b(false)) };
            (s, r.max(longest))
        }
    };
    T::prove("common duration", eq(s.duration(), want));
    T::prove("no further axis", b(s.axis(2).is_none()));
    for (k, (p, d, v, a)) in axes.iter().enumerate() {
        let Some(q) = s.axis(k) else { return T::prove("axis", b(false)) };
        let moves = gt(p.duration(), T::ZERO);
        T::prove("every moving axis finishes together", imp(moves, eq(q.duration(), want)));
        T::prove("its own displacement", eq(q.distance(), *d));
        T::prove("its own limits", and(vec![le(q.peak_speed().abs(), *v), le(q.peak_speed().abs(), *a * q.phase_durations()[1])]));
        let scale = want / p.duration();
        T::prove("time-scaled", or(vec![eq(p.duration(), T::ZERO), eqs(&q.phase_durations(), &p.phase_durations().map(|x| x * scale))]));
    }
    let t = T::nonneg("t");
    let Ok(x) = s.state_at(t * want) else { return T::prove("state", b(false)) };
    for k in 0..2 {
        let Ok(y) = s.axis(k).unwrap().state_at(t * want) else { return T::prove("state", b(false)) };
        T::prove("state of each axis", eqs(&[x.position[k], x.velocity[k], x.acceleration[k], x.jerk[k]], &[y.position, y.velocity, y.acceleration, y.jerk]));
        T::prove("on target at the end", imp(ge(t, T::ONE), and(vec![eq(x.position[k], axes[k].1), eq(x.velocity[k], T::ZERO)])));
    }
}
/// bounded: arbitrary limits and displacements in floating point, on a dense time sweep
fn sweep<T: Scal>() {
    let (v, a, j) = (T::rnd(1, 300, 50), T::rnd(1, 300, 50), T::rnd(1, 300, 20));
    let d = T::rnd(-400, 400, 17);
    let jerky = T::rndi(3) != 0;
    let l = ProfileLimits::try_new(v, a, if jerky { Some(j) } else { None }).unwrap();
    let p = MotionProfilePlanner::new(l).plan(d).unwrap();
    let f = T::ONE + T::rnd(0, 100, 30);
    let p = p.stretched_to(p.duration() * f);
    let eps = T::q(1, 1_000_000_000) * (T::ONE + d.abs());
    T::prove_close("distance", p.distance(), d, 1e-9);
    let n = 60;
    let h = p.duration() / T::i(n);
    let mut last = p.state_at(T::ZERO).unwrap();
    for i in 1..=n {
        let s = p.state_at(h * T::i(i)).unwrap();
        T::prove("limits", and(vec![le(s.velocity.abs(), v + eps), le(s.acceleration.abs(), a + eps), le(s.jerk.abs(), j + eps)]));
        T::prove("continuous", and(vec![le((s.position - last.position).abs(), v * h + eps), le((s.velocity - last.velocity).abs(), a * h + eps)]));
        if jerky {
            T::prove("smooth", le((s.acceleration - last.acceleration).abs(), j * h + eps));
        }
        last = s;
    }
    T::prove("at the end", and(vec![le((last.position - d).abs(), eps), le(last.velocity.abs(), eps)]));
}
fn main() {
    run::main(
        run::Info { id: "C16", assumptions: &[
            "S-curve inputs are written by their phase times (every positive displacement and limits falls in exactly one of the four shapes; that case split is by hand)",
            "synchronised contracts cover two axes with trapezoidal profiles; the S-curve scaling is covered by the stretching contract",
        ] },
        vec![
            proof!(shape, "MotionProfilePlanner::plan, MotionProfile accessors"),
            proof!(ends, "MotionProfile::state_at"),
            proof!(motion_trapezoid, "MotionProfile::state_at"),
            proof!(motion_scurve, "MotionProfile::state_at"),
            proof!(limits_trapezoid, "MotionProfile::state_at"),
            proof!(limits_scurve, "MotionProfile::state_at"),
            proof!(stretch, "MotionProfile::stretched_to, state_at"),
            proof!(stretch_refused, "MotionProfile::stretched_to"),
            proof!(mirrored, "MotionProfilePlanner::plan"),
            proof!(trapezoid_any, "MotionProfilePlanner::plan"),
            proof!(still, "MotionProfilePlanner::plan"),
            proof!(refused, "ProfileLimits::try_new, plan, state_at, try_from_profiles_over"),
            proof!(synchronized, "SynchronizedProfile::{from_profiles, try_from_profiles_over, state_at}"),
            sampled!(sweep, 200, "MotionProfilePlanner::plan, state_at, stretched_to"),
        ],
    );
}
