use contracts::*;
use multicalc::control::Pid;
use multicalc::error::{ControlError, SignalError};

#[derive(Clone, Copy)]
struct G<T> {
    p: T,
    i: T,
    d: T,
    dt: T,
    a: T,
}
fn gains<T: Scal>() -> G<T> {
    T::merge(true);
    G { p: T::var("kp"), i: T::var("ki"), d: T::var("kd"), dt: T::pos("dt"), a: T::var_in("smoothing", T::ZERO, T::ONE) }
}
fn pid<T: Scal>(g: G<T>) -> Option<Pid<T>> {
    Pid::new(g.p, g.i, g.d, g.dt).ok()?.with_derivative_filter(g.a).ok()
}
/// A controller in an arbitrary state: whatever its integral, last setpoint and measurement, and
/// filtered derivative, one hand-over and one step reach it.
struct Any<T> {
    g: G<T>,
    integral: T,
    measured: T,
    error: T,
    filtered: T,
}
fn any<T: Scal>() -> Option<(Pid<T>, Any<T>)> {
    let g = gains::<T>();
    let mut c = pid(g)?;
    let (out, s0, m0, s1, m1) = (T::var("out"), T::var("s0"), T::var("m0"), T::var("s1"), T::var("m1"));
    if c.resume_from(out, s0, m0).is_err() {
        T::prove("hand-over of finite values accepted", b(false));
        return None;
    }
    let e0 = s0 - m0;
    let seeded = out - g.p * e0 - g.i * e0 * g.dt;
    T::prove("hand-over seeds the integral one step short", eq(c.integral(), seeded));
    let y = c.update(s1, m1);
    let e = s1 - m1;
    let f = (m0 - m1) / g.dt;
    let integral = seeded + g.i * e * g.dt;
    T::prove("first step after a hand-over", eq(y, g.p * e + integral + g.d * f));
    T::prove("integral after the first step", eq(c.integral(), integral));
    Some((c, Any { g, integral, measured: m1, error: e, filtered: f }))
}
fn law<T: Scal>() {
    let Some((mut c, s)) = any::<T>() else { return };
    let (sp, m) = (T::var("s2"), T::var("m2"));
    let e = sp - m;
    let f = s.g.a * (s.measured - m) / s.g.dt + (T::ONE - s.g.a) * s.filtered;
    let i = s.integral + s.g.i * e * s.g.dt;
    let y = c.update(sp, m);
    T::prove("output is the sum of the three actions", eq(y, s.g.p * e + i + s.g.d * f));
    T::prove("integral accumulates", eq(c.integral(), i));
    // one more, so that the remembered measurement and derivative are the new ones
    let (sp3, m3) = (T::var("s3"), T::var("m3"));
    let e3 = sp3 - m3;
    let f3 = s.g.a * (m - m3) / s.g.dt + (T::ONE - s.g.a) * f;
    let y3 = c.update(sp3, m3);
    T::prove("and again", eq(y3, s.g.p * e3 + i + s.g.i * e3 * s.g.dt + s.g.d * f3));
}
fn fresh<T: Scal>() {
    let g = gains::<T>();
    let Some(mut c) = pid(g) else { return T::prove("finite gains accepted", b(false)) };
    let (s0, m0, s1, m1, s2, m2) = (T::var("s0"), T::var("m0"), T::var("s1"), T::var("m1"), T::var("s2"), T::var("m2"));
    T::prove("starts with no integral", eq(c.integral(), T::ZERO));
    let y = c.update(s0, m0);
    let e0 = s0 - m0;
    T::prove("no derivative on the first step", eq(y, g.p * e0 + g.i * e0 * g.dt));
    let y = c.update(s1, m1);
    let e1 = s1 - m1;
    let i1 = g.i * (e0 + e1) * g.dt;
    let f1 = g.a * (m0 - m1) / g.dt;
    T::prove("second step", eq(y, g.p * e1 + i1 + g.d * f1));
    c.reset();
    T::prove("reset clears the integral", eq(c.integral(), T::ZERO));
    let mut d = pid(g).unwrap();
    for (s, m) in [(s2, m2), (s0, m1), (s1, m0)] {
        let (x, y) = (c.update(s, m), d.update(s, m));
        T::prove("after reset it answers as a new controller", eq(x, y));
        T::prove("after reset it integrates as a new controller", eq(c.integral(), d.integral()));
    }
}
/// the derivative filter defaults to pass-through
fn textbook<T: Scal>() {
    let g = G { a: T::ONE, ..gains::<T>() };
    let mut c = Pid::new(g.p, g.i, g.d, g.dt).unwrap();
    let (s0, m0, s1, m1, s2, m2) = (T::var("s0"), T::var("m0"), T::var("s1"), T::var("m1"), T::var("s2"), T::var("m2"));
    let _ = c.update(s0, m0);
    let _ = c.update(s1, m1);
    let y = c.update(s2, m2);
    T::prove("textbook controller", eq(y, g.p * (s2 - m2) + g.i * (s0 - m0 + s1 - m1 + s2 - m2) * g.dt + g.d * (m1 - m2) / g.dt));
}
fn limits<T: Scal>() -> (T, T) {
    match T::choose("limits", 4) {
        0 => {
            let lo = T::var("lo");
            (lo, lo + T::nonneg("span"))
        }
        1 => (T::NEG_INFINITY, T::var("hi")),
        2 => (T::var("lo"), T::INFINITY),
        _ => (T::NEG_INFINITY, T::INFINITY),
    }
}
fn within<T: Scal>(y: T, lo: T, hi: T) -> P<T> {
    let mut v = vec![];
    if lo > T::NEG_INFINITY { v.push(le(lo, y)) }
    if hi < T::INFINITY { v.push(le(y, hi)) }
    and(v)
}
fn limited<T: Scal>() {
    let Some((c, s)) = any::<T>() else { return };
    let (lo, hi) = limits::<T>();
    let Ok(mut c) = c.with_output_limits(lo, hi) else { return T::prove("ordered limits accepted", b(false)) };
    let (sp, m) = (T::var("s2"), T::var("m2"));
    let e = sp - m;
    let f = s.g.a * (s.measured - m) / s.g.dt + (T::ONE - s.g.a) * s.filtered;
    let di = s.g.i * e * s.g.dt;
    let u = s.g.p * e + s.integral + di + s.g.d * f;
    let y = c.update(sp, m);
    let (over, under) = (hi < T::INFINITY && u > hi, lo > T::NEG_INFINITY && u < lo);
    T::prove("within the limits", within(y, lo, hi));
    T::prove("clamped", eq(y, if over { hi } else if under { lo } else { u }));
    let held = (over && di > T::ZERO) || (under && di < T::ZERO);
    T::prove("integral held exactly when it would push further into the limit", eq(c.integral(), if held { s.integral } else { s.integral + di }));
    // and what is remembered does not depend on the saturation
    let (sp3, m3) = (T::var("s3"), T::var("m3"));
    let e3 = sp3 - m3;
    let f3 = s.g.a * (m - m3) / s.g.dt + (T::ONE - s.g.a) * f;
    let i2 = c.integral();
    let mut free = c.with_output_limits(T::NEG_INFINITY, T::INFINITY).unwrap();
    let y3 = free.update(sp3, m3);
    T::prove("history continues through saturation", eq(y3, s.g.p * e3 + i2 + s.g.i * e3 * s.g.dt + s.g.d * f3));
}
/// the integral never leaves a saturated limit further behind, over any two further steps
fn windup<T: Scal>() {
    let Some((c, s)) = any::<T>() else { return };
    let hi = T::var("hi");
    let Ok(mut c) = c.with_output_limits(T::NEG_INFINITY, hi) else { return };
    let mut low = c.with_output_limits(hi, T::INFINITY).unwrap();
    let before = c.integral();
    let (sp, m) = (T::var("s2"), T::var("m2"));
    let y = c.update(sp, m);
    let e = sp - m;
    let f = s.g.a * (s.measured - m) / s.g.dt + (T::ONE - s.g.a) * s.filtered;
    let u = s.g.p * e + s.integral + s.g.i * e * s.g.dt + s.g.d * f;
    T::prove("never winds up past the upper limit", imp(gt(u, hi), and(vec![eq(y, hi), le(c.integral(), before)])));
    let y = low.update(sp, m);
    T::prove("never winds down past the lower limit", imp(lt(u, hi), and(vec![eq(y, hi), ge(low.integral(), before)])));
}
fn regain<T: Scal>() {
    let Some((c, s)) = any::<T>() else { return };
    let (p2, i2, d2) = (T::var("kp2"), T::var("ki2"), T::var("kd2"));
    let (mut old, mut new) = (c, c);
    T::prove("finite gains accepted", b(new.set_gains(p2, i2, d2).is_ok()));
    T::prove("the integral takes up the change of the other two terms", eq(new.integral(), s.integral + (s.g.p - p2) * s.error + (s.g.d - d2) * s.filtered));
    // the next sample keeps the error and the filtered derivative: the command does not step
    let m = s.measured - s.filtered * s.g.dt;
    let sp = m + s.error;
    let (y0, y1) = (old.update(sp, m), new.update(sp, m));
    T::prove("the command does not step", eq(y1 - y0, (i2 - s.g.i) * s.error * s.g.dt));
    // and from there the new gains hold
    let (sp3, m3) = (T::var("s3"), T::var("m3"));
    let f3 = s.g.a * (m - m3) / s.g.dt + (T::ONE - s.g.a) * s.filtered;
    let i1 = new.integral();
    let y = new.update(sp3, m3);
    T::prove("the new gains take effect", eq(y, p2 * (sp3 - m3) + i1 + i2 * (sp3 - m3) * s.g.dt + d2 * f3));
}
/// straight after a hand-over the remembered error is the one handed over
fn regain_resumed<T: Scal>() {
    let Some((mut c, s)) = any::<T>() else { return };
    let (out, sp, m) = (T::var("command"), T::var("s2"), T::var("m2"));
    let _ = c.resume_from(out, sp, m);
    let (p2, i2, d2) = (T::var("kp2"), T::var("ki2"), T::var("kd2"));
    let before = c.integral();
    T::prove("finite gains accepted", b(c.set_gains(p2, i2, d2).is_ok()));
    T::prove("the integral takes up the proportional change", eq(c.integral(), before + (s.g.p - p2) * (sp - m)));
    let y = c.update(sp, m);
    T::prove("the command does not step", eq(y, out + (i2 - s.g.i) * (sp - m) * s.g.dt));
}
fn regain_fresh<T: Scal>() {
    let g = gains::<T>();
    let g2 = G { p: T::var("kp2"), i: T::var("ki2"), d: T::var("kd2"), ..g };
    let (mut c, mut d) = (pid(g).unwrap(), pid(g2).unwrap());
    if T::choose("history", 2) == 1 {
        let _ = c.update(T::var("s0"), T::var("m0"));
        c.reset();
    }
    T::prove("finite gains accepted", b(c.set_gains(g2.p, g2.i, g2.d).is_ok()));
    T::prove("nothing to hold on to", eq(c.integral(), T::ZERO));
    for k in 0..2 {
        let (s, m) = (T::var(&format!("s{k}")), T::var(&format!("m{k}")));
        let (x, y) = (c.update(s, m), d.update(s, m));
        T::prove("as if built with them", eq(x, y));
    }
}
fn resume<T: Scal>() {
    let Some((c, s)) = any::<T>() else { return };
    let (lo, hi) = limits::<T>();
    let mut c = c.with_output_limits(lo, hi).unwrap();
    let (out, sp, m) = (T::var("command"), T::var("s2"), T::var("m2"));
    if lo > T::NEG_INFINITY { T::assume(le(lo, out)) }
    if hi < T::INFINITY { T::assume(le(out, hi)) }
    T::prove("hand-over accepted", b(c.resume_from(out, sp, m).is_ok()));
    let y = c.update(sp, m);
    T::prove("the next call returns exactly the command handed over", eq(y, out));
    let i = c.integral();
    T::prove("and its integral", eq(i, out - s.g.p * (sp - m)));
    // the derivative filter was reset by the hand-over and is seeded by the zero difference
    let mut free = c.with_output_limits(T::NEG_INFINITY, T::INFINITY).unwrap();
    let (sp3, m3) = (T::var("s3"), T::var("m3"));
    let e = sp3 - m3;
    let y = free.update(sp3, m3);
    T::prove("carries on from there", eq(y, s.g.p * e + i + s.g.i * e * s.g.dt + s.g.d * s.g.a * (m - m3) / s.g.dt));
}
fn refused<T: Scal>() {
    let g = gains::<T>();
    let k = T::choose("which", 4);
    let bad = T::special("bad");
    let mut v = [g.p, g.i, g.d, g.dt];
    v[k] = bad;
    T::prove("non-finite construction refused", b(Pid::new(v[0], v[1], v[2], v[3]).err() == Some(ControlError::NonFinite)));
    T::prove("timestep must be positive", b(Pid::new(g.p, g.i, g.d, -T::nonneg("x")).err() == Some(ControlError::NonPositiveTimestep)));
    let Some((c, _)) = any::<T>() else { return };
    T::prove("smoothing above one", b(c.with_derivative_filter(T::ONE + T::pos("x")).err() == Some(ControlError::Signal(SignalError::CoefficientOutOfRange))));
    T::prove("smoothing below zero", b(c.with_derivative_filter(-T::pos("x")).err() == Some(ControlError::Signal(SignalError::CoefficientOutOfRange))));
    T::prove("smoothing not finite", b(c.with_derivative_filter(bad).err() == Some(ControlError::Signal(SignalError::NonFinite))));
    let lo = T::var("lo");
    T::prove("limits out of order", b(c.with_output_limits(lo, lo - T::pos("x")).err() == Some(ControlError::InvalidOutputLimits)));
    T::prove("infinite limits out of order", b(c.with_output_limits(T::INFINITY, lo).err() == Some(ControlError::InvalidOutputLimits)));
    T::prove("NaN limits", b(c.with_output_limits(T::NAN, lo).err() == Some(ControlError::NonFinite) && c.with_output_limits(lo, T::NAN).err() == Some(ControlError::NonFinite)));
    T::prove("equal limits accepted", b(c.with_output_limits(lo, lo).is_ok()));
    // refusals on a live controller leave it answering as before
    let (mut a, mut d) = (c, c);
    if k < 3 {
        let mut w = [T::var("x0"), T::var("x1"), T::var("x2")];
        w[k] = bad;
        T::prove("non-finite gains refused", b(a.set_gains(w[0], w[1], w[2]) == Err(ControlError::NonFinite)));
        T::prove("non-finite hand-over refused", b(a.resume_from(w[0], w[1], w[2]) == Err(ControlError::NonFinite)));
    }
    T::prove("integral unchanged", eq(a.integral(), d.integral()));
    let (s, m) = (T::var("s2"), T::var("m2"));
    let (x, y) = (a.update(s, m), d.update(s, m));
    T::prove("state unchanged", eq(x, y));
    T::prove("integral law unchanged", eq(a.integral(), d.integral()));
}
/// long runs at machine precision, against the same law in plain arithmetic
fn long<T: Scal>() {
    let r = |lo, hi| T::rnd(lo, hi, 16);
    let sign = if T::rndi(2) == 0 { T::ONE } else { -T::ONE };
    let (p, i, d, dt, a) = (sign * r(0, 4), sign * r(0, 4), sign * r(0, 1), T::q(1, 64) + r(0, 1), r(0, 1));
    let (lo, hi) = (-r(0, 3), r(0, 3));
    let mut c = Pid::new(p, i, d, dt).unwrap().with_derivative_filter(a).unwrap().with_output_limits(lo, hi).unwrap();
    let (mut integral, mut f, mut last) = (T::ZERO, None, None);
    for _ in 0..40 {
        let (s, m) = (r(-3, 3), r(-3, 3));
        let e = s - m;
        let raw = last.map(|l: T| (l - m) / dt).unwrap_or(T::ZERO);
        let g = match f { None => raw, Some(y) => a * raw + (T::ONE - a) * y };
        f = Some(g);
        last = Some(m);
        let step = i * e * dt;
        let u = p * e + integral + step + d * g;
        if !((T::holds(gt(u, hi)) && T::holds(gt(step, T::ZERO))) || (T::holds(lt(u, lo)) && T::holds(lt(step, T::ZERO)))) {
            integral = integral + step;
        }
        let y = c.update(s, m);
        T::prove_close("output", y, u.max(lo).min(hi), 1e-9);
        T::prove_close("integral", c.integral(), integral, 1e-9);
        T::prove("in the limits", and(vec![le(lo, y), le(y, hi)]));
    }
}

fn main() {
    run::main(
        run::Info { id: "C12", assumptions: &["a controller state is reached by a hand-over and one step, which covers every integral, last error, last measurement and filtered derivative"] },
        vec![
            proof!(law, "Pid::update, resume_from, integral; OnePoleLowPass::filter"),
            proof!(fresh, "Pid::new, update, reset"),
            proof!(textbook, "Pid::new, update"),
            proof!(limited, "Pid::with_output_limits, update"),
            proof!(windup, "Pid::with_output_limits, update"),
            proof!(regain, "Pid::set_gains, update"),
            proof!(regain_resumed, "Pid::resume_from, set_gains, update"),
            proof!(regain_fresh, "Pid::set_gains, reset"),
            proof!(resume, "Pid::resume_from, update"),
            proof!(refused, "Pid::new, with_derivative_filter, with_output_limits, set_gains, resume_from"),
            sampled!(long, 300, "Pid::update"),
        ],
    );
}
