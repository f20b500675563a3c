use contracts::*;
use multicalc::error::SignalError;
use multicalc::signal_processing::*;

type C<T> = BiquadCoefficients<T>;
fn coefs<T: Scal>(n: &str) -> Option<(C<T>, [T; 3], [T; 2])> {
    let (f, a) = (T::vars::<3>(&format!("{n}b")), T::vars::<2>(&format!("{n}a")));
    match C::new(f, a, T::pos("dt")) {
        Ok(c) => Some((c, f, a)),
        Err(_) => {
            T::prove("finite weights accepted", b(false));
            None
        }
    }
}
/// y = b·x - a·y over the recorded past, newest first
fn diff<T: Scal>(f: &[T; 3], a: &[T; 2], x: &[T], y: &[T]) -> T {
    let at = |v: &[T], k: usize| if k < v.len() { v[v.len() - 1 - k] } else { T::ZERO };
    f[0] * at(x, 0) + f[1] * at(x, 1) + f[2] * at(x, 2) - a[0] * at(y, 0) - a[1] * at(y, 1)
}
fn from_rest<T: Scal>() {
    let Some((c, f, a)) = coefs::<T>("c") else { return };
    let mut q = Biquad::new(c);
    T::prove("weights read back", and(vec![eqs(&q.coefficients().feed_forward(), &f), eqs(&q.coefficients().feedback(), &a), eq(c.timestep(), q.coefficients().timestep())]));
    T::prove("starts at rest", eq(q.value(), T::ZERO));
    if T::choose("history", 2) == 1 {
        let _ = q.filter(T::var("old"));
        q.settle_to(T::var("settled"));
        let _ = q.filter(T::var("old"));
        q.reset();
        T::prove("reset clears the output", eq(q.value(), T::ZERO));
    }
    let (mut xs, mut ys) = (vec![], vec![]);
    for k in 0..5 {
        let x = T::var(&format!("x{k}"));
        xs.push(x);
        let y = q.filter(x);
        T::prove("difference equation", eq(y, diff(&f, &a, &xs, &ys)));
        T::prove("value is the latest output", eq(q.value(), y));
        ys.push(y);
    }
}
/// From any memory (reached by one sample through weights of our choosing): the weights in force act
/// on the stream, and swapping them keeps the memory.
fn any_state<T: Scal>() {
    let (p, q) = (T::var("p"), T::var("q"));
    let set = C::new([T::ZERO, p, q], [T::ZERO; 2], T::ONE).unwrap();
    let Some((c, f, a)) = coefs::<T>("c") else { return };
    let mut bq = Biquad::new(set);
    let _ = bq.filter(T::ONE);
    bq.set_coefficients(c);
    T::prove("swapping keeps the output", eq(bq.value(), T::ZERO));
    let (x0, x1, x2) = (T::var("x0"), T::var("x1"), T::var("x2"));
    let y0 = bq.filter(x0);
    T::prove("memory carried over", eq(y0, f[0] * x0 + p));
    let y1 = bq.filter(x1);
    T::prove("one step on", eq(y1, f[0] * x1 + f[1] * x0 - a[0] * y0 + q));
    let y2 = bq.filter(x2);
    T::prove("two steps on", eq(y2, diff(&f, &a, &[x0, x1, x2], &[y0, y1])));
}
fn settle<T: Scal>() {
    let Some((c, f, a)) = coefs::<T>("c") else { return };
    let gain = T::ONE + a[0] + a[1];
    T::assume(ne(gain, T::ZERO));
    let mut q = Biquad::new(c);
    let _ = q.filter(T::var("old"));
    let v = T::var("v");
    q.settle_to(v);
    let s = q.value();
    T::prove("steady output has the steady gain", eq(s * gain, v * (f[0] + f[1] + f[2])));
    for _ in 0..3 {
        let y = q.filter(v);
        T::prove("already settled", eq(y, s));
    }
    let x = T::var("x");
    let y = q.filter(x);
    T::prove("carries on", eq(y, diff(&f, &a, &[v, v, x], &[s, s])));
}
/// numerator and denominator on the unit circle, by the angle addition formulas
fn on_circle<T: Scal>(f: &[T; 3], a: &[T; 2], c: T, s: T) -> ([T; 2], [T; 2]) {
    let (c2, s2) = (c * c - s * s, T::TWO * s * c);
    ([f[0] + f[1] * c + f[2] * c2, -f[1] * s - f[2] * s2], [T::ONE + a[0] * c + a[1] * c2, -a[0] * s - a[1] * s2])
}
fn response<T: Scal>() {
    let Some((c, f, a)) = coefs::<T>("c") else { return };
    let hz = T::var("hz");
    let w = T::TWO * T::PI * hz * c.timestep();
    let (n, d) = on_circle(&f, &a, w.cos(), w.sin());
    let den = dot(&d, &d);
    T::assume(gt(den, T::ZERO));
    let m = c.magnitude_at(hz);
    T::prove("magnitude is that of the transfer function", eq(m * m * den, dot(&n, &n)));
    T::prove("magnitude is not negative", ge(m, T::ZERO));
    let p = c.phase_at(hz);
    T::prove("phase is the argument of the transfer function", eq(p, n[1].atan2(n[0]) - d[1].atan2(d[0])));
    let t = c.delay_at(hz);
    T::prove("delay is the phase over the angular frequency", if T::holds(eq(hz, T::ZERO)) { eq(t, T::ZERO) } else { eq(t * T::TWO * T::PI * hz, -p) });
    T::prove("steady delay is zero", eq(c.delay_at(T::ZERO), T::ZERO));
}
fn decibels<T: Scal>() {
    let Some((c, _, _)) = coefs::<T>("c") else { return };
    let hz = T::var("hz");
    let m = c.magnitude_at(hz);
    T::assume(gt(m, T::ZERO));
    T::prove("decibels", eq(c.magnitude_in_decibels_at(hz), T::from_f64(20.0 / core::f64::consts::LN_10) * m.log()));
    let s = BiquadCascade::new([c, c]);
    T::prove("decibels of a chain", eq(s.magnitude_in_decibels_at(hz), T::from_f64(20.0 / core::f64::consts::LN_10) * (m * m).log()));
}
// ---- designs
fn make<T: Scal>(k: usize, hz: T, q: T, dt: T) -> Result<C<T>, SignalError> {
    match k {
        0 => C::low_pass(hz, q, dt),
        1 => C::high_pass(hz, q, dt),
        2 => C::band_pass(hz, q, dt),
        _ => C::notch(hz, q, dt),
    }
}
/// Low and high pass are the bilinear transform of 1/(s² + s/Q + 1) and its mirror; band-pass and
/// notch keep or remove the centre with the stated width.
fn design<T: Scal>() {
    T::angle_div(2);
    let k = T::choose("design", 4);
    let (hz, q, dt) = (T::pos("hz"), T::pos("q"), T::pos("dt"));
    T::assume(lt(hz * dt, T::HALF));
    if k >= 2 { T::assume(lt(hz * dt, q * T::HALF)) }
    // sine, cosine and tangent are positive inside the first quarter turn
    let turn = T::TWO * T::PI * hz * dt;
    T::assume(and(vec![gt((turn * T::HALF).cos(), T::ZERO), gt((turn * T::HALF).sin(), T::ZERO)]));
    if k >= 2 { T::assume(gt((turn / (T::TWO * q)).tan(), T::ZERO)) }
    let Ok(c) = make(k, hz, q, dt) else { return T::prove("a design in range is accepted", b(false)) };
    let (f, a) = (c.feed_forward(), c.feedback());
    let w = T::TWO * T::PI * hz * dt;
    let (ch, sh) = ((w * T::HALF).cos(), (w * T::HALF).sin());
    let (cs, sn) = (ch * ch - sh * sh, T::TWO * sh * ch);
    T::prove("timestep kept", eq(c.timestep(), dt));
    let dc = (f[0] + f[1] + f[2], T::ONE + a[0] + a[1]);
    let ny = (f[0] - f[1] + f[2], T::ONE - a[0] + a[1]);
    let unit = |n: &str, (x, y): (T, T)| T::prove(n, eq(x, y));
    let none = |n: &str, (x, _): (T, T)| T::prove(n, eq(x, T::ZERO));
    match k {
        0 => {
            unit("low-pass keeps a steady input", dc);
            none("low-pass removes the Nyquist frequency", ny);
        }
        1 => {
            none("high-pass removes a steady input", dc);
            unit("high-pass keeps the Nyquist frequency", ny);
        }
        2 => {
            none("band-pass removes a steady input", dc);
            none("band-pass removes the Nyquist frequency", ny);
        }
        _ => {
            unit("notch keeps a steady input", dc);
            unit("notch keeps the Nyquist frequency", ny);
        }
    }
    // Jury's three quantities, each a positive number over the same positive lead
    let al = if k < 2 { sn / (T::TWO * q) } else { (w / (T::TWO * q)).tan() };
    let lead = T::ONE + al;
    T::prove("poles inside the unit circle", and(vec![gt(al, T::ZERO), eq((T::ONE + a[0] + a[1]) * lead, T::i(4) * sh * sh), eq((T::ONE - a[0] + a[1]) * lead, T::i(4) * ch * ch), eq((T::ONE - a[1]) * lead, T::TWO * al)]));
    let (n, d) = on_circle(&f, &a, cs, sn);
    if k < 2 {
        // s = (ch/sh)(1 - z)/(1 + z): denominator ∝ (1-z)² ch² + (1-z)(1+z) ch sh/Q + (1+z)² sh²
        let lead = ch * ch + ch * sh / q + sh * sh;
        T::prove("poles of the analogue prototype", and(vec![eq(a[0] * lead, T::TWO * (sh * sh - ch * ch)), eq(a[1] * lead, ch * ch - ch * sh / q + sh * sh)]));
        let g = if k == 0 { sh * sh } else { ch * ch };
        let sg = if k == 0 { T::ONE } else { -T::ONE };
        T::prove("zeros of the analogue prototype", and(vec![eq(f[0] * lead, g), eq(f[1] * lead, sg * T::TWO * g), eq(f[2] * lead, g)]));
        // at the cutoff the response is Q quarter-turn behind (or ahead): |H|² = Q²
        T::prove("gain at the cutoff is the quality factor", eq(dot(&n, &n), q * q * dot(&d, &d)));
    } else {
        let t = (w / (T::TWO * q)).tan();
        let lead = T::ONE + t;
        T::prove("poles of the stated width", and(vec![eq(a[0] * lead, -T::TWO * cs), eq(a[1] * lead, T::ONE - t)]));
        if k == 2 {
            T::prove("band-pass keeps its centre untouched", eqs(&n, &d));
            T::prove("band-pass zeros", and(vec![eq(f[0] * lead, t), eq(f[1], T::ZERO), eq(f[2] * lead, -t)]));
        } else {
            T::prove("notch removes its centre", eqs(&n, &[T::ZERO; 2]));
            T::prove("notch zeros", and(vec![eq(f[0] * lead, T::ONE), eq(f[1] * lead, -T::TWO * cs), eq(f[2] * lead, T::ONE)]));
        }
    }
}
/// what the stability test accepts is exactly the set of weights whose poles are inside the circle
fn stable<T: Scal>() {
    let Some((c, _, a)) = coefs::<T>("c") else { return };
    // poles of z² + a0 z + a1 inside the circle, by the Jury test
    let jury = and(vec![gt(T::ONE + a[0] + a[1], T::ZERO), gt(T::ONE - a[0] + a[1], T::ZERO), gt(T::ONE - a[1], T::ZERO)]);
    T::prove("stable exactly when the poles are inside the unit circle", if c.is_stable() { jury } else { not(jury) });
}
fn design_stable<T: Scal>() {
    let k = T::rndi(4);
    let dt = T::q(1, 1 + T::rndi(2000) as i64);
    let hz = T::rnd(1, 63, 128) / T::i(128 * 1) / dt * T::q(127, 128);
    let q = T::q(1 + T::rndi(400) as i64, 40);
    let wide = T::holds(ge(hz * dt, q * T::HALF));
    let fast = T::holds(ge(hz * dt, T::HALF));
    let r = make(k, hz, q, dt);
    if fast || (wide && k >= 2) {
        return T::prove("out of range", b(r == Err(SignalError::FrequencyOutOfRange)));
    }
    let Ok(c) = r else { return T::prove("a design in range is accepted", b(false)) };
    T::prove("every design is stable", b(c.is_stable()));
    // impulse response dies out at the rate of its poles: energy in the tail is no more than the start
    let w = T::TWO_PI * hz * dt;
    if k >= 2 {
        let half = w / (T::TWO * q);
        let mid = (w.cos() * half.cos()).acos();
        for e in [mid - half, mid + half] {
            if T::holds(gt(e, T::q(1, 100))) && T::holds(lt(e, T::i(3))) {
                T::prove_close("half power at the edges of the band", c.magnitude_at(e / (T::TWO_PI * dt)), T::HALF.sqrt(), 1e-6);
            }
        }
    }
}
/// a steady oscillation comes out scaled and shifted as reported
fn oscillation<T: Scal>() {
    let k = T::rndi(4);
    let dt = T::q(1, 100);
    let (hz, q) = (T::rnd(1, 45, 4), T::rnd(1, 3, 8));
    let Ok(c) = make(k, hz, q, dt) else { return };
    let c2 = make(T::rndi(4), T::rnd(5, 45, 4), T::ONE, dt).unwrap();
    let mut s = BiquadCascade::new([c, c2]);
    let at = T::rnd(1, 45, 4);
    let (m, p, d) = (s.magnitude_at(at), s.phase_at(at), s.delay_at(at));
    let w = T::TWO_PI * at * dt;
    let n = 3000;
    T::prove("chain is stable", b(s.is_stable()));
    for i in 0..n {
        let t = T::i(i);
        let y = s.filter((w * t).cos());
        if i > n - 40 {
            T::prove_close("amplitude and phase", y, m * (w * t + p).cos(), 1e-6);
            T::prove_close("delay", y, m * (w * (t - d / dt)).cos(), 1e-6);
        }
    }
}
fn chain<T: Scal>() {
    let (Some((c0, f0, a0)), Some((c1, f1, a1)), Some((c2, f2, a2))) = (coefs::<T>("c"), coefs::<T>("d"), coefs::<T>("e")) else { return };
    let mut s = BiquadCascade::new([c0, c1]);
    T::prove("starts at rest", eq(s.value(), T::ZERO));
    if T::choose("history", 2) == 1 {
        let _ = s.filter(T::var("old"));
        s.reset();
        T::prove("reset clears the output", eq(s.value(), T::ZERO));
    }
    T::prove("no such section", b(s.set_section(2, c2) == Err(SignalError::SectionIndexOutOfRange)));
    let (mut x, mut m, mut y) = (vec![], vec![], vec![]);
    let (mut fa, mut fb) = ((f0, a0), (f1, a1));
    let swap = T::choose("swap", 3);
    let (mut q0, mut q1) = (Biquad::new(c0), Biquad::new(c1));
    for k in 0..4 {
        if k == 2 && swap < 2 {
            T::prove("section replaced", b(s.set_section(swap, c2).is_ok()));
            if swap == 0 { q0.set_coefficients(c2); fa = (f2, a2) } else { q1.set_coefficients(c2); fb = (f2, a2) }
        }
        x.push(T::var(&format!("x{k}")));
        let out = s.filter(x[k]);
        let mid = q0.filter(x[k]);
        let want = q1.filter(mid);
        T::prove("a chain is its sections in a row", eq(out, want));
        T::prove("chain value", eq(s.value(), out));
        if k < 2 {
            T::prove("difference equations in a row", and(vec![eq(mid, diff(&fa.0, &fa.1, &x, &m)), eq(out, diff(&fb.0, &fb.1, &{ let mut v = m.clone(); v.push(mid); v }, &y))]));
        }
        m.push(mid);
        y.push(out);
    }
}
fn chain_settle<T: Scal>() {
    let (Some((c0, f0, a0)), Some((c1, f1, a1))) = (coefs::<T>("c"), coefs::<T>("d")) else { return };
    let (g0, g1) = (T::ONE + a0[0] + a0[1], T::ONE + a1[0] + a1[1]);
    T::assume(ne(g0, T::ZERO));
    T::assume(ne(g1, T::ZERO));
    let mut s = BiquadCascade::new([c0, c1]);
    let _ = s.filter(T::var("old"));
    let v = T::var("v");
    s.settle_to(v);
    let w = s.value();
    T::prove("chain settles to the product of the gains", eq(w * g0 * g1, v * (f0[0] + f0[1] + f0[2]) * (f1[0] + f1[1] + f1[2])));
    for _ in 0..2 {
        let y = s.filter(v);
        T::prove("already settled", eq(y, w));
    }
}
fn chain_response<T: Scal>() {
    let (Some((c0, f0, a0)), Some((c1, f1, a1))) = (coefs::<T>("c"), coefs::<T>("d")) else { return };
    let s = BiquadCascade::new([c0, c1]);
    let hz = T::var("hz");
    for (c, f, a) in [(c0, f0, a0), (c1, f1, a1)] {
        let w = T::TWO * T::PI * hz * c.timestep();
        let (_, d) = on_circle(&f, &a, w.cos(), w.sin());
        T::assume(gt(dot(&d, &d), T::ZERO));
    }
    T::prove("magnitudes multiply", eq(s.magnitude_at(hz), c0.magnitude_at(hz) * c1.magnitude_at(hz)));
    let p = s.phase_at(hz);
    T::prove("phases add", eq(p, c0.phase_at(hz) + c1.phase_at(hz)));
    T::prove("chain delay", if T::holds(eq(hz, T::ZERO)) { eq(s.delay_at(hz), T::ZERO) } else { eq(s.delay_at(hz) * T::TWO * T::PI * hz, -p) });
}
fn chain_stable<T: Scal>() {
    let mk = |k: i64| C::new([T::ONE, T::ZERO, T::ZERO], [T::ZERO, T::q(k, 2)], T::ONE).unwrap();
    for i in 0..8 {
        let s = BiquadCascade::new([mk(if i & 1 > 0 { 3 } else { 1 }), mk(if i & 2 > 0 { 3 } else { -1 }), mk(if i & 4 > 0 { 3 } else { 1 })]);
        T::prove("stable exactly when every section is", b(s.is_stable() == (i == 0)));
    }
    let mut none = BiquadCascade::<0, T>::new([]);
    let x = T::var("x");
    T::prove("an empty chain passes its input", eq(none.filter(x), x));
    T::prove("an empty chain has no output", eq(none.value(), T::ZERO));
}
fn channels<T: Scal>() {
    let (Some((c, _, a)), Some((d, _, _))) = (coefs::<T>("c"), coefs::<T>("d")) else { return };
    T::assume(ne(T::ONE + a[0] + a[1], T::ZERO));
    let mut m = MultiChannelBiquad::<3, T>::new(c);
    let mut q = [Biquad::new(c); 3];
    let agree = |n: &str, m: &MultiChannelBiquad<3, T>, q: &[Biquad<T>; 3]| T::prove(n, veq(&m.value(), &q.map(|b| b.value())));
    let mut feed = |n: &str, m: &mut MultiChannelBiquad<3, T>, q: &mut [Biquad<T>; 3]| {
        let x = T::vars::<3>("x");
        let y = m.filter(Vector::new(x));
        let w: [T; 3] = std::array::from_fn(|i| q[i].filter(x[i]));
        T::prove(n, veq(&y, &w));
        T::prove("channel values", veq(&m.value(), &w));
    };
    agree("at rest", &m, &q);
    feed("each channel on its own", &mut m, &mut q);
    match T::choose("then", 3) {
        0 => {
            let v = T::vars::<3>("v");
            m.settle_to(Vector::new(v));
            for i in 0..3 { q[i].settle_to(v[i]) }
            agree("settles each to its own", &m, &q);
        }
        1 => {
            m.reset();
            q.iter_mut().for_each(|b| b.reset());
            agree("resets each", &m, &q);
        }
        _ => {
            m.set_coefficients(d);
            q.iter_mut().for_each(|b| b.set_coefficients(d));
            agree("keeps each memory", &m, &q);
        }
    }
    feed("and on from there", &mut m, &mut q);
    feed("and on from there", &mut m, &mut q);
}
fn harmonics<T: Scal>() {
    let (hz, q, dt) = (T::pos("hz"), T::pos("q"), T::pos("dt"));
    T::assume(lt(T::i(3) * hz * dt, T::HALF));
    T::assume(lt(T::i(3) * hz * dt, q * T::HALF));
    match harmonic_notch_coefficients::<3, T>(hz, q, dt) {
        Ok(s) => {
            for i in 0..3 {
                let w = C::notch(hz * T::i(i as i64 + 1), q, dt).unwrap();
                T::prove("one notch per multiple", and(vec![eqs(&s[i].feed_forward(), &w.feed_forward()), eqs(&s[i].feedback(), &w.feedback()), eq(s[i].timestep(), dt)]));
            }
        }
        Err(_) => T::prove("multiples in range are accepted", b(false)),
    }
}
fn harmonics_refused<T: Scal>() {
    let (hz, q, dt) = (T::pos("hz"), T::pos("q"), T::pos("dt"));
    let x = T::nonneg("x");
    let f = |hz, q, dt| harmonic_notch_coefficients::<3, T>(hz, q, dt).err();
    T::prove("no sections", b(harmonic_notch_coefficients::<0, T>(hz, q, dt).err() == Some(SignalError::WindowTooShort)));
    T::prove("highest multiple out of range", b(f((T::HALF + x) / (T::i(3) * dt), T::i(10), dt) == Some(SignalError::FrequencyOutOfRange)));
    T::prove("quality", b(f(T::q(1, 10) / dt, -x, dt) == Some(SignalError::NonPositiveQualityFactor)));
    T::prove("timestep", b(f(hz, q, -x) == Some(SignalError::NonPositiveTimestep)));
    T::prove("frequency", b(f(-x, q, dt) == Some(SignalError::FrequencyOutOfRange)));
    let bad = T::special("bad");
    T::prove("non-finite", b([f(bad, q, dt), f(hz, bad, dt), f(hz, q, bad)].iter().all(|e| *e == Some(SignalError::NonFinite))));
}
fn refused<T: Scal>() {
    let bad = T::special("bad");
    let x = T::nonneg("x");
    let i = T::choose("which", 5);
    let mut v = T::vars::<5>("w");
    let new = |v: [T; 5], dt| C::new([v[0], v[1], v[2]], [v[3], v[4]], dt).err();
    T::prove("weights: timestep", b(new(v, -x) == Some(SignalError::NonPositiveTimestep) && new(v, bad) == Some(SignalError::NonFinite)));
    v[i] = bad;
    T::prove("weights: non-finite", b(new(v, T::ONE) == Some(SignalError::NonFinite)));
    let k = T::choose("design", 4);
    let (hz, q, dt) = (T::q(1, 10), T::pos("q"), T::ONE);
    let f = |hz, q, dt| make(k, hz, q, dt).err();
    T::prove("non-finite", b([f(bad, q, dt), f(hz, bad, dt), f(hz, q, bad)].iter().all(|e| *e == Some(SignalError::NonFinite))));
    T::prove("timestep", b(f(hz, q, -x) == Some(SignalError::NonPositiveTimestep)));
    T::prove("quality", b(f(hz, -x, dt) == Some(SignalError::NonPositiveQualityFactor)));
    T::prove("frequency", b(f(-x, q, dt) == Some(SignalError::FrequencyOutOfRange) && f(T::HALF + x, q, dt) == Some(SignalError::FrequencyOutOfRange)));
    if k >= 2 {
        T::prove("band as wide as half the sampling rate", b(f(hz, T::q(1, 5) / (T::ONE + x), dt) == Some(SignalError::FrequencyOutOfRange)));
    }
}
// ---- one pole
fn one_pole<T: Scal>() {
    T::merge(true);
    let a = T::var_in("smoothing", T::ZERO, T::ONE);
    let Ok(mut p) = OnePoleLowPass::new(a) else { return T::prove("smoothing in range accepted", b(false)) };
    T::prove("starts at zero", eq(p.value(), T::ZERO));
    if T::choose("history", 2) == 1 {
        let _ = p.filter(T::var("old"));
        let _ = p.filter(T::var("old"));
        p.reset();
        T::prove("reset clears", eq(p.value(), T::ZERO));
    }
    let mut y = T::var("x0");
    let got = p.filter(y);
    T::prove("first sample seeds", and(vec![eq(got, y), eq(p.value(), y)]));
    for k in 1..4 {
        let x = T::var(&format!("x{k}"));
        let got = p.filter(x);
        let want = a * x + (T::ONE - a) * y;
        T::prove("recurrence", and(vec![eq(got, want), eq(p.value(), want)]));
        T::prove("between the last output and the input", between(x.min(y), got, x.max(y)));
        y = T::var(&format!("y{k}"));
        let mut again = OnePoleLowPass::new(a).unwrap();
        let _ = again.filter(y);
        p = again;
    }
}
fn one_pole_cutoff<T: Scal>() {
    let (hz, dt) = (T::nonneg("hz"), T::pos("dt"));
    let Ok(mut p) = OnePoleLowPass::from_cutoff(hz, dt) else { return T::prove("cutoff accepted", b(false)) };
    let (x, y) = (T::var("x"), T::var("y"));
    let _ = p.filter(y);
    let z = p.filter(x);
    // backward Euler of dy/dt = 2π f (x - y)
    T::prove("first-order lag", eq(z - y, T::TWO * T::PI * hz * dt * (x - z)));
    let bad = T::special("bad");
    let e = T::pos("e");
    T::prove("non-finite cutoff", b(OnePoleLowPass::from_cutoff(bad, dt).err() == Some(SignalError::NonFinite) && OnePoleLowPass::from_cutoff(hz, bad).err() == Some(SignalError::NonFinite)));
    T::prove("negative cutoff", b(OnePoleLowPass::from_cutoff(-e, dt).err() == Some(SignalError::FrequencyOutOfRange)));
    T::prove("timestep", b(OnePoleLowPass::from_cutoff(hz, -hz).err() == Some(SignalError::NonPositiveTimestep)));
    T::prove("smoothing", b(OnePoleLowPass::new(bad).err() == Some(SignalError::NonFinite) && OnePoleLowPass::new(-e).err() == Some(SignalError::CoefficientOutOfRange) && OnePoleLowPass::new(T::ONE + e).err() == Some(SignalError::CoefficientOutOfRange)));
}
// ---- Savitzky-Golay
/// coefficients of the least-squares polynomial through (position - read, sample), by the normal equations
fn fit<T: Scal>(samples: &[T], read: usize, terms: usize) -> Vec<T> {
    let n = samples.len();
    let at = |i: usize| T::i(i as i64 - read as i64);
    let scale = T::i(n as i64);
    let pw = |i: usize, k: usize| (0..k).fold(T::ONE, |t, _| t * at(i) / scale);
    let mut m: Vec<Vec<T>> = (0..terms).map(|r| (0..terms).map(|c| (0..n).fold(T::ZERO, |t, i| t + pw(i, r) * pw(i, c))).chain([(0..n).fold(T::ZERO, |t, i| t + pw(i, r) * samples[i])]).collect()).collect();
    for c in 0..terms {
        let p = (c..terms).max_by(|x, y| m[*x][c].abs().partial_cmp(&m[*y][c].abs()).unwrap()).unwrap();
        m.swap(c, p);
        for r in 0..terms {
            if r != c {
                let k = m[r][c] / m[c][c];
                for j in c..=terms { m[r][j] = m[r][j] - k * m[c][j] }
            }
        }
    }
    let mut s = T::ONE;
    (0..terms).map(|r| { let v = m[r][terms] / m[r][r] / s; s = s * scale; v }).collect()
}
fn savgol<T: Scal>() {
    fn go<T: Scal, const W: usize, const D: usize>() {
        let centered = T::rndi(2) == 0;
        let dt = T::q(1 + T::rndi(8) as i64, 8);
        let f = if centered { SavitzkyGolay::<W, D, T>::centered(dt) } else { SavitzkyGolay::<W, D, T>::latest(dt) };
        if centered && W % 2 == 0 {
            return T::prove("even window has no middle", b(f.err() == Some(SignalError::WindowEvenLength)));
        }
        let Ok(mut f) = f else { return T::prove("window accepted", b(false)) };
        let read = if centered { (W - 1) / 2 } else { W - 1 };
        T::prove_close("delay", f.delay(), T::i((W - 1 - read) as i64) * dt, 1e-12);
        T::prove("nothing seen yet", eq(f.value(), T::ZERO));
        if T::rndi(2) == 0 {
            for _ in 0..T::rndi(W) { let _ = f.filter(T::rnd(-3, 3, 4)); }
            f.reset();
            T::prove("reset clears", and(vec![eq(f.value(), T::ZERO), eq(f.first_derivative(), T::ZERO), eq(f.second_derivative(), T::ZERO)]));
        }
        // noise, or a polynomial of the degree it promises to follow
        let poly = T::rndi(2) == 0;
        let c: [T; D] = std::array::from_fn(|_| T::rnd(-2, 2, 8));
        let value = |k: i64| (0..D).rev().fold(T::ZERO, |t, i| t * T::i(k) / T::i(W as i64) + c[i]);
        let mut win: Vec<T> = vec![];
        for k in 0..3 * W + 2 {
            let x = if poly { value(k as i64) } else { T::rnd(-3, 3, 16) };
            if win.is_empty() { win = vec![x; W] } else { win.remove(0); win.push(x); }
            let y = f.filter(x);
            T::prove_close("returned value", y, f.value(), 1e-12);
            let q = fit(&win, read, D);
            T::prove_close("value of the fitted curve", y, q[0], 1e-6);
            T::prove_close("slope of the fitted curve", f.first_derivative() * dt, if D > 1 { q[1] } else { T::ZERO }, 1e-6);
            T::prove_close("bend of the fitted curve", f.second_derivative() * dt * dt, if D > 2 { T::TWO * q[2] } else { T::ZERO }, 1e-6);
            if poly && k + 1 >= W {
                T::prove_close("follows its polynomial", y, value(k as i64 - (W - 1 - read) as i64), 1e-6);
            }
        }
    }
    match T::rndi(9) {
        0 => go::<T, 1, 1>(),
        1 => go::<T, 3, 2>(),
        2 => go::<T, 4, 3>(),
        3 => go::<T, 5, 1>(),
        4 => go::<T, 5, 3>(),
        5 => go::<T, 7, 4>(),
        6 => go::<T, 6, 6>(),
        7 => go::<T, 11, 3>(),
        _ => go::<T, 3, 3>(),
    }
}
/// one- and two-term filters, in exact arithmetic for every sample
fn savgol_linear<T: Scal>() {
    let dt = T::pos("dt");
    let Ok(mut f) = SavitzkyGolay::<1, 1, T>::latest(dt) else { return T::prove("window accepted", b(false)) };
    for k in 0..3 {
        let x = T::var(&format!("x{k}"));
        let y = f.filter(x);
        T::prove("a window of one passes its sample", and(vec![eq(y, x), eq(f.first_derivative(), T::ZERO), eq(f.second_derivative(), T::ZERO), eq(f.delay(), T::ZERO)]));
    }
}
fn savgol_refused<T: Scal>() {
    let bad = T::special("bad");
    let x = T::nonneg("x");
    let dt = T::pos("dt");
    T::prove("non-finite timestep", b(SavitzkyGolay::<5, 2, T>::latest(bad).err() == Some(SignalError::NonFinite) && SavitzkyGolay::<5, 2, T>::centered(bad).err() == Some(SignalError::NonFinite)));
    T::prove("timestep", b(SavitzkyGolay::<5, 2, T>::latest(-x).err() == Some(SignalError::NonPositiveTimestep) && SavitzkyGolay::<5, 2, T>::centered(-x).err() == Some(SignalError::NonPositiveTimestep)));
    T::prove("even window", b(SavitzkyGolay::<4, 2, T>::centered(dt).err() == Some(SignalError::WindowEvenLength) && SavitzkyGolay::<0, 2, T>::centered(dt).err() == Some(SignalError::WindowEvenLength)));
    T::prove("empty window", b(SavitzkyGolay::<0, 0, T>::latest(dt).err() == Some(SignalError::WindowTooShort) && SavitzkyGolay::<0, 1, T>::latest(dt).err() == Some(SignalError::WindowTooShort) && SavitzkyGolay::<3, 0, T>::latest(dt).err() == Some(SignalError::WindowTooShort)));
    T::prove("more terms than samples", b(SavitzkyGolay::<3, 4, T>::latest(dt).err() == Some(SignalError::PolynomialOrderTooHigh) && SavitzkyGolay::<3, 4, T>::centered(dt).err() == Some(SignalError::PolynomialOrderTooHigh)));
}

fn main() {
    run::main(
        run::Info { id: "C14", assumptions: &["sine, cosine and tangent are positive inside the first quarter turn", "any filter memory is reached by one sample through chosen weights", "the Savitzky-Golay weights come from an iterative pseudo-inverse and are sampled"] },
        vec![
            proof!(from_rest, "Biquad::new, filter, value, reset, coefficients; BiquadCoefficients::new, feed_forward, feedback, timestep"),
            proof!(any_state, "Biquad::filter, set_coefficients"),
            proof!(settle, "Biquad::settle_to, filter"),
            proof!(response, "BiquadCoefficients::magnitude_at, phase_at, delay_at"),
            proof!(decibels, "BiquadCoefficients::magnitude_in_decibels_at, BiquadCascade::magnitude_in_decibels_at"),
            proof!(design, "BiquadCoefficients::low_pass, high_pass, band_pass, notch"),
            proof!(stable, "BiquadCoefficients::is_stable"),
            sampled!(design_stable, 4000, "BiquadCoefficients::low_pass, high_pass, band_pass, notch, is_stable, magnitude_at"),
            sampled!(oscillation, 200, "BiquadCascade::filter, magnitude_at, phase_at, delay_at, is_stable"),
            proof!(chain, "BiquadCascade::new, filter, set_section, reset, value"),
            proof!(chain_settle, "BiquadCascade::settle_to"),
            proof!(chain_response, "BiquadCascade::magnitude_at, phase_at, delay_at"),
            proof!(chain_stable, "BiquadCascade::is_stable, filter, value"),
            proof!(channels, "MultiChannelBiquad"),
            proof!(harmonics, "harmonic_notch_coefficients"),
            proof!(harmonics_refused, "harmonic_notch_coefficients"),
            proof!(refused, "BiquadCoefficients::new, low_pass, high_pass, band_pass, notch"),
            proof!(one_pole, "OnePoleLowPass::new, filter, value, reset"),
            proof!(one_pole_cutoff, "OnePoleLowPass::new, from_cutoff"),
            proof!(savgol_linear, "SavitzkyGolay::latest, filter"),
            sampled!(savgol, 400, "SavitzkyGolay::centered, latest, filter, value, first_derivative, second_derivative, delay, reset"),
            proof!(savgol_refused, "SavitzkyGolay::centered, latest"),
        ],
    );
}
