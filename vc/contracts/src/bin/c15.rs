use contracts::*;
use multicalc::error::SignalError;
use multicalc::signal_processing::*;

fn deadband<T: Scal>() {
    let t = T::nonneg("threshold");
    let x = T::var("x");
    let (Ok(p), Ok(r)) = (Deadband::plain(t), Deadband::recentered(t)) else { return T::prove("a threshold is accepted", b(false)) };
    T::prove("threshold read back", and(vec![eq(p.threshold(), t), eq(r.threshold(), t)]));
    let (y, z) = (p.apply(x), r.apply(x));
    let inside = and(vec![le(-t, x), le(x, t)]);
    T::prove("zero inside the band", imp(inside.clone(), and(vec![eq(y, T::ZERO), eq(z, T::ZERO)])));
    T::prove("plain: untouched outside", imp(not(inside.clone()), eq(y, x)));
    T::prove("recentred: slid toward zero by the threshold", and(vec![imp(gt(x, t), eq(z, x - t)), imp(lt(x, -t), eq(z, x + t))]));
    T::prove("odd", and(vec![eq(p.apply(-x), -y), eq(r.apply(-x), -z)]));
    // recentred output never jumps: it moves no further than its input
    let w = T::var("w");
    let v = r.apply(w);
    T::prove("recentred: no jump", and(vec![le((z - v).abs(), (x - w).abs()), imp(le(x, w), le(z, v))]));
}
fn deadband_refused<T: Scal>() {
    let (bad, e) = (T::special("bad"), T::pos("e"));
    T::prove("non-finite threshold", b(Deadband::plain(bad).err() == Some(SignalError::NonFinite) && Deadband::recentered(bad).err() == Some(SignalError::NonFinite)));
    T::prove("negative threshold", b(Deadband::plain(-e).err() == Some(SignalError::NegativeThreshold) && Deadband::recentered(-e).err() == Some(SignalError::NegativeThreshold)));
}
fn pass_through<T: Scal>() {
    let x = T::var("x");
    T::prove("a zero band passes everything", and(vec![eq(Deadband::plain(T::ZERO).unwrap().apply(x), x), eq(Deadband::recentered(T::ZERO).unwrap().apply(x), x)]));
}
fn hysteresis<T: Scal>() {
    let lo = T::var("lower");
    let hi = lo + T::pos("gap");
    let Ok(mut h) = Hysteresis::new(lo, hi) else { return T::prove("ordered thresholds accepted", b(false)) };
    T::prove("starts as no", b(!h.is_high()));
    let mut was = false;
    match T::choose("history", 3) {
        0 => {}
        1 => {
            was = true;
            T::prove("above the upper threshold is yes", b(h.update(hi + T::pos("over"))));
        }
        _ => {
            let _ = h.update(hi + T::pos("over"));
            h.reset();
            T::prove("reset is no", b(!h.is_high()));
        }
    }
    for _ in 0..2 {
        let x = T::var("x");
        let got = h.update(x);
        let (up, down) = (T::holds(gt(x, hi)), T::holds(lt(x, lo)));
        was = if up { true } else if down { false } else { was };
        T::prove("switches only past the two thresholds", b(got == was && h.is_high() == was));
    }
    let (bad, e) = (T::special("bad"), T::nonneg("e"));
    T::prove("non-finite thresholds", b(Hysteresis::new(bad, hi).err() == Some(SignalError::NonFinite) && Hysteresis::new(lo, bad).err() == Some(SignalError::NonFinite)));
    T::prove("thresholds out of order", b(Hysteresis::new(lo, lo - e).err() == Some(SignalError::ThresholdsOutOfOrder)));
}
fn slew<T: Scal>() {
    let (up, down, dt) = (T::pos("rise"), T::pos("fall"), T::pos("dt"));
    let l = match T::choose("kind", 2) {
        0 => SlewRateLimiter::new(up, down, dt),
        _ => SlewRateLimiter::symmetric(up, dt),
    };
    let Ok(mut l) = l else { return T::prove("positive rates accepted", b(false)) };
    T::prove("starts at zero", eq(l.value(), T::ZERO));
    let t0 = T::var("t0");
    T::prove("first call jumps to its target", and(vec![eq(l.filter(t0), t0), eq(l.value(), t0)]));
    l.reset();
    T::prove("reset clears", eq(l.value(), T::ZERO));
    let s = T::var("s");
    let y = l.filter(s);
    T::prove("and jumps again", eq(y, s));
}
fn slew_law<T: Scal>() {
    let (up, dt) = (T::pos("rise"), T::pos("dt"));
    let same = T::choose("symmetric", 2) == 1;
    let down = if same { up } else { T::pos("fall") };
    let Ok(mut l) = (if same { SlewRateLimiter::symmetric(up, dt) } else { SlewRateLimiter::new(up, down, dt) }) else { return T::prove("positive rates accepted", b(false)) };
    // any state
    let s = T::var("s");
    let _ = l.filter(s);
    let mut last = s;
    for k in 0..3 {
        let t = T::var(&format!("t{k}"));
        let y = l.filter(t);
        T::prove("never faster than its rates", between(-down * dt, y - last, up * dt));
        T::prove("moves as far toward the target as the rates allow", or(vec![
            eq(y, t),
            and(vec![gt(t, y), eq(y - last, up * dt)]),
            and(vec![lt(t, y), eq(y - last, -down * dt)]),
        ]));
        T::prove("value is where it sits", eq(l.value(), y));
        last = y;
    }
}
/// a constant target is reached exactly, within the number of steps the rates say, and held
fn slew_reach<T: Scal>() {
    let (up, down, dt) = (T::pos("rise"), T::pos("fall"), T::pos("dt"));
    let mut l = SlewRateLimiter::new(up, down, dt).unwrap();
    let s = T::var("s");
    let _ = l.filter(s);
    let n = 1 + T::choose("steps", 4);
    let d = T::var("d");
    let k = T::i(n as i64);
    T::assume(and(vec![le(d, up * dt * k), ge(d, -down * dt * k)]));
    let mut y = s;
    for _ in 0..n {
        let z = l.filter(s + d);
        T::prove("never overshoots", if T::holds(ge(d, T::ZERO)) { and(vec![le(y, z), le(z, s + d)]) } else { and(vec![ge(y, z), ge(z, s + d)]) });
        y = z;
    }
    T::prove("reached", eq(y, s + d));
    T::prove("and held", eq(l.filter(s + d), s + d));
}
fn slew_refused<T: Scal>() {
    let (bad, e) = (T::special("bad"), T::nonneg("e"));
    let o = T::ONE;
    let f = |a, c, d| SlewRateLimiter::new(a, c, d).err();
    T::prove("non-finite", b([f(bad, o, o), f(o, bad, o), f(o, o, bad), SlewRateLimiter::symmetric(bad, o).err(), SlewRateLimiter::symmetric(o, bad).err()].iter().all(|x| *x == Some(SignalError::NonFinite))));
    T::prove("timestep", b(f(o, o, -e) == Some(SignalError::NonPositiveTimestep) && SlewRateLimiter::symmetric(o, -e).err() == Some(SignalError::NonPositiveTimestep)));
    T::prove("rates", b(f(-e, o, o) == Some(SignalError::NonPositiveRate) && f(o, -e, o) == Some(SignalError::NonPositiveRate)));
}
fn average_of<T: Scal, const W: usize>() {
    let Ok(mut m) = MovingAverage::<W, T>::new() else { return T::prove("a window is accepted", b(false)) };
    T::prove("nothing seen yet", eq(m.value(), T::ZERO));
    if T::choose("history", 2) == 1 {
        for _ in 0..=W { let _ = m.filter(T::var("old")); }
        m.reset();
        T::prove("reset clears", eq(m.value(), T::ZERO));
    }
    let mut win: Vec<T> = vec![];
    for k in 0..2 * W + 2 {
        let x = T::var(&format!("x{k}"));
        if win.is_empty() { win = vec![x; W] } else { win.remove(0); win.push(x) }
        let y = m.filter(x);
        T::prove("mean of the last samples", eq(y * T::i(W as i64), sum(&win)));
        T::prove("value without a sample", eq(m.value(), y));
    }
}
fn average<T: Scal>() {
    average_of::<T, 1>();
    average_of::<T, 2>();
    average_of::<T, 3>();
    average_of::<T, 5>();
    average_of::<T, 8>();
    T::prove("no window", b(MovingAverage::<0, T>::new().err() == Some(SignalError::WindowTooShort)));
    T::prove("no middle", b(RunningMedian::<0, T>::new().err() == Some(SignalError::WindowTooShort) && RunningMedian::<2, T>::new().err() == Some(SignalError::WindowEvenLength) && RunningMedian::<6, T>::new().err() == Some(SignalError::WindowEvenLength)));
}
fn is_median<T: Scal>(y: T, win: &[T]) -> P<T> {
    // one of the samples, with as many on either side
    let (mut below, mut above, mut equal) = (0, 0, 0);
    for x in win {
        if T::holds(lt(*x, y)) { below += 1 } else if T::holds(gt(*x, y)) { above += 1 } else { equal += 1 }
    }
    b(equal > 0 && 2 * below < win.len() && 2 * above < win.len())
}
/// `steps` samples, the window checked after the last `check` of them
fn median_of<T: Scal, const W: usize>(steps: usize, check: usize) {
    let Ok(mut m) = RunningMedian::<W, T>::new() else { return T::prove("an odd window is accepted", b(false)) };
    T::prove("nothing seen yet", eq(m.value(), T::ZERO));
    let mut win: Vec<T> = vec![];
    for k in 0..steps {
        let fixed = k + W < steps;
        // samples that have left the window by the time it is checked are all one value
        let x = if fixed { T::i([3, -1, 2][k % 3]) } else { T::var(&format!("x{k}")) };
        if win.is_empty() { win = vec![x; W] } else { win.remove(0); win.push(x) }
        let y = m.filter(x);
        if k + check >= steps {
            T::prove("middle sample of the window", is_median(y, &win));
            T::prove("value without a sample", eq(m.value(), y));
        }
    }
}
fn median<T: Scal>() {
    match T::choose("window", 4) {
        0 => median_of::<T, 1>(3, 3),
        1 => median_of::<T, 3>(1 + T::choose("steps", 4), 1),
        2 => median_of::<T, 3>(8, 1),
        _ => median_of::<T, 5>(3, 3),
    }
}
fn median_reset<T: Scal>() {
    let mut m = RunningMedian::<3, T>::new().unwrap();
    for k in [5, 1, 4, 9] { let _ = m.filter(T::i(k)); }
    m.reset();
    T::prove("reset clears", eq(m.value(), T::ZERO));
    let (x, y) = (T::var("x"), T::var("y"));
    T::prove("first sample fills the window again", eq(m.filter(x), x));
    T::prove("one wild sample is never seen", eq(m.filter(y), x));
}
fn long<T: Scal>() {
    fn go<T: Scal, const W: usize>() {
        let mut m = MovingAverage::<W, T>::new().unwrap();
        let mut d = RunningMedian::<W, T>::new().unwrap();
        let mut win: Vec<T> = vec![];
        for _ in 0..4 * W + 3 {
            if T::rndi(40) == 0 {
                m.reset();
                d.reset();
                win.clear();
            }
            let x = if T::rndi(3) == 0 { T::i(T::rndi(3) as i64) } else { T::rnd(-9, 9, 8) };
            if win.is_empty() { win = vec![x; W] } else { win.remove(0); win.push(x) }
            T::prove_close("mean", m.filter(x), sum(&win) / T::i(W as i64), 1e-9);
            let mut s = win.clone();
            s.sort_by(|a, b| a.partial_cmp(b).unwrap());
            T::prove("median", eq(d.filter(x), s[W / 2]));
        }
    }
    match T::rndi(6) {
        0 => go::<T, 1>(),
        1 => go::<T, 3>(),
        2 => go::<T, 5>(),
        3 => go::<T, 7>(),
        4 => go::<T, 33>(),
        _ => go::<T, 15>(),
    }
}
/// A sample that has left the window leaves no trace, whatever its size: not as a rounding
/// residue of a huge one, nor as an infinity that was passed through.
fn forgotten<T: Scal>() {
    fn go<T: Scal, const W: usize>() {
        let mut m = MovingAverage::<W, T>::new().unwrap();
        let mut d = RunningMedian::<W, T>::new().unwrap();
        let (mut m2, mut d2) = (m, d);
        for _ in 0..T::rndi(2 * W) + 1 {
            let x = match T::rndi(4) {
                0 => T::rnd(-9, 9, 8) * T::i(1 << 60) * T::i(1 << 60),
                1 => T::ONE / T::ZERO,
                _ => T::rnd(-9, 9, 7),
            };
            let _ = (m.filter(x), d.filter(x));
        }
        let _ = (m2.filter(T::ONE), d2.filter(T::ONE));
        for i in 0..2 * W {
            let x = T::rnd(-9, 9, 7);
            let (a, c) = (m.filter(x), d.filter(x));
            let (a2, c2) = (m2.filter(x), d2.filter(x));
            if i + 1 >= W {
                T::prove_close("mean of the window alone", a, a2, 1e-9);
                T::prove("median of the window alone", eq(c, c2));
            }
        }
    }
    match T::rndi(3) {
        0 => go::<T, 3>(),
        1 => go::<T, 5>(),
        _ => go::<T, 9>(),
    }
}
/// With rounding: a constant target is reached exactly, and then held.
fn slew_float<T: Scal>() {
    let (up, down, dt) = (T::rnd(1, 90, 7), T::rnd(1, 90, 7), T::rnd(1, 20, 30));
    let mut l = SlewRateLimiter::new(up, down, dt).unwrap();
    let (s, e) = (T::rnd(-50, 50, 9), T::rnd(-50, 50, 11));
    let _ = l.filter(s);
    let step = if T::holds(gt(e, s)) { up } else { down } * dt;
    let n = ((e - s).abs() / step).smug() as usize + 3;
    let mut y = s;
    for _ in 0..n.min(20000) {
        let z = l.filter(e);
        T::prove("within the rate", and(vec![le(z - y, up * dt + T::q(1, 1000000000)), le(y - z, down * dt + T::q(1, 1000000000))]));
        y = z;
    }
    if n <= 20000 {
        T::prove("the target itself", b(y.smug() == e.smug() && l.filter(e).smug() == e.smug()));
    }
}

fn main() {
    run::main(
        run::Info { id: "C15", assumptions: &["averages of up to eight samples and medians of up to five are proved for every history that fills and wraps the window; longer windows are sampled"] },
        vec![
            proof!(deadband, "Deadband::plain, recentered, apply, threshold"),
            proof!(deadband_refused, "Deadband::plain, recentered"),
            proof!(pass_through, "Deadband::apply"),
            proof!(hysteresis, "Hysteresis::new, update, reset, is_high"),
            proof!(slew, "SlewRateLimiter::new, symmetric, filter, reset, value"),
            proof!(slew_law, "SlewRateLimiter::filter, value"),
            proof!(slew_reach, "SlewRateLimiter::filter"),
            proof!(slew_refused, "SlewRateLimiter::new, symmetric"),
            proof!(average, "MovingAverage::new, filter, value, reset; RunningMedian::new"),
            proof!(median, "RunningMedian::new, filter, value"),
            proof!(median_reset, "RunningMedian::reset, filter"),
            sampled!(forgotten, 600, "MovingAverage::filter; RunningMedian::filter"),
            sampled!(slew_float, 600, "SlewRateLimiter::filter"),
            sampled!(long, 300, "MovingAverage::filter, reset; RunningMedian::filter, reset"),
        ],
    );
}
