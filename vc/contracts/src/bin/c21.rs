use contracts::*;
use multicalc::error::IntegrateError;
use multicalc::ode::*;
use multicalc::scalar::{Jet, Numeric};
use multicalc::spatial::{Quaternion, SO3};
use std::cell::RefCell;

type V<T, const N: usize> = Vector<N, T>;
fn ve<T: Scal, const N: usize>(a: V<T, N>, b: V<T, N>) -> P<T> {
    veq(&a, b.as_slice())
}
fn mvv<T: Scal, const N: usize>(a: Matrix<N, N, T>, x: V<T, N>) -> V<T, N> {
    Vector::new(mv(&a, x.as_array()))
}

fn field<T: Scal>(t: T, y: &V<T, 2>) -> V<T, 2> {
    let a = [t, y[0], y[1]];
    Vector::new([T::uf("f0", &a), T::uf("f1", &a)])
}
/// a linear system: the step is the exponential's first five terms
fn rk4_linear<T: Scal>() {
    let (a, y, h, t) = (mat::<T, 2, 2>("a"), vecv::<T, 2>("y"), T::var("h"), T::var("t"));
    let got = Rk4::step(&|_: T, y: &V<T, 2>| mvv(a, *y), t, &y, h);
    let mut term = y;
    let mut want = y;
    for k in 1..5 {
        term = mvv(a, term) * (h / T::i(k));
        want = want + term;
    }
    T::prove("fourth-order exponential", ve(got, want));
}
/// time alone: exact on cubics
fn rk4_time<T: Scal>() {
    let (c, y, h, t) = (T::vars::<4>("c"), T::var("y"), T::var("h"), T::var("t"));
    let f = |t: T, _: &V<T, 1>| Vector::new([c[0] + t * (c[1] + t * (c[2] + t * c[3]))]);
    let anti = |t: T| t * (c[0] + t * (c[1] / T::i(2) + t * (c[2] / T::i(3) + t * c[3] / T::i(4))));
    let got = Rk4::step(&f, t, &Vector::new([y]), h);
    T::prove("cubic integrated", eq(got[0], y + anti(t + h) - anti(t)));
}
/// any smooth field: the step agrees with the solution's own Taylor series to fourth order
fn rk4_order<T: Scal>() {
    type J<T> = Jet<T, 5>;
    // every power of (t, y) that a fourth-order series can see, about (0, 0)
    let mut names = vec![];
    for i in 0..4usize {
        for j in 0..4 - i {
            names.push((i, j, T::var("c")));
        }
    }
    let f = |t: J<T>, y: J<T>| {
        let mut out = J::<T>::ZERO;
        for (i, j, c) in &names {
            let mut m = Jet { coeffs: [*c, T::ZERO, T::ZERO, T::ZERO, T::ZERO] };
            for _ in 0..*i {
                m = m * t;
            }
            for _ in 0..*j {
                m = m * y;
            }
            out = out + m;
        }
        out
    };
    let h = Jet { coeffs: [T::ZERO, T::ONE, T::ZERO, T::ZERO, T::ZERO] };
    let mut y = J::<T>::ZERO;
    for k in 0..4 {
        let d = f(h, y);
        y.coeffs[k + 1] = d.coeffs[k] / T::i(k as i64 + 1);
    }
    let step = Rk4::step(&|t: J<T>, y: &V<J<T>, 1>| Vector::new([f(t, y[0])]), J::<T>::ZERO, &Vector::new([J::<T>::ZERO]), h);
    T::prove("Taylor series to fourth order", eqs(&step[0].coeffs, &y.coeffs));
}
/// two coupled states, autonomous, quadratic: the trees one equation cannot tell apart
fn rk4_order_pair<T: Scal>() {
    type J<T> = Jet<T, 5>;
    let co: Vec<T> = (0..12).map(|_| T::var("c")).collect();
    let k = |c: T| Jet { coeffs: [c, T::ZERO, T::ZERO, T::ZERO, T::ZERO] };
    let f = |y: &[J<T>; 2]| -> [J<T>; 2] {
        let m = [k(T::ONE), y[0], y[1], y[0] * y[0], y[0] * y[1], y[1] * y[1]];
        core::array::from_fn(|i| (0..6).fold(J::<T>::ZERO, |s, n| s + k(co[i * 6 + n]) * m[n]))
    };
    let h = Jet { coeffs: [T::ZERO, T::ONE, T::ZERO, T::ZERO, T::ZERO] };
    let mut y = [J::<T>::ZERO; 2];
    for n in 0..4 {
        let d = f(&y);
        for i in 0..2 {
            y[i].coeffs[n + 1] = d[i].coeffs[n] / T::i(n as i64 + 1);
        }
    }
    let step = Rk4::step(&|_: J<T>, y: &V<J<T>, 2>| Vector::new(f(&[y[0], y[1]])), J::<T>::ZERO, &Vector::new([J::<T>::ZERO; 2]), h);
    for i in 0..2 {
        T::prove("Taylor series to fourth order", eqs(&step[i].coeffs, &y[i].coeffs));
    }
}
/// a run is its steps, one after the other, each node handed over
fn rk4_run<T: Scal>() {
    let (y, h, t) = (vecv::<T, 2>("y"), T::var("h"), T::var("t"));
    let n = T::choose("steps", 4);
    let nodes = RefCell::new(vec![]);
    let end = Rk4::integrate(&field::<T>, t, &y, h, n, |t, y| nodes.borrow_mut().push((t, *y)));
    let nodes = nodes.into_inner();
    T::prove("a node per step and the start", b(nodes.len() == n + 1));
    T::prove("starts at the start", and(vec![eq(nodes[0].0, t), ve(nodes[0].1, y)]));
    for k in 0..n {
        T::prove("next node", and(vec![eq(nodes[k + 1].0, t + h * T::i(k as i64 + 1)), ve(nodes[k + 1].1, Rk4::step(&field::<T>, nodes[k].0, &nodes[k].1, h))]));
    }
    T::prove("ends at the last node", ve(end, nodes[n].1));
}
/// interpolation between two nodes: values and slopes at both ends, so every cubic is kept
fn hermite<T: Scal>() {
    let c: Vec<V<T, 2>> = (0..4).map(|_| vecv::<T, 2>("c")).collect();
    let at = |t: T| c[0] + (c[1] + (c[2] + c[3] * t) * t) * t;
    let slope = |t: T| c[1] + (c[2] * T::i(2) + c[3] * (T::i(3) * t)) * t;
    let (a, h, t) = (T::var("a"), T::pos("h"), T::var("t"));
    let e = if T::choose("direction", 2) == 0 { a + h } else { a - h };
    let s = Step { time_start: a, time_end: e, state_start: at(a), state_end: at(e), derivative_start: slope(a), derivative_end: slope(e) };
    T::prove("cubics are kept", ve(s.interpolate(t), at(t)));
    let (p, q) = (vecv::<T, 2>("p"), vecv::<T, 2>("q"));
    let s = Step { time_start: a, time_end: e, state_start: p, state_end: q, derivative_start: c[0], derivative_end: c[1] };
    T::prove("nodes are met", and(vec![ve(s.interpolate(a), p), ve(s.interpolate(e), q)]));
}
/// adaptive: however the attempts go, what is handed over is a chain from start to end
fn adaptive<T: Scal>() {
    attempts::<T>(1)
}
fn adaptive_two<T: Scal>() {
    attempts::<T>(2)
}
fn attempts<T: Scal>(most: usize) {
    let (t, w, h, y) = (if most == 1 { T::var("t") } else { T::ZERO }, T::pos("w"), T::pos("h"), T::var("y"));
    let back = most == 1 && T::choose("direction", 2) == 1;
    let tf = if back { t - w } else { t + w };
    // the clock's own share of the slopes is in `grid`: the end time is snapped to within an epsilon
    let f = |_: T, y: &V<T, 1>| Vector::new([T::uf("f", &[y[0]])]);
    let cap = if most == 1 { T::pos("cap") } else { T::INFINITY };
    let (at, rt) = (T::pos("atol"), T::pos("rtol"));
    let solver = Rk45::<T>::default().with_first_step(h).with_max_step(cap).with_max_steps(most).with_atol(at).with_rtol(rt);
    let seen = RefCell::new(vec![]);
    let got = solver.for_each_step(&f, t, &Vector::new([y]), tf, |s| seen.borrow_mut().push(*s));
    let seen = seen.into_inner();
    let (mut time, mut state) = (t, y);
    for s in &seen {
        T::prove("starts where the last one ended", and(vec![eq(s.time_start, time), eq(s.state_start[0], state)]));
        T::prove("slopes are the field's", and(vec![eq(s.derivative_start[0], f(s.time_start, &s.state_start)[0]), eq(s.derivative_end[0], f(s.time_end, &s.state_end)[0])]));
        let d = s.time_end - s.time_start;
        T::prove("moves toward the end, no further than allowed", and(vec![if back { lt(d, T::ZERO) } else { lt(T::ZERO, d) }, if most > 1 { b(true) } else { le(d.abs(), cap + T::EPSILON * (T::ONE + tf.abs())) }, if back { le(tf, s.time_end) } else { le(s.time_end, tf) }]));
        (time, state) = (s.time_end, s.state_end[0]);
    }
    match got {
        Ok(end) => T::prove("done at the end time", and(vec![eq(time, tf), eq(end[0], state)])),
        Err(e) => T::prove("gave up only when the attempts ran out", and(vec![b(e == IntegrateError::DidNotConverge { steps: most }), ne(time, tf)])),
    }
}
/// a step counts only when its embedded error is within the tolerances asked, in the mean square
fn tolerated<T: Scal>() {
    let (h, at, rt) = (T::pos("h"), T::pos("atol"), T::pos("rtol"));
    let e = vecv::<T, 7>("slope");
    let y = T::var("y");
    let (err, end) = embedded(h, y, e.as_array());
    let t = T::var("t");
    let asked = RefCell::new(vec![]);
    let f = |t: T, y: &V<T, 1>| {
        asked.borrow_mut().push((t, y[0]));
        Vector::new([e[(asked.borrow().len() - 1).min(6)]])
    };
    let got = Rk45::<T>::default().with_first_step(h).with_max_steps(1).with_atol(at).with_rtol(rt).solve(&f, t, &Vector::new([y]), t + h);
    let asked = asked.into_inner();
    T::prove("seven stages", b(asked.len() == 7));
    for (k, (time, state)) in asked.iter().enumerate() {
        let (c, a) = stage::<T>(k);
        let want = y + sum(&(0..k).map(|j| a[j] * e[j] * h).collect::<Vec<_>>());
        T::prove("stages where the published pair puts them", and(vec![eq(*time, t + c * h), eq(*state, want)]));
    }
    let size = |k: T| at + rt * k;
    let room = size(y.abs().max(end.abs()));
    match got {
        Ok(v) => T::prove("kept only when close enough", and(vec![le(err * err, room * room), eq(v[0], end)])),
        Err(e) => T::prove("refused only when not", and(vec![b(e == IntegrateError::DidNotConverge { steps: 1 }), gt(err * err, room * room)])),
    }
}
/// the published Dormand–Prince pair: difference of its two answers, and the fifth-order one
fn embedded<T: Scal>(h: T, y: T, k: &[T; 7]) -> (T, T) {
    let five = [(35, 384), (0, 1), (500, 1113), (125, 192), (-2187, 6784), (11, 84), (0, 1)];
    let four = [(5179, 57600), (0, 1), (7571, 16695), (393, 640), (-92097, 339200), (187, 2100), (1, 40)];
    let at = |w: &[(i64, i64); 7]| sum(&(0..7).map(|i| T::q(w[i].0, w[i].1) * k[i] * h).collect::<Vec<_>>());
    (at(&five) - at(&four), y + at(&five))
}
/// node and stage weights of the published pair
fn stage<T: Scal>(k: usize) -> (T, Vec<T>) {
    let node = [(0, 1), (1, 5), (3, 10), (4, 5), (8, 9), (1, 1), (1, 1)];
    let weights: [&[(i64, i64)]; 7] = [
        &[],
        &[(1, 5)],
        &[(3, 40), (9, 40)],
        &[(44, 45), (-56, 15), (32, 9)],
        &[(19372, 6561), (-25360, 2187), (64448, 6561), (-212, 729)],
        &[(9017, 3168), (-355, 33), (46732, 5247), (49, 176), (-5103, 18656)],
        &[(35, 384), (0, 1), (500, 1113), (125, 192), (-2187, 6784), (11, 84)],
    ];
    (T::q(node[k].0, node[k].1), weights[k].iter().map(|w| T::q(w.0, w.1)).collect())
}
fn tolerated_all<T: Scal>() {
    const N: usize = 3;
    let near = |lo, hi| T::rnd(lo, hi, 60) / T::i(7);
    let h = near(1, 9);
    let k: [[T; 7]; N] = std::array::from_fn(|_| std::array::from_fn(|_| near(-9, 9)));
    let y: [T; N] = std::array::from_fn(|_| near(-9, 9));
    let (at, rt) = (near(1, 5), near(1, 5));
    // tolerances set so that the error comes out on a chosen side
    let side = T::q([50, 95, 105, 300][T::rndi(4)], 100);
    let mut sq = T::ZERO;
    for i in 0..N {
        let (e, end) = embedded(h, y[i], &k[i]);
        sq = sq + (e / (at + rt * y[i].abs().max(end.abs()))).powi(2);
    }
    let scale = (sq / T::i(N as i64)).sqrt() / side;
    let calls = RefCell::new(0);
    let f = |_: T, _: &V<T, N>| {
        *calls.borrow_mut() += 1;
        Vector::from_fn(|i| k[i][*calls.borrow() - 1])
    };
    let got = Rk45::<T>::default().with_first_step(h).with_max_steps(1).with_rtol(rt * scale).with_atol(at * scale).solve(&f, T::ZERO, &Vector::new(y), h);
    T::prove("kept exactly when the mean square is within", b(got.is_ok() == T::holds(lt(side, T::ONE))));
}
fn adaptive_refusals<T: Scal>() {
    let (t, w, y) = (T::var("t"), T::pos("w"), vecv::<T, 2>("y"));
    let s = Rk45::<T>::default();
    let ill = IntegrateError::LimitsIllDefined;
    let same = |r: Result<V<T, 2>, IntegrateError>, e: IntegrateError| b(r.err() == Some(e));
    T::prove("no span", same(s.solve(&field::<T>, t, &y, t), ill));
    let x = T::special("t");
    T::prove("bad start", same(s.solve(&field::<T>, x, &y, t), ill));
    T::prove("bad end", same(s.solve(&field::<T>, t, &y, x), ill));
    let nf = IntegrateError::NonFinite;
    T::prove("bad state", same(s.solve(&field::<T>, t, &Vector::new([y[0], x]), t + w), nf));
    T::prove("bad field", same(s.solve(&|t, y| Vector::new([x, field(t, y)[1]]), t, &y, t + w), nf));
    T::prove("no attempts", same(Rk45::<T>::default().with_first_step(w).with_max_steps(0).solve(&field::<T>, t, &y, t + w), IntegrateError::DidNotConverge { steps: 0 }));
    let s = Rk45::<T>::default().with_first_step(w).with_max_steps(1);
    let k = 2 + T::choose("call", 6);
    let calls = RefCell::new(0);
    let late = |t: T, y: &V<T, 2>| {
        *calls.borrow_mut() += 1;
        let v = field(t, y);
        if *calls.borrow() == k { Vector::new([v[0], x]) } else { v }
    };
    T::prove("field goes bad inside a step", same(s.solve(&late, t, &y, t + w), nf));
    let blank = [vecv::<T, 2>("out"); 3];
    let u = T::pos("u");
    let grid = |times: &[T], e: IntegrateError| {
        let mut out = blank;
        let r = Rk45::<T>::default().solve_on_grid(&field::<T>, t, &y, times, &mut out[..times.len().min(3)]);
        and(vec![b(r.err() == Some(e)), and((0..3).map(|k| ve(out[k], blank[k])).collect())])
    };
    T::prove("too few places", b(s.solve_on_grid(&field::<T>, t, &y, &[t, t + w], &mut [blank[0]; 1]).err() == Some(ill)));
    T::prove("too many places", b(s.solve_on_grid(&field::<T>, t, &y, &[t + w], &mut [blank[0]; 2]).err() == Some(ill)));
    T::prove("nothing asked", b(s.solve_on_grid(&field::<T>, t, &y, &[], &mut []).is_ok()));
    T::prove("out of order", grid(&[t + w + u, t + w, t + w + u + u], ill));
    T::prove("before the start", grid(&[t - u, t + w], ill));
    T::prove("after the end", grid(&[t + w + u, t + w], ill));
    T::prove("both sides of the start", grid(&[t + w, t - u], ill));
    T::prove("bad time", and(vec![grid(&[t, x, t + w], ill), grid(&[x, t + w], ill), grid(&[t + w, x], ill)]));
}
/// samples on a grid come from the very steps the solver takes
fn grid<T: Scal>() {
    let k = T::rnd(-3, 3, 4);
    let w = T::rnd(1, 4, 3);
    let f = |t: T, y: &V<T, 2>| Vector::new([y[1] * k, -y[0] + t.sin()]);
    let y0 = Vector::new([T::rnd(-2, 2, 8), T::rnd(-2, 2, 8)]);
    let t0 = T::rnd(-5, 5, 7);
    let tf = t0 + T::rnd(1, 40, 9) * if T::rndi(2) == 0 { T::ONE } else { -T::ONE };
    let tol = [1e-3, 1e-6, 1e-9][T::rndi(3)];
    let solver = || {
        let s = Rk45::<T>::default().with_rtol(T::from_f64(tol)).with_atol(T::from_f64(tol * 1e-3));
        if T::holds(lt(T::i(3), w)) { s.with_max_step(w / T::i(9)) } else { s }
    };
    let s = solver();
    let steps = RefCell::new(vec![]);
    let end = s.for_each_step(&f, t0, &y0, tf, |st| steps.borrow_mut().push(*st)).unwrap();
    let steps = steps.into_inner();
    T::prove("solve agrees", and(vec![ve(s.solve(&f, t0, &y0, tf).unwrap(), end), eq(steps[steps.len() - 1].time_end, tf), eq(steps[0].time_start, t0)]));
    for st in &steps {
        for (t, y, d) in [(st.time_start, st.state_start, st.derivative_start), (st.time_end, st.state_end, st.derivative_end)] {
            for i in 0..2 {
                T::prove_close("slopes are the field's", d[i], f(t, &y)[i], 1e-12);
            }
        }
    }
    T::prove("chain", and(steps.windows(2).map(|p| and(vec![eq(p[0].time_end, p[1].time_start), ve(p[0].state_end, p[1].state_start), ve(p[0].derivative_end, p[1].derivative_start)])).collect()));
    if T::holds(lt(T::i(3), w)) {
        T::prove("step cap", and(steps.iter().map(|st| le((st.time_end - st.time_start).abs(), w / T::i(9) * (T::ONE + T::q(1, 1000000000)))).collect()));
    }
    let n = 1 + T::rndi(7);
    let mut times: Vec<T> = (0..n).map(|_| t0 + (tf - t0) * T::rnd(0, 1, 64)).collect();
    times.push(tf);
    times.push(t0);
    times.push(steps[steps.len() / 2].time_end);
    times.sort_by(|a, b| ((*a - t0).abs()).partial_cmp(&(*b - t0).abs()).unwrap());
    let mut out = vec![y0; times.len()];
    s.solve_on_grid(&f, t0, &y0, &times, &mut out).unwrap();
    for (q, o) in times.iter().zip(&out) {
        let host: Vec<&Step<2, T>> = steps.iter().filter(|st| T::holds(le((*q - st.time_start).abs() + (*q - st.time_end).abs(), (st.time_end - st.time_start).abs() * (T::ONE + T::q(1, 1000000000))))).collect();
        T::prove("some step holds it", b(!host.is_empty()));
        for st in host {
            let v = st.interpolate(*q);
            for i in 0..2 {
                T::prove_close("sample", o[i], v[i], 1e-9);
            }
        }
    }
}
/// fifth order, by Taylor coefficients of one accepted step; a fourth-order error estimate
fn adaptive_order<T: Scal>() {
    type J<T> = Jet<T, 7>;
    let co: Vec<T> = (0..24).map(|_| T::rnd(-4, 4, 5) / T::i(4)).collect();
    let k = |c: T| {
        let mut j = J::<T>::ZERO;
        j.coeffs[0] = c;
        j
    };
    let f = |t: J<T>, y: &[J<T>; 2]| -> [J<T>; 2] {
        let m = [k(T::ONE), y[0], y[1], y[0] * y[0], y[0] * y[1], y[1] * y[1], t, t * t * y[0], t * y[1], y[0] * y[0] * y[0], t * t * t, y[1] * y[1] * y[0]];
        core::array::from_fn(|i| (0..12).fold(J::<T>::ZERO, |s, n| s + k(co[i * 12 + n]) * m[n]))
    };
    let mut h = J::<T>::ZERO;
    h.coeffs[1] = T::ONE;
    // sitting at a tiny positive step, so that the solver has a direction; its effect is below the tolerance
    h.coeffs[0] = T::from_f64(1e-12);
    let mut y = [J::<T>::ZERO; 2];
    for n in 0..6 {
        let mut t = J::<T>::ZERO;
        t.coeffs[1] = T::ONE;
        let d = f(t, &y);
        for i in 0..2 {
            y[i].coeffs[n + 1] = d[i].coeffs[n] / T::i(n as i64 + 1);
        }
    }
    let s = Rk45::<J<T>>::default().with_first_step(k(T::ONE));
    let got = s.solve(&|t: J<T>, y: &V<J<T>, 2>| Vector::new(f(t, &[y[0], y[1]])), J::<T>::ZERO, &Vector::new([J::<T>::ZERO; 2]), h).unwrap();
    for i in 0..2 {
        for n in 0..6 {
            T::prove_close("Taylor series to fifth order", got[i].coeffs[n], y[i].coeffs[n], 1e-8);
        }
    }
}
/// the answer is as close as the tolerance asked
fn adaptive_accuracy<T: Scal>() {
    let r = T::rnd(1, 8, 4) * if T::rndi(2) == 0 { T::ONE } else { -T::ONE };
    let w = T::rnd(1, 3, 5) * if T::rndi(2) == 0 { T::ONE } else { -T::ONE };
    let t0 = T::rnd(-2, 2, 4);
    let tol = [1e-4, 1e-6, 1e-8][T::rndi(3)];
    let s = Rk45::<T>::default().with_rtol(T::from_f64(tol)).with_atol(T::from_f64(tol));
    let turn = s.solve(&|_: T, y: &V<T, 2>| Vector::new([y[1] * r, -y[0] * r]), t0, &Vector::new([T::ONE, T::ZERO]), t0 + w).unwrap();
    T::prove_close("turning", turn[0], (r * w).cos(), tol * 60.0);
    T::prove_close("turning", turn[1], -(r * w).sin(), tol * 60.0);
    let fade = s.solve(&|t: T, y: &V<T, 1>| Vector::new([y[0] * t * r / T::i(4)]), t0, &Vector::new([T::ONE]), t0 + w).unwrap();
    let e = t0 + w;
    let want = ((e * e - t0 * t0) * r / T::i(8)).exp();
    let size = T::ONE.max(want);
    T::prove_close("growing", fade[0] / size, want / size, tol * 300.0);
    let floor = Rk45::<T>::default().with_first_step(w.abs()).with_min_step(w.abs() / T::i(2)).with_rtol(T::from_f64(1e-12)).with_atol(T::from_f64(1e-12));
    let sharp = floor.solve(&|t: T, _: &V<T, 1>| Vector::new([(t * T::i(400)).sin() * T::i(400)]), t0, &Vector::new([T::ONE]), t0 + w);
    T::prove("floor on the step", b(sharp.err() == Some(IntegrateError::StepSizeTooSmall)));
}
/// a turn by angle with cosine c and sine s about the unit axis u
fn rodrigues<T: Scal>(u: &[T; 3], c: T, s: T) -> Matrix<3, 3, T> {
    let k = [[T::ZERO, -u[2], u[1]], [u[2], T::ZERO, -u[0]], [-u[1], u[0], T::ZERO]];
    Matrix::new(core::array::from_fn(|i| core::array::from_fn(|j| {
        let id = if i == j { c } else { T::ZERO };
        id + s * k[i][j] + (T::ONE - c) * u[i] * u[j]
    })))
}
fn facing<T: Scal>() -> SO3<T> {
    SO3::from_quaternion(Quaternion::from_array(T::unit::<4>("q")))
}
fn same_turn<T: Scal>(a: SO3<T>, c: SO3<T>) -> P<T> {
    meq(&a.to_matrix(), &c.to_matrix())
}
/// a steady body rate about any axis: the exact turn composed on after, unit length kept
fn attitude<T: Scal>() {
    T::angle_div(2);
    let (q, u) = (facing::<T>(), T::unit::<3>("u"));
    let (w, h) = (T::var_in("w", T::q(1, 10), T::i(3)), T::var_in("h", T::q(1, 10), T::ONE));
    let th = w * h;
    let rate = Vector::new(u.map(|x| x * w));
    let step = ExponentialMap::attitude_step(q, rate, h);
    T::prove("turned by rate times step, in the body frame", meq(&step.to_matrix(), &mm(&q.to_matrix(), &rodrigues(&u, th.cos(), th.sin()))));
    T::prove("still a rotation", eq(step.quaternion().norm_squared(), T::ONE));
    let back = ExponentialMap::attitude_step(step, rate, -h);
    T::prove("a step back undoes it", same_turn(back, q));
    T::prove("no time, no turn", same_turn(ExponentialMap::attitude_step(q, rate, T::ZERO), q));
    T::prove("no rate, no turn", same_turn(ExponentialMap::attitude_step(q, Vector::new([T::ZERO; 3]), h), q));
}
/// a changing rate: the step at the rate half way through
fn attitude_changing<T: Scal>() {
    let q = facing::<T>();
    let (e, h) = (vecv::<T, 3>("e"), T::pos("h"));
    // the half-way rate is what has a clean length, so the start rate is built back from it
    let (u, w) = (T::unit::<3>("u"), T::var_in("w", T::q(1, 10), T::i(3)));
    T::assume(le(T::q(1, 10), h));
    let mid = Vector::new(u.map(|x| x * w));
    let got = ExponentialMap::attitude_step_with_angular_acceleration(q, mid - e * (h / T::TWO), e, h);
    T::prove("half-way rate", same_turn(got, ExponentialMap::attitude_step(q, mid, h)));
    let none = Vector::new([T::ZERO; 3]);
    T::prove("no acceleration", same_turn(ExponentialMap::attitude_step_with_angular_acceleration(q, mid, none, h), ExponentialMap::attitude_step(q, mid, h)));
}
/// a run: the rate is asked for at each node and half a step on, and the half-way rate is used
fn attitude_run<T: Scal>() {
    T::angle_div(4);
    let q = facing::<T>();
    let (t, h) = (T::var("t"), T::var_in("h", T::q(1, 10), T::ONE));
    let n = T::choose("steps", 3);
    let asked = RefCell::new(vec![]);
    let nodes = RefCell::new(vec![]);
    let rates: Vec<[T; 3]> = (0..2 * n).map(|k| {
        let w = T::var_in("w", T::q(1, 10), T::i(3));
        core::array::from_fn(|i| if i == k % 3 { w } else { T::ZERO })
    }).collect();
    let end = ExponentialMap::integrate_attitude(&|t, r: SO3<T>| {
        asked.borrow_mut().push((t, r));
        Vector::new(rates[asked.borrow().len() - 1])
    }, t, q, h, n, |t, r| nodes.borrow_mut().push((t, r)));
    let Ok(end) = end else { return T::prove("accepted", b(false)) };
    let (asked, nodes) = (asked.into_inner(), nodes.into_inner());
    T::prove("a node per step and the start, two rates per step", b(nodes.len() == n + 1 && asked.len() == 2 * n));
    T::prove("starts at the start, ends at the last node", and(vec![eq(nodes[0].0, t), same_turn(nodes[0].1, q), same_turn(nodes[n].1, end)]));
    for k in 0..n {
        let (tk, rk) = nodes[k];
        T::prove("asked at the node", and(vec![eq(tk, t + h * T::i(k as i64)), eq(asked[2 * k].0, tk), same_turn(asked[2 * k].1, rk)]));
        let half = ExponentialMap::attitude_step(rk, Vector::new(rates[2 * k]), h / T::TWO);
        T::prove("asked half a step on", and(vec![eq(asked[2 * k + 1].0, tk + h / T::TWO), same_turn(asked[2 * k + 1].1, half)]));
        T::prove("turned at the half-way rate", same_turn(nodes[k + 1].1, ExponentialMap::attitude_step(rk, Vector::new(rates[2 * k + 1]), h)));
    }
    T::prove("last time", eq(nodes[n].0, t + h * T::i(n as i64)));
}
fn attitude_refusals<T: Scal>() {
    let q = facing::<T>();
    let (t, h) = (T::var("t"), T::pos("h"));
    let still = |_: T, _: SO3<T>| Vector::new([T::ZERO; 3]);
    let e = |r: Result<SO3<T>, IntegrateError>, e: IntegrateError| b(r.err() == Some(e));
    let x = T::special("x");
    T::prove("bad step", e(ExponentialMap::integrate_attitude(&still, t, q, x, 2, |_, _| {}), IntegrateError::NonFinite));
    T::prove("backward step", e(ExponentialMap::integrate_attitude(&still, t, q, -h, 2, |_, _| {}), IntegrateError::NonPositiveTimestep));
    T::prove("no step", e(ExponentialMap::integrate_attitude(&still, t, q, T::ZERO, 2, |_, _| {}), IntegrateError::NonPositiveTimestep));
    let (call, axis) = (T::choose("call", 6), T::choose("axis", 3));
    let asked = RefCell::new(0);
    let nodes = RefCell::new(0);
    let bad = |_: T, _: SO3<T>| {
        *asked.borrow_mut() += 1;
        let mut v = [T::ZERO; 3];
        if *asked.borrow() == call + 1 {
            v[axis] = x;
        }
        Vector::new(v)
    };
    T::prove("bad rate", e(ExponentialMap::integrate_attitude(&bad, t, q, h, 3, |_, _| *nodes.borrow_mut() += 1), IntegrateError::NonFinite));
    T::prove("nothing after it is handed over", b(*nodes.borrow() == 1 + call / 2 && *asked.borrow() == call + 1));
}
/// a rate that changes direction: the run closes on the true attitude with the square of the step
fn attitude_accuracy<T: Scal>() {
    let k: [T; 3] = core::array::from_fn(|_| T::rnd(-2, 2, 8));
    let m: [T; 3] = core::array::from_fn(|_| T::rnd(-2, 2, 8));
    let rate = |t: T, _: SO3<T>| Vector::new([k[0] + m[0] * t, k[1] + m[1] * (t * T::i(2)).sin(), k[2] + m[2] * t.cos()]);
    let q = SO3::from_quaternion(Quaternion::from_array(core::array::from_fn(|i| if i == 0 { T::ONE } else { T::rnd(-1, 1, 8) })));
    let t0 = T::rnd(-1, 1, 4);
    let run = |n: usize| ExponentialMap::integrate_attitude(&rate, t0, q, T::ONE / T::i(n as i64), n, |_, _| {}).unwrap();
    let fine = Rk45::<T>::default().with_rtol(T::from_f64(1e-10)).with_atol(T::from_f64(1e-12)).solve(&|t: T, y: &V<T, 4>| {
        let (w, p) = (rate(t, q), Quaternion::from_array([y[0], y[1], y[2], y[3]]));
        let d = p * Quaternion::from_array([T::ZERO, w[0], w[1], w[2]]);
        Vector::new(d.as_array().map(|v| v / T::TWO))
    }, t0, &Vector::new(q.quaternion().as_array()), t0 + T::ONE).unwrap();
    let off = |r: SO3<T>| {
        let a = r.quaternion().as_array();
        let d = (0..4).fold(T::ZERO, |s, i| s + (a[i] - fine[i]) * (a[i] - fine[i])).sqrt();
        let e = (0..4).fold(T::ZERO, |s, i| s + (a[i] + fine[i]) * (a[i] + fine[i])).sqrt();
        d.min(e)
    };
    T::prove("second order", and(vec![le(off(run(100)), T::q(1, 500)), le(off(run(1000)), T::q(1, 50_000)), le(off(run(4000)), T::q(1, 800_000))]));
    T::prove_close("still a rotation", run(1000).quaternion().norm_squared(), T::ONE, 1e-12);
}
fn main() {
    run::main(
        run::Info { id: "C21", assumptions: &[
            "adaptive steps: the chain of steps is proved for every outcome of one attempt (two in the thorough tier); longer runs, the fifth order of the rounded tableau and the accuracy asked for are sampled",
            "the last step is snapped onto the end time within EPSILON (1 + |end|)",
            "sin and cos of half and quarter angles are tied to those of the angle by the double-angle identities",
        ] },
        vec![
            proof!(rk4_linear, "Rk4::step"),
            proof!(rk4_time, "Rk4::step"),
            proof!(rk4_order, "Rk4::step"),
            proof!(rk4_order_pair, "Rk4::step"),
            proof!(rk4_run, "Rk4::integrate"),
            proof!(hermite, "Step::interpolate"),
            proof!(adaptive, "Rk45::for_each_step"),
            proof!(adaptive_two, "Rk45::for_each_step").slow().limit(400),
            proof!(tolerated, "Rk45::with_atol, with_rtol, for_each_step"),
            sampled!(tolerated_all, 300, "Rk45::with_atol, with_rtol, for_each_step"),
            proof!(adaptive_refusals, "Rk45::for_each_step, Rk45::solve, Rk45::solve_on_grid"),
            proof!(attitude, "ExponentialMap::attitude_step"),
            proof!(attitude_changing, "ExponentialMap::attitude_step_with_angular_acceleration"),
            proof!(attitude_run, "ExponentialMap::integrate_attitude"),
            proof!(attitude_refusals, "ExponentialMap::integrate_attitude"),
            sampled!(attitude_accuracy, 20, "ExponentialMap::integrate_attitude"),
            sampled!(grid, 60, "Rk45::solve_on_grid, Rk45::for_each_step, Rk45::solve"),
            sampled!(adaptive_order, 20, "Rk45::for_each_step"),
            sampled!(adaptive_accuracy, 60, "Rk45::solve"),
        ],
    );
}
