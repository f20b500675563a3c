use contracts::*;
use multicalc::discretization::{q_discrete_white_noise, van_loan, zoh};
use multicalc::error::LinalgError;
use multicalc::linear_algebra::{solve_discrete_lyapunov, solve_discrete_riccati};

/// the exponential series after halving, squared back: independent of the Pade form
fn series<T: Scal, const N: usize>(a: &Matrix<N, N, T>) -> Matrix<N, N, T> {
    let k = 14;
    let mut s = *a;
    for _ in 0..k {
        s = mscale(&s, T::HALF);
    }
    let mut t = ident();
    // expm1 form so that squaring loses little accuracy
    let mut e = Matrix::<N, N, T>::zeros();
    for j in 1..9 {
        t = mscale(&mm(&t, &s), T::ONE / T::i(j));
        e = madd(&e, &t);
    }
    for _ in 0..k {
        e = madd(&mscale(&e, T::TWO), &mm(&e, &e));
    }
    madd(&e, &ident())
}
fn expm_nilpotent<T: Scal>() {
    let c = [T::q(1, 8), T::i(3)][T::choose("size", 2)];
    let z = T::ZERO;
    let x = T::var_in("x", -c, c);
    let y = T::var_in("y", -c, c);
    let w = T::var_in("w", -c, c);
    let a = if T::choose("lower", 2) == 0 {
        Matrix::new([[z, x, w], [z, z, y], [z, z, z]])
    } else {
        Matrix::new([[z, z, z], [x, z, z], [w, y, z]])
    };
    let want = madd(&madd(&ident(), &a), &mscale(&mm(&a, &a), T::HALF));
    match a.expm() {
        Ok(e) => T::prove("exp of nilpotent", meq(&e, &want)),
        Err(_) => T::prove("finite matrices have an exponential", P::B(false)),
    }
}
fn expm_zero<T: Scal>() {
    let e = Matrix::<2, 2, T>::zeros().expm().unwrap();
    T::prove("exp 0 = I", meq(&e, &ident()));
    let mut a = Matrix::<2, 2, T>::from_fn(|i, j| T::i((i + j) as i64));
    a[(T::choose("i", 2), T::choose("j", 2))] = T::special("s");
    T::prove("non-finite refused", P::B(matches!(a.expm(), Err(LinalgError::NonFinite))));
}
/// e^x e^-x = 1 exactly for the rational approximant, and e^x is increasing through 1
fn expm_scalar<T: Scal>() {
    let x = T::var_in("x", T::i(-2), T::i(2));
    let e = Matrix::new([[x]]).expm();
    let f = Matrix::new([[-x]]).expm();
    match (e, f) {
        (Ok(e), Ok(f)) => {
            T::prove("inverse of the opposite", eq(e[(0, 0)] * f[(0, 0)], T::ONE));
            T::prove("positive", gt(e[(0, 0)], T::ZERO));
            // bracket by the Taylor polynomials of even/odd order
            let mut s = T::ONE;
            let mut t = T::ONE;
            for k in 1..14 {
                t = t * x / T::i(k);
                s = s + t;
            }
            T::prove("close to the series", le((e[(0, 0)] - s).abs(), T::q(1, 1_000_000)));
        }
        _ => T::prove("accepted", P::B(false)),
    }
}
fn rndm<T: Scal, const R: usize, const C: usize>(lo: i64, hi: i64, den: i64) -> Matrix<R, C, T> {
    Matrix::from_fn(|_, _| T::rnd(lo, hi, den))
}
fn expm_sampled<T: Scal>() {
    T::tol(1e-9);
    fn go<T: Scal, const N: usize>() {
        let s = [T::q(1, 1000), T::q(1, 10), T::ONE, T::i(5)][T::rndi(4)];
        let a = mscale(&rndm::<T, N, N>(-10, 10, 7), s / T::i(10));
        match a.expm() {
            Ok(e) => mclose("exp agrees with its series", &e, &series(&a)),
            Err(_) => T::prove("finite matrices have an exponential", P::B(false)),
        }
    }
    match T::rndi(4) {
        0 => go::<T, 1>(),
        1 => go::<T, 2>(),
        2 => go::<T, 3>(),
        _ => go::<T, 6>(),
    }
}
fn zoh_chain<T: Scal>() {
    let c = [T::q(1, 8), T::ONE][T::choose("size", 2)];
    let dt = T::var_in("dt", T::ZERO, c);
    let a = T::var_in("a", -T::ONE, T::ONE);
    let (p, q) = (T::var_in("p", -T::ONE, T::ONE), T::var_in("q", -T::ONE, T::ONE));
    match zoh::<2, 1, 3, T>(Matrix::new([[T::ZERO, a], [T::ZERO, T::ZERO]]), Matrix::new([[p], [q]]), dt) {
        Ok((f, g)) => {
            T::prove("F = exp(A dt)", meq(&f, &Matrix::new([[T::ONE, a * dt], [T::ZERO, T::ONE]])));
            T::prove("G = int exp(A t) B", meq(&g, &Matrix::new([[p * dt + a * q * dt * dt * T::HALF], [q * dt]])));
        }
        Err(_) => T::prove("accepted", P::B(false)),
    }
}
fn zoh_lower<T: Scal>() {
    let dt = T::var_in("dt", T::ZERO, T::q(1, 4));
    let a = T::var_in("a", -T::ONE, T::ONE);
    let b = Matrix::<2, 2, T>::from_fn(|i, j| T::i((1 + i + 2 * j) as i64) / T::i(5));
    match zoh::<2, 2, 4, T>(Matrix::new([[T::ZERO, T::ZERO], [a, T::ZERO]]), b, dt) {
        Ok((f, g)) => {
            T::prove("F = exp(A dt)", meq(&f, &Matrix::new([[T::ONE, T::ZERO], [a * dt, T::ONE]])));
            let want = Matrix::<2, 2, T>::from_fn(|i, j| b[(i, j)] * dt + if i == 1 { a * b[(0, j)] * dt * dt * T::HALF } else { T::ZERO });
            T::prove("G = int exp(A t) B", meq(&g, &want));
        }
        Err(_) => T::prove("accepted", P::B(false)),
    }
}
fn van_loan_chain<T: Scal>() {
    let c = [T::q(1, 8), T::ONE][T::choose("size", 2)];
    let dt = T::var_in("dt", T::ZERO, c);
    let q: Matrix<2, 2, T> = Matrix::new([[T::q(1, 2), T::q(1, 3)], [T::q(1, 3), T::q(3, 4)]]);
    let s = T::var_in("s", T::ZERO, T::ONE);
    let q = mscale(&q, s);
    match van_loan::<2, 4, T>(Matrix::new([[T::ZERO, T::ONE], [T::ZERO, T::ZERO]]), q, dt) {
        Ok((f, d)) => {
            T::prove("F = exp(A dt)", meq(&f, &Matrix::new([[T::ONE, dt], [T::ZERO, T::ONE]])));
            let (t2, t3) = (dt * dt, dt * dt * dt);
            let o = q[(0, 1)] * dt + q[(1, 1)] * t2 * T::HALF;
            let want = Matrix::new([
                [q[(0, 0)] * dt + q[(0, 1)] * t2 + q[(1, 1)] * t3 / T::i(3), o],
                [o, q[(1, 1)] * dt],
            ]);
            T::prove("Q_d = int F Q F^T", meq(&d, &want));
        }
        Err(_) => T::prove("accepted", P::B(false)),
    }
}
fn timestep<T: Scal>() {
    let a = Matrix::new([[T::ZERO, T::ONE], [T::ZERO, T::ZERO]]);
    let dt = if T::choose("kind", 2) == 0 { -T::pos("dt") } else { T::special("s") };
    T::prove("zoh refuses", P::B(matches!(zoh::<2, 2, 4, T>(a, a, dt), Err(LinalgError::InvalidTimestep))));
    T::prove("van loan refuses", P::B(matches!(van_loan::<2, 4, T>(a, a, dt), Err(LinalgError::InvalidTimestep))));
    let mut b = a;
    b[(T::choose("i", 2), T::choose("j", 2))] = T::special("e");
    let ok = T::q(1, 4);
    T::prove("zoh refuses non-finite", P::B(matches!(zoh::<2, 2, 4, T>(b, a, ok), Err(LinalgError::NonFinite))));
    T::prove("zoh refuses non-finite", P::B(matches!(zoh::<2, 2, 4, T>(a, b, ok), Err(LinalgError::NonFinite))));
    T::prove("van loan refuses non-finite", P::B(van_loan::<2, 4, T>(b, a, ok).is_err() && van_loan::<2, 4, T>(a, b, ok).is_err()));
    let (f, g) = zoh::<2, 2, 4, T>(a, a, T::ZERO).unwrap();
    T::prove("zero step holds", and(vec![meq(&f, &ident()), meq(&g, &Matrix::zeros())]));
    let (f, q) = van_loan::<2, 4, T>(a, a, T::ZERO).unwrap();
    T::prove("zero step adds no noise", and(vec![meq(&f, &ident()), meq(&q, &Matrix::zeros())]));
}
fn white<T: Scal>() {
    let (dt, v) = (T::var("dt"), T::var("v"));
    let (h, s) = (dt * dt / T::i(2), dt * dt * dt / T::i(6));
    fn outer<T: Scal, const N: usize>(name: &str, q: Matrix<N, N, T>, g: [T; N], v: T) {
        T::prove(name, meq(&q, &Matrix::from_fn(|i, j| g[i] * g[j] * v)));
    }
    outer("white noise of order 2", q_discrete_white_noise::<2, T>(dt, v), [h, dt], v);
    outer("white noise of order 3", q_discrete_white_noise::<3, T>(dt, v), [h, dt, T::ONE], v);
    outer("white noise of order 4", q_discrete_white_noise::<4, T>(dt, v), [s, h, dt, T::ONE], v);
}
fn disc_sampled<T: Scal>() {
    T::tol(1e-8);
    let dt = T::rnd(0, 200, 7) / T::i(100);
    let (a, b, m) = (rndm::<T, 3, 3>(-2, 2, 9), rndm::<T, 3, 2>(-2, 2, 9), rndm::<T, 3, 3>(-2, 2, 5));
    let q = mm(&m, &tr(&m));
    // Simpson's rule over the exponential
    let n = 400;
    let h = dt / T::i(n);
    let step = series(&mscale(&a, h));
    let mut e = ident::<T, 3>();
    let mut g = Matrix::<3, 2, T>::zeros();
    let mut d = Matrix::<3, 3, T>::zeros();
    for k in 0..=n {
        let w = T::i(if k == 0 || k == n { 1 } else if k % 2 == 1 { 4 } else { 2 }) * h / T::i(3);
        g = madd(&g, &mscale(&mm(&e, &b), w));
        d = madd(&d, &mscale(&mm(&mm(&e, &q), &tr(&e)), w));
        if k < n {
            e = mm(&e, &step);
        }
    }
    let (f1, g1) = zoh::<3, 2, 5, T>(a, b, dt).unwrap();
    mclose("zoh F", &f1, &e);
    mclose("zoh G", &g1, &g);
    let (f2, d2) = van_loan::<3, 6, T>(a, q, dt).unwrap();
    mclose("van loan F", &f2, &e);
    mclose("van loan Q", &d2, &d);
}
fn small<T: Scal, const R: usize, const C: usize>(name: &str, r: &Matrix<R, C, T>, scale: T) {
    for x in rows(r).into_iter().flatten() {
        T::prove(name, le(x.abs(), T::q(1, 10_000_000_000) * scale));
    }
}
fn lyap_res<T: Scal, const N: usize>(a: &Matrix<N, N, T>, q: &Matrix<N, N, T>, p: &Matrix<N, N, T>) -> Matrix<N, N, T> {
    madd(&msub(&mm(&mm(&tr(a), p), a), p), q)
}
fn lyap_nilpotent<T: Scal>() {
    let c = T::i(4);
    let a = Matrix::new([[T::ZERO, T::var_in("a", -c, c)], [T::ZERO, T::ZERO]]);
    let (x, y, w) = (T::var_in("x", -c, c), T::var_in("y", -c, c), T::var_in("w", -c, c));
    let q = Matrix::new([[x, y], [y, w]]);
    match solve_discrete_lyapunov(a, q) {
        Ok(p) => {
            small("residual", &lyap_res(&a, &q, &p), T::ONE);
            T::prove("symmetric", eq(p[(0, 1)], p[(1, 0)]));
        }
        Err(_) => T::prove("a contraction is solved", P::B(false)),
    }
}
fn lyap_exact<T: Scal>() {
    fn go<T: Scal, const N: usize>() {
        let a = mscale(&rndm::<T, N, N>(-4, 4, 1), T::q(1, 5 * N as i64));
        let m = rndm::<T, N, N>(-3, 3, 1);
        let q = madd(&m, &tr(&m));
        match solve_discrete_lyapunov(a, q) {
            Ok(p) => {
                small("residual", &lyap_res(&a, &q, &p), T::i(10));
                T::prove("symmetric", msame(&p, &tr(&p)));
            }
            Err(_) => T::prove("a contraction is solved", P::B(false)),
        }
    }
    match T::rndi(3) {
        0 => go::<T, 1>(),
        1 => go::<T, 2>(),
        _ => go::<T, 3>(),
    }
}
fn lyap_sampled<T: Scal>() {
    fn go<T: Scal, const N: usize>() {
        let a = mscale(&rndm::<T, N, N>(-10, 10, 7), T::q(99, 1000 * N as i64));
        let m = rndm::<T, N, N>(-3, 3, 4);
        let q = madd(&m, &tr(&m));
        match solve_discrete_lyapunov(a, q) {
            Ok(p) => {
                let s = rows(&p).into_iter().flatten().fold(T::ONE, |t, x| t.max(x.abs()));
                small("residual", &lyap_res(&a, &q, &p), s);
                T::prove("symmetric", msame(&p, &tr(&p)));
            }
            Err(_) => T::prove("a contraction is solved", P::B(false)),
        }
        // an expanding direction is reported, not solved
        let mut u = a;
        let k = T::rndi(N);
        for j in 0..N {
            u[(k, j)] = if j == k { T::rnd(1, 3, 4) } else { T::ZERO };
        }
        T::prove("no contraction, no solution", P::B(matches!(solve_discrete_lyapunov(u, ident()), Err(LinalgError::DidNotConverge { .. }))));
    }
    match T::rndi(3) {
        0 => go::<T, 1>(),
        1 => go::<T, 2>(),
        _ => go::<T, 4>(),
    }
}
fn dare_res<T: Scal, const N: usize, const M: usize>(a: &Matrix<N, N, T>, b: &Matrix<N, M, T>, q: &Matrix<N, N, T>, r: &Matrix<M, M, T>, p: &Matrix<N, N, T>) -> Option<(Matrix<N, N, T>, Matrix<M, N, T>)> {
    let w = madd(r, &mm(&mm(&tr(b), p), b));
    let k = mm(&w.inverse().ok()?, &mm(&mm(&tr(b), p), a));
    let res = madd(&msub(&msub(&mm(&mm(&tr(a), p), a), p), &mm(&mm(&mm(&tr(a), p), b), &k)), q);
    Some((res, k))
}
fn dare_exact<T: Scal>() {
    let (a, b) = (T::rnd(-20, 20, 9), T::rnd(1, 9, 4));
    let (q, r) = (T::rnd(1, 9, 5), T::rnd(1, 9, 5));
    let one = |x: T| Matrix::new([[x]]);
    match solve_discrete_riccati(one(a), one(b), one(q), one(r)) {
        Ok(p) => {
            let (res, k) = dare_res(&one(a), &one(b), &one(q), &one(r), &p).unwrap();
            small("residual", &res, T::i(100));
            T::prove("positive", gt(p[(0, 0)], T::ZERO));
            T::prove("closed loop is stable", lt((a - b * k[(0, 0)]).abs(), T::ONE));
        }
        Err(_) => T::prove("a controllable system is solved", P::B(false)),
    }
}
fn dare_sampled<T: Scal>() {
    fn go<T: Scal, const N: usize, const M: usize>() {
        // stable plant (always stabilisable), or one fully actuated
        let full = N == M && T::rndi(2) == 0;
        let a = mscale(&rndm::<T, N, N>(-10, 10, 7), if full { T::q(3, 10) } else { T::q(95, 1000 * N as i64) });
        let b = if full { madd(&Matrix::from_fn(|i, j| if i == j { T::i(3) } else { T::ZERO }), &rndm::<T, N, M>(-1, 1, 5).scale(T::q(1, 2))) } else { rndm::<T, N, M>(-3, 3, 5) };
        let (m, n) = (rndm::<T, N, N>(-3, 3, 4), rndm::<T, M, M>(-3, 3, 4));
        let q = madd(&mm(&m, &tr(&m)), &mscale(&ident(), T::q(1, 10)));
        let r = madd(&mm(&n, &tr(&n)), &ident());
        match solve_discrete_riccati(a, b, q, r) {
            Ok(p) => {
                let s = rows(&p).into_iter().flatten().fold(T::ONE, |t, x| t.max(x.abs()));
                let (res, k) = dare_res(&a, &b, &q, &r, &p).unwrap();
                let s2 = s * (T::ONE + rows(&a).into_iter().flatten().fold(T::ZERO, |t, x| t.max(x.abs()))).powi(2);
                for x in rows(&res).into_iter().flatten() {
                    T::prove("residual", le(x.abs(), T::q(1, 10_000_000) * s2));
                }
                T::prove("symmetric", msame(&p, &tr(&p)));
                let mut c = msub(&a, &mm(&b, &k));
                for _ in 0..14 {
                    c = mm(&c, &c);
                }
                for x in rows(&c).into_iter().flatten() {
                    T::prove("closed loop is stable", le(x.abs(), T::q(1, 100)));
                }
                // cost of the closed loop equals P: x^T P x summed along a trajectory
                let mut x = Vector::<N, T>::from_fn(|_| T::rnd(-3, 3, 2)).into_array();
                let want = dot(&x, &mv(&p, &x));
                let mut cost = T::ZERO;
                for _ in 0..3000 {
                    let u = mv(&k, &x).map(|v| -v);
                    cost = cost + dot(&x, &mv(&q, &x)) + dot(&u, &mv(&r, &u));
                    let (ax, bu) = (mv(&a, &x), mv(&b, &u));
                    x = std::array::from_fn(|i| ax[i] + bu[i]);
                }
                T::prove("value of the game", eq(cost, want));
            }
            Err(_) => T::prove("a stabilisable system is solved", P::B(false)),
        }
    }
    match T::rndi(5) {
        0 => go::<T, 1, 1>(),
        1 => go::<T, 2, 1>(),
        2 => go::<T, 2, 2>(),
        3 => go::<T, 3, 2>(),
        _ => go::<T, 3, 3>(),
    }
}
/// the answers are linear in the costs, and what settles does not hang on the costs' unit
fn cost_unit<T: Scal>() {
    fn go<T: Scal, const N: usize, const M: usize>() {
        let mut c = T::ONE;
        for _ in 0..T::rndi(70) {
            c = c * T::HALF;
        }
        let a = mscale(&rndm::<T, N, N>(-10, 10, 7), T::q(99, 1000 * N as i64));
        let m = rndm::<T, N, N>(-3, 3, 4);
        let q = madd(&mm(&m, &tr(&m)), &mscale(&ident(), T::q(1, 10)));
        let same = |p: &Matrix<N, N, T>, pc: &Matrix<N, N, T>| {
            let big = rows(p).into_iter().flatten().fold(T::ZERO, |t, x| t.max(x.abs()));
            let back = mscale(pc, T::ONE / c);
            (0..N).all(|i| (0..N).all(|j| T::holds(le((p[(i, j)] - back[(i, j)]).abs(), T::q(1, 1_000_000) * big))))
        };
        match (solve_discrete_lyapunov(a, q), solve_discrete_lyapunov(a, mscale(&q, c))) {
            (Ok(p), Ok(pc)) => T::prove("a sum in any unit", P::B(same(&p, &pc))),
            _ => T::prove("a contraction is solved in any unit", P::B(false)),
        }
        let mut u = a;
        let k = T::rndi(N);
        for j in 0..N {
            u[(k, j)] = if j == k { T::rnd(2, 4, 4) } else { T::ZERO };
        }
        T::prove("no contraction, no solution, in any unit", P::B(matches!(solve_discrete_lyapunov(u, mscale(&ident(), c)), Err(LinalgError::DidNotConverge { .. }))));
        let b = rndm::<T, N, M>(-3, 3, 5);
        let r = madd(&mscale(&ident(), T::rnd(1, 5, 3)), &mscale(&ident(), T::ONE));
        match (solve_discrete_riccati(a, b, q, r), solve_discrete_riccati(a, b, mscale(&q, c), mscale(&r, c))) {
            (Ok(p), Ok(pc)) => T::prove("a cost in any unit", P::B(same(&p, &pc))),
            _ => T::prove("a stable plant is solved in any unit", P::B(false)),
        }
    }
    match T::rndi(3) {
        0 => go::<T, 1, 1>(),
        1 => go::<T, 2, 1>(),
        _ => go::<T, 3, 2>(),
    }
}
fn refusals<T: Scal>() {
    let a = Matrix::<2, 2, T>::from_fn(|i, j| T::q(1, (2 + i + j) as i64));
    let at = (T::choose("i", 2), T::choose("j", 2));
    let s = T::special("s");
    let bad = |m: &Matrix<2, 2, T>| {
        let mut c = *m;
        c[at] = s;
        c
    };
    let i = ident::<T, 2>();
    let nf = |r: Result<Matrix<2, 2, T>, LinalgError>| P::B(matches!(r, Err(LinalgError::NonFinite)));
    T::prove("riccati refuses non-finite A", nf(solve_discrete_riccati(bad(&a), i, i, i)));
    T::prove("riccati refuses non-finite B", nf(solve_discrete_riccati(a, bad(&i), i, i)));
    T::prove("riccati refuses non-finite Q", nf(solve_discrete_riccati(a, i, bad(&i), i)));
    T::prove("riccati refuses non-finite R", nf(solve_discrete_riccati(a, i, i, bad(&i))));
    T::prove("lyapunov refuses non-finite A", nf(solve_discrete_lyapunov(bad(&a), i)));
    T::prove("lyapunov refuses non-finite Q", nf(solve_discrete_lyapunov(a, bad(&i))));
    let d = T::var_in("d", T::q(1, 1000), T::i(5));
    let mut skew = i;
    if at.0 != at.1 {
        skew[at] = if T::choose("neg", 2) == 0 { d } else { -d };
        let ns = |r: Result<Matrix<2, 2, T>, LinalgError>| P::B(matches!(r, Err(LinalgError::NotSymmetric)));
        T::prove("riccati refuses asymmetric Q", ns(solve_discrete_riccati(a, i, skew, i)));
        T::prove("riccati refuses asymmetric R", ns(solve_discrete_riccati(a, i, i, skew)));
        T::prove("lyapunov refuses asymmetric Q", ns(solve_discrete_lyapunov(a, skew)));
    }
    let mut indefinite = i;
    indefinite[(at.0, at.0)] = -T::nonneg("r");
    T::prove("riccati refuses indefinite R", P::B(matches!(solve_discrete_riccati(a, i, i, indefinite), Err(LinalgError::NotPositiveDefinite))));
}
fn unreachable_unstable<T: Scal>() {
    // an unstable direction the input cannot push
    let g = T::rnd(11, 40, 3) / T::i(10);
    let a = Matrix::new([[g, T::ZERO], [T::ZERO, T::rnd(-5, 5, 3) / T::i(10)]]);
    let b = Matrix::new([[T::ZERO], [T::ONE]]);
    T::prove("no steady answer is reported", P::B(solve_discrete_riccati(a, b, ident(), Matrix::new([[T::ONE]])).is_err()));
}
fn main() {
    run::main(
        Info { id: "C03", assumptions: &["symbolic matrices are nilpotent chains or scalars of bounded size; general matrices are sampled at f64 or evaluated exactly"] },
        vec![
            proof!(expm_nilpotent, "Matrix::expm"),
            proof!(expm_zero, "Matrix::expm"),
            proof!(expm_scalar, "Matrix::expm"),
            sampled!(expm_sampled, 3000, "Matrix::expm"),
            proof!(zoh_chain, "zoh"),
            proof!(zoh_lower, "zoh"),
            proof!(van_loan_chain, "van_loan"),
            proof!(timestep, "zoh, van_loan"),
            proof!(white, "q_discrete_white_noise"),
            sampled!(disc_sampled, 300, "zoh, van_loan"),
            proof!(lyap_nilpotent, "solve_discrete_lyapunov"),
            exact!(lyap_exact, 10, "solve_discrete_lyapunov"),
            sampled!(lyap_sampled, 3000, "solve_discrete_lyapunov"),
            exact!(dare_exact, 6, "solve_discrete_riccati"),
            sampled!(dare_sampled, 2000, "solve_discrete_riccati"),
            proof!(refusals, "solve_discrete_riccati, solve_discrete_lyapunov"),
            sampled!(cost_unit, 1000, "solve_discrete_lyapunov, solve_discrete_riccati"),
            sampled!(unreachable_unstable, 50, "solve_discrete_riccati"),
        ],
    );
}
