use contracts::*;
use multicalc::error::LinalgError;
use multicalc::linear_algebra::PivotedQr;

/// entries the norm squares directly: neither underflowing nor overflowing
fn mid<T: Scal>(n: &str) -> T {
    let x = T::var(n);
    T::assume(or(vec![
        between(T::q(1, 1_000_000), x, T::i(1_000_000)),
        between(T::i(-1_000_000), x, T::q(-1, 1_000_000)),
    ]));
    x
}
fn mid_mat<T: Scal, const R: usize, const C: usize>(zeros: &[(usize, usize)]) -> Matrix<R, C, T> {
    Matrix::from_fn(|i, j| if zeros.contains(&(i, j)) { T::ZERO } else { mid(&format!("a{i}{j}")) })
}
fn permuted<T: Scal, const R: usize, const C: usize>(a: &Matrix<R, C, T>, p: &[usize; C]) -> Matrix<R, C, T> {
    Matrix::from_fn(|i, j| a[(i, p[j])])
}
fn qr_case<T: Scal, const R: usize, const C: usize>(a: Matrix<R, C, T>, order: bool, solve: bool, scale: T) {
    let f = match PivotedQr::decompose(a) {
        Ok(f) => f,
        Err(_) => {
            T::prove("tall matrices factor", P::B(false));
            return;
        }
    };
    let (q, r, p) = (f.orthogonal(), f.triangular(), f.permutation());
    let mut seen = [false; C];
    p.iter().for_each(|k| seen[*k] = true);
    T::prove("P is a permutation", P::B(seen.iter().all(|x| *x)));
    for i in 0..C {
        for j in 0..i {
            T::prove("R upper", eq(r[(i, j)], T::ZERO));
        }
    }
    T::prove("A P = Q R", meq(&mm(&q, &r), &permuted(&a, &p)));
    T::prove("Q orthonormal", meq(&mm(&tr(&q), &q), &ident()));
    if order {
        for i in 1..C {
            T::prove("pivots ordered", ge(r[(i - 1, i - 1)] * r[(i - 1, i - 1)], r[(i, i)] * r[(i, i)]));
        }
    }
    if !solve {
        return;
    }
    let b = vecv::<T, R>("b");
    match f.solve_least_squares(b) {
        Ok(x) => {
            let res = mv(&a, x.as_array());
            let res: Vec<T> = (0..R).map(|i| res[i] - b[i]).collect();
            for j in 0..C {
                T::prove("normal equations", eq(sum(&(0..R).map(|i| a[(i, j)] * res[i] / scale).collect::<Vec<_>>()), T::ZERO));
            }
        }
        Err(e) => {
            T::prove("documented error", P::B(matches!(e, LinalgError::Singular)));
            let m = r[(0, 0)].abs() * T::EPSILON * T::i(R.max(C) as i64);
            T::prove("refused only when rank deficient", or((0..C).map(|i| le(r[(i, i)].abs(), m)).collect()));
        }
    }
}
fn qr11<T: Scal>() {
    qr_case::<T, 1, 1>(mid_mat(&[]), true, true, T::ONE);
}
fn qr31<T: Scal>() {
    qr_case::<T, 3, 1>(mid_mat(&[]), true, true, T::ONE);
}
fn qr22<T: Scal>() {
    let z: &[(usize, usize)] = match T::choose("zeros", 4) {
        0 => &[],
        1 => &[(0, 0)],
        2 => &[(0, 1), (1, 0)],
        _ => &[(1, 1)],
    };
    let a = mid_mat::<T, 2, 2>(z);
    // regular enough for the partial norm to be down-dated rather than recomputed
    let d = det(&rows(&a));
    let n = |j: usize| a[(0, j)] * a[(0, j)] + a[(1, j)] * a[(1, j)];
    T::assume(gt(d * d, T::q(1, 1_000_000) * n(0) * n(1)));
    qr_case(a, false, true, T::ONE);
}
fn rank_deficient<T: Scal>() {
    // dependent columns, a zero column, a zero matrix
    let k = T::choose("kind", 4);
    let (x, y) = (mid::<T>("x"), mid::<T>("y"));
    let z = T::ZERO;
    let a = match k {
        0 => Matrix::new([[x, x], [y, y], [z, z]]),
        1 => Matrix::new([[x, z], [y, z], [x, z]]),
        2 => Matrix::new([[z, x], [z, y], [z, x]]),
        _ => Matrix::new([[z, z], [z, z], [z, z]]),
    };
    let f = PivotedQr::decompose(a).unwrap();
    T::prove("still factors", meq(&mm(&f.orthogonal(), &f.triangular()), &permuted(&a, &f.permutation())));
    T::prove("solve refused", P::B(matches!(f.solve_least_squares(vecv("b")), Err(LinalgError::Singular))));
    T::prove("reported singular", P::B(!f.into_damped(vecv("b")).is_non_singular() || k == 0));
}
fn wide<T: Scal>() {
    T::prove("wide QR refused", P::B(matches!(PivotedQr::<1, 2, T>::decompose(mat("a")), Err(LinalgError::Underdetermined))));
    T::prove("wide QR refused", P::B(matches!(PivotedQr::<2, 3, T>::decompose(mat("c")), Err(LinalgError::Underdetermined))));
    T::prove("wide SVD refused", P::B(matches!(mat::<T, 1, 2>("d").svd(), Err(LinalgError::Underdetermined))));
    let mut a = Matrix::<3, 2, T>::from_fn(|i, j| T::i((i + 2 * j) as i64));
    let s = T::special("s");
    a[(T::choose("i", 3), T::choose("j", 2))] = s;
    T::prove("non-finite SVD refused", P::B(matches!(a.svd(), Err(LinalgError::NonFinite))));
    T::prove("non-finite pseudo-inverse refused", P::B(matches!(a.pseudo_inverse(), Err(LinalgError::NonFinite))));
    T::prove("non-finite pseudo-inverse refused", P::B(matches!(a.transpose().pseudo_inverse(), Err(LinalgError::NonFinite))));
    let mut e = Matrix::<2, 2, T>::from_fn(|i, j| T::i((i + j) as i64));
    e[(T::choose("i", 2), T::choose("j", 2))] = s;
    T::prove("non-finite eigen refused", P::B(matches!(e.symmetric_eigendecomposition(), Err(LinalgError::NonFinite))));
    let x = T::var("x");
    T::assume(gt(x.abs(), T::q(1, 1000)));
    let mut e = Matrix::<3, 3, T>::from_fn(|i, j| T::i((i + j) as i64));
    let (i, j) = [(0, 1), (0, 2), (1, 2), (1, 0), (2, 0), (2, 1)][T::choose("pair", 6)];
    e[(i, j)] = e[(j, i)] + x;
    T::assume(lt(x.abs(), T::i(1000)));
    T::prove("asymmetric eigen refused", P::B(matches!(e.symmetric_eigendecomposition(), Err(LinalgError::NotSymmetric))));
}
/// damped least squares on an upper-triangular start (every QR reduces to one)
fn damped<T: Scal>() {
    let z: &[(usize, usize)] = if T::choose("zeros", 2) == 0 { &[(1, 0)] } else { &[(0, 1), (1, 0)] };
    let a = mid_mat::<T, 2, 2>(z);
    let n = |j: usize| a[(0, j)] * a[(0, j)] + a[(1, j)] * a[(1, j)];
    let d = det(&rows(&a));
    T::assume(gt(d * d, T::q(1, 1_000_000) * n(0) * n(1)));
    let b = vecv::<T, 2>("b");
    let dl = PivotedQr::decompose(a).unwrap().into_damped(b);
    let k = T::choose("damping", 3);
    let dg = [if k == 1 { T::ZERO } else { T::pos("d0") }, if k == 2 { T::ZERO } else { T::pos("d1") }];
    let (x, s) = dl.solve_with_diagonal(&dg);
    let r = mv(&a, x.as_array());
    for j in 0..2 {
        let g = (0..2).fold(T::ZERO, |t, i| t + a[(i, j)] * (r[i] - b[i]));
        T::prove("damped normal equations", eq(g + dg[j] * dg[j] * x[j], T::ZERO));
    }
    // the factor solves S^T w = rhs: w.w = rhs^T (A^T A + D^2)^-1 rhs in pivot order
    let _ = s;
    let (x, _) = dl.solve_with_zero_diagonal();
    T::prove("undamped solve", eqs(&mv(&a, x.as_array()), b.as_array()));
}
/// the same over dense sampled systems, with every helper of the damped problem
fn qr_sampled<T: Scal>() {
    T::tol(1e-7);
    fn go<T: Scal, const R: usize, const C: usize>() {
        let kind = T::rndi(4);
        let a = Matrix::<R, C, T>::from_fn(|_, _| match kind {
            0 => T::rnd(-3, 3, 1),
            _ => T::rnd(-100, 100, 37),
        });
        let scale = if kind == 3 { T::rnd(1, 1000, 1) * T::rnd(1, 1000, 1) } else { T::ONE };
        let a = mscale(&a, scale);
        // independent reference: normal equations with the closed-form specification solver
        let g = mm(&tr(&a), &a);
        let d = det(&rows(&g));
        let mut gs = T::ONE;
        for i in 0..C {
            gs = gs * g[(i, i)];
        }
        T::assume(gt(d, T::q(1, 1000) * gs + T::q(1, 1000)));
        qr_case(a, true, true, scale);
        let f = PivotedQr::decompose(a).unwrap();
        let b = Vector::<R, T>::from_fn(|_| T::rnd(-10, 10, 3));
        let dl = f.into_damped(b);
        let dg: [T; C] = std::array::from_fn(|_| if T::rndi(4) == 0 { T::ZERO } else { T::rnd(1, 50, 7) });
        let (x, s) = dl.solve_with_diagonal(&dg);
        let r = mv(&a, x.as_array());
        for j in 0..C {
            let q = (0..R).fold(T::ZERO, |t, i| t + a[(i, j)] * (r[i] - b[i]));
            T::prove("damped normal equations", eq((q + dg[j] * dg[j] * x[j]) / scale / scale, T::ZERO));
        }
        let ax = mv(&a, x.as_array());
        T::prove("norm of A x", eq(dl.a_x_norm(&x), dot(&ax, &ax).sqrt()));
        T::prove("full rank reported", P::B(dl.is_non_singular()));
        let bn = b.norm();
        let atb = mv(&tr(&a), b.as_array());
        let cos = (0..C).fold(T::ZERO, |m, j| m.max((atb[j] / bn / (0..R).fold(T::ZERO, |t, i| t + a[(i, j)] * a[(i, j)]).sqrt()).abs()));
        if T::holds(gt(bn, T::ZERO)) {
            T::prove("scaled gradient", eq(dl.max_a_t_b_scaled(bn), cos));
        }
        T::prove("scaled gradient of nothing", eq(dl.max_a_t_b_scaled(T::ZERO), T::ZERO));
        // S^T w = P^T u  =>  w.w = u^T (A^T A + D^2)^-1 u
        let u: [T; C] = std::array::from_fn(|_| T::rnd(-5, 5, 2));
        let p = f.permutation();
        let w = s.solve(std::array::from_fn(|k| u[p[k]]));
        let h = Matrix::<C, C, T>::from_fn(|i, j| g[(i, j)] + if i == j { dg[i] * dg[i] } else { T::ZERO });
        let y = h.solve(Vector::new(u)).unwrap();
        T::prove("factor of A^T A + D^2", eq(dot(&w, &w), dot(&u, y.as_slice())));
    }
    match T::rndi(4) {
        0 => go::<T, 3, 2>(),
        1 => go::<T, 4, 3>(),
        2 => go::<T, 3, 3>(),
        _ => go::<T, 6, 4>(),
    }
}
fn orthonormal<T: Scal, const R: usize, const C: usize>(name: &str, q: &Matrix<R, C, T>) {
    T::prove(name, meq(&mm(&tr(q), q), &ident()));
}
fn svd_case<T: Scal, const R: usize, const C: usize>(a: Matrix<R, C, T>, full: bool, scaled: bool) {
    match a.svd() {
        Ok(f) => {
            let (u, s, v) = (f.left(), f.singular_values(), f.right());
            let back = mm(&Matrix::<R, C, T>::from_fn(|i, j| u[(i, j)] * s[j]), &tr(&v));
            if scaled {
                mclose("A = U S V^T", &back, &a);
            } else {
                T::prove("A = U S V^T", meq(&back, &a));
            }
            orthonormal("V orthonormal", &v);
            if full {
                orthonormal("U orthonormal", &u);
            }
            for i in 0..C {
                T::prove("singular values non-negative", ge(s[i], T::ZERO));
                if i > 0 {
                    T::prove("singular values ordered", ge(s[i - 1], s[i]));
                }
            }
        }
        Err(_) => T::prove("finite tall matrices factor", P::B(false)),
    }
}
fn svd_sampled<T: Scal>() {
    T::tol(1e-8);
    fn go<T: Scal, const R: usize, const C: usize>() {
        let kind = T::rndi(5);
        let mut a = Matrix::<R, C, T>::from_fn(|_, _| match kind {
            0 => T::rnd(-2, 2, 1),
            _ => T::rnd(-100, 100, 37),
        });
        let mut rank = C;
        if kind == 1 && C > 1 {
            for i in 0..R {
                a[(i, C - 1)] = a[(i, 0)] * T::TWO;
            }
            rank = C - 1;
        }
        if kind == 2 && C > 1 {
            let c = T::rndi(C);
            for i in 0..R {
                a[(i, c)] = T::ZERO;
            }
            rank = if C == 1 { 1 } else { C - 1 };
        }
        if kind == 3 {
            a = mscale(&a, T::i(1000000));
        }
        let f = match a.svd() {
            Ok(f) => f,
            Err(_) => return T::prove("finite tall matrices factor", P::B(false)),
        };
        let s = f.singular_values();
        svd_case(a, rank == C && kind != 0, true);
        let p = a.pseudo_inverse().unwrap();
        let pt = a.transpose().pseudo_inverse().unwrap();
        if T::holds(eq(s[0], T::ZERO)) {
            T::prove("zero matrix", and(vec![meq(&a, &Matrix::zeros()), meq(&p, &Matrix::zeros())]));
            return;
        }
        if T::holds(lt(s[rank - 1], T::q(1, 10000) * s[0])) {
            return;
        }
        // scale the Penrose identities so that the tolerance is relative
        let (ap, pa) = (mm(&a, &p), mm(&p, &a));
        T::prove("A A+ A = A", meq(&mscale(&mm(&ap, &a), T::ONE / s[0]), &mscale(&a, T::ONE / s[0])));
        T::prove("A+ A A+ = A+", meq(&mscale(&mm(&pa, &p), s[rank - 1]), &mscale(&p, s[rank - 1])));
        T::prove("A A+ symmetric", meq(&ap, &tr(&ap)));
        T::prove("A+ A symmetric", meq(&pa, &tr(&pa)));
        T::prove("transpose commutes", meq(&mscale(&tr(&pt), s[rank - 1]), &mscale(&p, s[rank - 1])));
        T::prove("method agrees", meq(&mscale(&f.pseudo_inverse(), s[rank - 1]), &mscale(&p, s[rank - 1])));
        if kind != 0 {
            T::prove("rank", P::B(f.rank(T::q(1, 100000) * s[0]) == rank));
        }
        let b = Vector::<R, T>::from_fn(|_| T::rnd(-5, 5, 3));
        let x = f.solve(b);
        let y = mv(&p, b.as_array());
        T::prove("least squares is A+ b", eqs(&x.scale(s[rank - 1]).into_array(), &y.map(|v| v * s[rank - 1])));
        if rank == C && kind != 0 {
            T::prove("condition number", eq(f.condition_number(), s[0] / s[C - 1]));
        }
        // cutting off the smallest value leaves the best lower-rank inverse
        if C > 1 && rank == C && T::holds(gt(s[C - 2], T::q(11, 10) * s[C - 1])) {
            let cut = (s[C - 2] + s[C - 1]) * T::HALF;
            let pc = f.pseudo_inverse_tol(cut);
            let (u, v) = (f.left(), f.right());
            let want = Matrix::<C, R, T>::from_fn(|i, j| sum(&(0..C - 1).map(|k| v[(i, k)] * u[(j, k)] / s[k]).collect::<Vec<_>>()));
            T::prove("truncated pseudo-inverse", meq(&mscale(&pc, s[C - 2]), &mscale(&want, s[C - 2])));
            T::prove("rank counts above the cut", P::B(f.rank(cut) == C - 1));
        }
    }
    match T::rndi(5) {
        0 => go::<T, 2, 2>(),
        1 => go::<T, 3, 2>(),
        2 => go::<T, 3, 3>(),
        3 => go::<T, 5, 4>(),
        _ => go::<T, 4, 1>(),
    }
}
/// `I - 2 v v^T / v.v` for a random `v`
fn reflector<T: Scal, const N: usize>() -> Matrix<N, N, T> {
    let v: [T; N] = std::array::from_fn(|_| T::rnd(1, 40, 8));
    let sgn: [T; N] = std::array::from_fn(|_| if T::rndi(2) == 0 { T::ONE } else { -T::ONE });
    let v: [T; N] = std::array::from_fn(|i| v[i] * sgn[i]);
    let n = sum(&v.map(|x| x * x));
    Matrix::from_fn(|i, j| if i == j { T::ONE } else { T::ZERO } - T::TWO * v[i] * v[j] / n)
}
/// Larger matrices of known singular values: widely graded, or bunched together, in any unit.
fn svd_hard<T: Scal>() {
    T::tol(1e-6);
    let u0 = mm(&mm(&reflector::<T, 8>(), &reflector::<T, 8>()), &reflector::<T, 8>());
    let v0 = mm(&mm(&reflector::<T, 6>(), &reflector::<T, 6>()), &reflector::<T, 6>());
    let kind = T::rndi(3);
    let mut unit = T::ONE;
    for _ in 0..T::rndi(3) * 30 {
        unit = unit * T::HALF;
    }
    let mut d = [T::ONE; 6];
    for i in 1..6 {
        d[i] = d[i - 1] * match kind {
            0 => T::q(1, 50),
            1 => T::q(99, 100),
            _ => T::q(1, 3),
        };
    }
    let a = Matrix::<8, 6, T>::from_fn(|i, j| sum(&(0..6).map(|k| u0[(i, k)] * d[k] * v0[(j, k)]).collect::<Vec<_>>()) * unit);
    let Ok(f) = a.svd() else { return T::prove("finite tall matrices factor", P::B(false)) };
    let (u, s, v) = (f.left(), f.singular_values(), f.right());
    let back = mm(&Matrix::<8, 6, T>::from_fn(|i, j| u[(i, j)] * s[j] / unit), &tr(&v));
    T::prove("A = U S V^T", meq(&back, &mscale(&a, T::ONE / unit)));
    orthonormal("U orthonormal", &u);
    orthonormal("V orthonormal", &v);
    T::prove("singular values are the known ones", eqs(&s.scale(T::ONE / unit).into_array(), &d));
    for i in 0..6 {
        // graded values keep digits of their own
        T::prove("small singular values too", le((s[i] / unit - d[i]).abs(), d[i] * T::q(1, 100000)));
    }
    T::prove("full rank pseudo-inverse is a left inverse", meq(&mm(&a.pseudo_inverse().unwrap(), &a), &ident()));
    let x = Vector::<6, T>::from_fn(|_| T::rnd(-5, 5, 3));
    let got = f.solve(Vector::new(mv(&a, x.as_array())));
    T::prove("consistent systems are solved", eqs(got.as_slice(), x.as_slice()));
}
fn svd_small<T: Scal>() {
    // diagonal and one-column matrices: no iteration error at all
    T::merge(false);
    let (x, y) = (T::var("x"), T::var("y"));
    let z = T::ZERO;
    match T::choose("shape", 3) {
        0 => {
            T::assume(and(vec![ne(x, z), ne(y, z)]));
            svd_case::<T, 2, 2>(Matrix::new([[x, z], [z, y]]), true, false)
        }
        1 => {
            T::assume(ne(x, z));
            svd_case::<T, 2, 1>(Matrix::new([[x], [y]]), true, false)
        }
        _ => {
            svd_case::<T, 2, 2>(Matrix::new([[z, x], [z, z]]), false, false);
            let f = Matrix::new([[x, z], [z, z]]).svd().unwrap();
            T::prove("singular matrix has infinite condition", same(f.condition_number(), T::INFINITY));
        }
    }
}
fn eig_case<T: Scal, const N: usize>(a: Matrix<N, N, T>, clamp: bool) {
    let f = match a.symmetric_eigendecomposition() {
        Ok(f) => f,
        Err(_) => return T::prove("symmetric matrices decompose", P::B(false)),
    };
    let (l, v) = (f.eigenvalues(), f.eigenvectors());
    let back = mm(&Matrix::<N, N, T>::from_fn(|i, j| v[(i, j)] * l[j]), &tr(&v));
    if clamp {
        mclose("A = V D V^T", &back, &a);
    } else {
        T::prove("A = V D V^T", meq(&back, &a));
    }
    orthonormal("V orthonormal", &v);
    for i in 1..N {
        T::prove("eigenvalues ordered", ge(l[i - 1], l[i]));
    }
    T::prove("determinant", eq(f.determinant(), det(&rows(&a))));
    T::prove("positive definite", P::B(f.is_positive_definite() == T::holds(gt(l[N - 1], T::ZERO))));
    if !clamp {
        return;
    }
    let m = T::var("floor");
    let c = f.clamped(m);
    let want = Matrix::<N, N, T>::from_fn(|i, j| v[(i, j)] * if T::holds(gt(l[j], m)) { l[j] } else { m });
    T::prove("clamped", meq(&c, &mm(&want, &tr(&v))));
    T::prove("clamped is symmetric", msame(&c, &tr(&c)));
}
fn eig2<T: Scal>() {
    let (x, y, g) = (T::var("x"), T::var("y"), T::var("g"));
    let z = T::ZERO;
    let kind = T::choose("kind", 3);
    let a = match kind {
        0 => Matrix::new([[x, z], [z, y]]),
        1 => Matrix::new([[x, g], [g, x]]),
        _ => {
            T::assume(eq(g, T::ONE));
            Matrix::new([[x, T::ONE], [T::ONE, z]])
        }
    };
    let m = x.abs().max(y.abs()).max(g.abs());
    T::assume(or(vec![eq(g, z), gt(g.abs(), T::q(1, 1_000_000) * m)]));
    eig_case(a, kind < 2);
}
fn eig_sampled<T: Scal>() {
    T::tol(1e-8);
    fn go<T: Scal, const N: usize>() {
        let k = T::rndi(4);
        let a = Matrix::<N, N, T>::from_fn(|_, _| match k {
            0 => T::rnd(-2, 2, 1),
            _ => T::rnd(-100, 100, 37),
        });
        let mut s = mscale(&madd(&a, &tr(&a)), T::HALF);
        if k == 1 {
            // repeated eigenvalues
            s = mm(&tr(&a), &a);
            s = madd(&s, &ident());
        }
        if k == 2 {
            s = Matrix::from_fn(|i, j| if i == j || i + 1 == N - j { s[(i, j)] } else { T::ZERO });
        }
        eig_case(s, true);
        let f = s.symmetric_eigendecomposition().unwrap();
        let l = f.eigenvalues();
        let big = (0..N).fold(T::ZERO, |m, i| m.max(l[i].abs()));
        let small = (0..N).fold(big, |m, i| if T::holds(lt(l[i].abs(), m)) { l[i].abs() } else { m });
        if T::holds(gt(small, T::q(1, 100000) * big)) {
            T::prove("condition number", eq(f.condition_number(), big / small));
        }
    }
    match T::rndi(4) {
        0 => go::<T, 2>(),
        1 => go::<T, 3>(),
        2 => go::<T, 4>(),
        _ => go::<T, 6>(),
    }
}
fn eig_singular<T: Scal>() {
    let x = T::var("x");
    let f = Matrix::new([[x, T::ZERO], [T::ZERO, T::ZERO]]).symmetric_eigendecomposition().unwrap();
    T::prove("singular matrix has infinite condition", same(f.condition_number(), T::INFINITY));
    T::prove("not positive definite", P::B(!f.is_positive_definite()));
}
fn main() {
    run::main(
        Info { id: "C02", assumptions: &["QR entries of proofs lie within 1e-6..1e6 in magnitude or are zero, and columns are not nearly parallel (dependent columns are a separate contract)", "SVD and eigendecomposition: proved for the listed small shapes, sampled at f64 for the others"] },
        vec![
            proof!(qr11, "PivotedQr::{decompose,orthogonal,triangular,permutation,solve_least_squares}"),
            proof!(qr31, "PivotedQr::{decompose,orthogonal,triangular,permutation,solve_least_squares}"),
            proof!(qr22, "PivotedQr::{decompose,orthogonal,triangular,permutation,solve_least_squares}"),
            proof!(rank_deficient, "PivotedQr::{decompose,solve_least_squares}"),
            proof!(wide, "PivotedQr::decompose, Matrix::{svd,pseudo_inverse,symmetric_eigendecomposition}"),
            proof!(damped, "PivotedQr::into_damped, DampedLeastSquares::solve_with_diagonal"),
            proof!(svd_small, "Matrix::svd"),
            proof!(eig2, "Matrix::symmetric_eigendecomposition, SymmetricEigendecomposition::{clamped,determinant,is_positive_definite}"),
            proof!(eig_singular, "SymmetricEigendecomposition::{condition_number,is_positive_definite}"),
            sampled!(qr_sampled, 4000, "PivotedQr, DampedLeastSquares, CholeskyFactor"),
            sampled!(svd_sampled, 4000, "Matrix::{svd,pseudo_inverse}, Svd"),
            sampled!(svd_hard, 1000, "Matrix::{svd,pseudo_inverse}, Svd (8x6)"),
            sampled!(eig_sampled, 4000, "Matrix::symmetric_eigendecomposition"),
        ],
    );
}
