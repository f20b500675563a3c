use contracts::*;
use multicalc::error::LinalgError;

/// largest absolute entry, by definition: an upper bound that is attained
fn scale_of<T: Scal, const R: usize, const C: usize>(a: &Matrix<R, C, T>) -> T {
    let mut s = T::ZERO;
    for r in rows(a) {
        for x in r {
            s = s.max(x.abs());
        }
    }
    s
}
fn lu_case<T: Scal, const N: usize>(a: Matrix<N, N, T>, thr: bool) {
    T::merge(!thr);
    let b = vecv::<T, N>("b");
    let d = det(&rows(&a));
    match a.lu_decompose() {
        Ok(f) => {
            let (l, u, p) = (f.lower(), f.upper(), f.permutation());
            let mut seen = [false; N];
            for k in p {
                seen[k] = true;
            }
            T::prove("P is a permutation", P::B(seen.iter().all(|x| *x)));
            let s = scale_of(&a);
            for i in 0..N {
                for j in 0..N {
                    if i == j {
                        T::prove("L unit diagonal", eq(l[(i, j)], T::ONE));
                        T::prove("pivots nonzero", ne(u[(i, j)], T::ZERO));
                        if thr {
                            T::prove("pivots above the documented threshold", gt(u[(i, j)].abs(), T::EPSILON * s));
                        }
                    } else if j > i {
                        T::prove("L lower", eq(l[(i, j)], T::ZERO));
                        T::prove("U upper", eq(u[(j, i)], T::ZERO));
                        if N < 4 {
                            T::prove("multipliers bounded by one", between(-T::ONE, l[(j, i)], T::ONE));
                        }
                    }
                }
            }
            let pa = Matrix::from_fn(|i, j| a[(p[i], j)]);
            T::prove("PA = LU", meq(&mm(&l, &u), &pa));
            T::prove("lu determinant", eq(f.determinant(), d));
            T::prove("accepted only when regular", ne(d, T::ZERO));
            let x = f.solve(b);
            T::prove("A x = b", eqs(&mv(&a, x.as_array()), b.as_array()));
            T::prove("A inv = I", meq(&mm(&a, &f.inverse()), &ident()));
            let bm = mat::<T, N, 2>("B");
            T::prove("A X = B", meq(&mm(&a, &f.solve_matrix(bm)), &bm));
        }
        Err(LinalgError::Singular) => T::prove("singular only when det = 0", eq(d, T::ZERO)),
        Err(e) => {
            T::prove("only documented errors", P::B(matches!(e, LinalgError::IllConditioned)));
            T::prove("regular matrix: det nonzero", ne(d, T::ZERO));
        }
    }
}
fn lu1<T: Scal>() {
    lu_case::<T, 1>(mat("a"), true);
}
fn lu2<T: Scal>() {
    lu_case::<T, 2>(mat("a"), true);
}
fn lu3<T: Scal>() {
    lu_case::<T, 3>(mat("a"), false);
}
/// `Matrix::solve` accepts exactly what `lu_decompose` accepts
fn solve3<T: Scal>() {
    T::merge(true);
    let a = mat::<T, 3, 3>("a");
    let b = vecv::<T, 3>("b");
    match a.solve(b) {
        Ok(x) => {
            T::prove("A x = b", eqs(&mv(&a, x.as_array()), b.as_array()));
            T::prove("accepted only when regular", ne(det(&rows(&a)), T::ZERO));
        }
        Err(e) => {
            T::prove("documented errors", P::B(matches!(e, LinalgError::Singular | LinalgError::IllConditioned)));
        }
    }
}
/// a zero column, or dependent rows, are refused as singular
fn lu_singular<T: Scal>() {
    T::merge(true);
    let mut a = mat::<T, 3, 3>("a");
    match T::choose("kind", 4) {
        k if k < 3 => {
            for i in 0..3 {
                a[(i, k)] = T::ZERO;
            }
        }
        _ => {
            let (p, q) = (T::var("p"), T::var("q"));
            for j in 0..3 {
                a[(2, j)] = p * a[(0, j)] + q * a[(1, j)];
            }
        }
    }
    T::prove("never factored", P::B(a.lu_decompose().is_err()));
    T::prove("never solved", P::B(a.solve(vecv("b")).is_err()));
    T::prove("never inverted", P::B(a.inverse().is_err()));
    T::prove("determinant zero", eq(a.determinant(), T::ZERO));
}
/// well-scaled regular matrices are never refused (pivot order arbitrary)
fn lu_accepts<T: Scal>() {
    // P·L·U with |L| <= 1 and pivots at least a millionth of the largest entry
    let p = T::choose("perm", 6);
    let perm = [[0, 1, 2], [0, 2, 1], [1, 0, 2], [1, 2, 0], [2, 0, 1], [2, 1, 0]][p];
    let q = |n: i64| T::q(n, 2);
    let l = [[T::ONE, T::ZERO, T::ZERO], [q(1), T::ONE, T::ZERO], [q(-1), q(1), T::ONE]];
    let u: [[T; 3]; 3] = std::array::from_fn(|i| {
        std::array::from_fn(|j| {
            if i == j {
                let t = T::var_in("d", T::q(1, 1000), T::ONE);
                if T::choose("sign", 2) == 0 { t } else { -t }
            } else if j > i {
                T::q((i + j) as i64, 3)
            } else {
                T::ZERO
            }
        })
    });
    let lu = mm(&Matrix::new(l), &Matrix::new(u));
    let a = Matrix::<3, 3, T>::from_fn(|i, j| lu[(perm[i], j)]);
    T::merge(true);
    T::prove("factored", P::B(a.lu_decompose().is_ok()));
    T::prove("solved", P::B(a.solve(vecv("b")).is_ok()));
    T::merge(false);
    T::prove("inverted", P::B(a.inverse().is_ok()));
}
fn inv_case<T: Scal, const N: usize>() {
    T::merge(true);
    let a = mat::<T, N, N>("a");
    let d = det(&rows(&a));
    T::prove("determinant", eq(a.determinant(), d));
    match a.inverse() {
        Ok(x) => {
            T::prove("A inv = I", meq(&mm(&a, &x), &ident()));
            T::prove("inv A = I", meq(&mm(&x, &a), &ident()));
            T::prove("inverted only when regular", ne(d, T::ZERO));
        }
        Err(e) => T::prove("refused as singular", P::B(matches!(e, LinalgError::Singular))),
    }
}
fn inv1<T: Scal>() {
    inv_case::<T, 1>();
    T::prove("empty determinant", eq(Matrix::<0, 0, T>::new([]).determinant(), T::ONE));
    T::prove("empty inverse", P::B(Matrix::<0, 0, T>::new([]).inverse().is_ok()));
}
fn inv2<T: Scal>() {
    inv_case::<T, 2>();
}
fn inv3<T: Scal>() {
    inv_case::<T, 3>();
}
fn inv4<T: Scal>() {
    inv_case::<T, 4>();
}
/// refusal threshold of the closed forms: relative to the largest entry, scale free
fn inv_threshold<T: Scal, const N: usize>() {
    let m = T::pos("m");
    let neg = T::choose("negative", 2);
    let at = T::choose("largest entry", N * N);
    let a = Matrix::<N, N, T>::from_fn(|i, j| {
        if i * N + j == at {
            if neg == 0 { m } else { -m }
        } else {
            T::var_in(&format!("a{i}{j}"), -m, m)
        }
    });
    let d = det(&rows(&a));
    let mut t = T::EPSILON * T::i(N as i64);
    for _ in 0..N {
        t = t * m;
    }
    match a.inverse() {
        Ok(_) => T::prove("accepted above the threshold", gt(d * d, t * t)),
        Err(_) => T::prove("refused only at or below the threshold", le(d * d, t * t)),
    }
}
fn inv_threshold1<T: Scal>() {
    inv_threshold::<T, 1>();
}
fn inv_threshold2<T: Scal>() {
    inv_threshold::<T, 2>();
}
/// one free entry on a constant matrix: threshold for 3 and 4
fn inv_threshold34<T: Scal>() {
    fn go<T: Scal, const N: usize>() {
        let (r, c) = (T::rndi(N), T::rndi(N));
        let s = T::rnd(1, 50, 1);
        let a = Matrix::<N, N, T>::from_fn(|i, j| {
            if i == r && j == c { T::var("v") } else { T::rnd(-5, 5, 1) * s }
        });
        let d = det(&rows(&a));
        let m = scale_of(&a);
        let mut t = T::EPSILON * T::i(N as i64);
        for _ in 0..N {
            t = t * m;
        }
        match a.inverse() {
            Ok(_) => T::prove("accepted above the threshold", gt(d.abs(), t)),
            Err(_) => T::prove("refused only at or below the threshold", le(d.abs(), t)),
        }
    }
    go::<T, 3>();
    go::<T, 4>();
}
fn lu_free<T: Scal, const N: usize>() {
    let mut a = Matrix::<N, N, T>::from_fn(|_, _| T::rnd(-4, 4, 2));
    let (i, j) = (T::rndi(N), T::rndi(N));
    a[(i, j)] = T::var("v");
    let (i, j) = (T::rndi(N), T::rndi(N));
    a[(i, j)] = T::var("w");
    lu_case::<T, N>(a, false);
}
fn lu4x<T: Scal>() {
    lu_free::<T, 4>();
}
fn lu5x<T: Scal>() {
    lu_free::<T, 5>();
}
/// sizes above four: determinant and inverse go through LU
fn big<T: Scal, const N: usize>() {
    let mut a = Matrix::<N, N, T>::from_fn(|_, _| T::rnd(-4, 4, 2));
    let kind = T::rndi(4);
    if kind == 0 {
        // rank deficient
        let k = T::rnd(-2, 2, 2);
        for j in 0..N {
            a[(N - 1, j)] = k * a[(0, j)] - a[(1, j)];
        }
    }
    if kind == 1 {
        // needs swaps everywhere: reversed triangular
        for i in 0..N {
            for j in 0..N {
                if i + j < N - 1 {
                    a[(i, j)] = T::ZERO;
                }
            }
        }
    }
    let d = det(&rows(&a));
    T::prove("determinant", eq(a.determinant(), d));
    match a.inverse() {
        Ok(x) => {
            T::prove("A inv = I", meq(&mm(&a, &x), &ident()));
            T::prove("inverted only when regular", ne(d, T::ZERO));
        }
        Err(_) => T::prove("refused only when singular", eq(d, T::ZERO)),
    }
    let k = T::rnd(1, 9, 1);
    T::prove("determinant is homogeneous", eq(a.scale(k).determinant(), d * (0..N).fold(T::ONE, |p, _| p * k)));
}
fn big5<T: Scal>() {
    big::<T, 5>();
}
fn big6<T: Scal>() {
    big::<T, 6>();
}
/// a small nonzero pivot still counts in the determinant, but is refused by solve and inverse
fn tiny_pivot<T: Scal>() {
    let t = T::var_in("t", T::q(1, 1 << 60), T::q(1, 1 << 54));
    let mut a = ident::<T, 5>();
    let k = T::choose("at", 5);
    a[(k, k)] = t;
    T::prove("determinant", eq(a.determinant(), t));
    T::prove("ill conditioned", P::B(matches!(a.lu_decompose(), Err(LinalgError::IllConditioned))));
    T::prove("inverse refused", P::B(matches!(a.inverse(), Err(LinalgError::IllConditioned))));
    T::prove("solve refused", P::B(matches!(a.solve(Vector::zeros()), Err(LinalgError::IllConditioned))));
}
fn chol_case<T: Scal, const N: usize>() {
    let (a, l) = spd::<T, N>("a");
    match a.cholesky() {
        Ok(c) => {
            T::prove("factor", meq(&c.lower(), &l));
            T::prove("determinant", eq(c.determinant(), det(&rows(&a))));
            let b = vecv::<T, N>("b");
            let x = c.solve(b);
            T::prove("A x = b", eqs(&mv(&a, x.as_array()), b.as_array()));
            let bm = mat::<T, N, 2>("B");
            T::prove("A X = B", meq(&mm(&a, &c.solve_matrix(bm)), &bm));
            T::prove("A inv = I", meq(&mm(&a, &c.inverse()), &ident()));
        }
        Err(_) => T::prove("positive definite accepted", P::B(false)),
    }
}
fn chol1<T: Scal>() {
    chol_case::<T, 1>();
}
fn chol2<T: Scal>() {
    chol_case::<T, 2>();
}
fn chol3<T: Scal>() {
    chol_case::<T, 3>();
}
fn chol4<T: Scal>() {
    chol_case::<T, 4>();
}
/// arbitrary symmetric matrix: accepted iff all leading minors are positive
fn chol_accepts<T: Scal, const N: usize>() {
    let a = sym::<T, N>("a");
    let minor = |k: usize| det(&rows(&a).into_iter().take(k).map(|r| r[..k].to_vec()).collect::<Vec<_>>());
    let pd = and((1..=N).map(|k| gt(minor(k), T::ZERO)).collect());
    match a.cholesky() {
        Ok(c) => {
            T::prove("accepted only if positive definite", pd);
            let l = c.lower();
            T::prove("A = L L^T", meq(&mm(&l, &tr(&l)), &a));
            for i in 0..N {
                T::prove("positive diagonal", gt(l[(i, i)], T::ZERO));
                for j in i + 1..N {
                    T::prove("lower triangular", eq(l[(i, j)], T::ZERO));
                }
            }
        }
        Err(e) => {
            T::prove("refused only if not positive definite", not(pd));
            T::prove("documented error", P::B(matches!(e, LinalgError::NotPositiveDefinite)));
        }
    }
}
fn chol_accepts1<T: Scal>() {
    chol_accepts::<T, 1>();
}
fn chol_accepts2<T: Scal>() {
    chol_accepts::<T, 2>();
}
fn chol_accepts3<T: Scal>() {
    chol_accepts::<T, 3>();
}
fn vector<T: Scal>() {
    let (a, c, e) = (vecv::<T, 3>("a"), vecv::<T, 3>("c"), vecv::<T, 3>("e"));
    let k = T::var("k");
    let (av, cv, ev) = (a.into_array(), c.into_array(), e.into_array());
    let each = |f: &dyn Fn(usize) -> T| -> Vec<T> { (0..3).map(f).collect() };
    T::prove("add", veq(&(a + c), &each(&|i| av[i] + cv[i])));
    T::prove("sub", veq(&(a - c), &each(&|i| av[i] - cv[i])));
    T::prove("neg", veq(&-a, &each(&|i| -av[i])));
    T::prove("scale", veq(&a.scale(k), &each(&|i| av[i] * k)));
    T::prove("mul", veq(&(a * k), &each(&|i| av[i] * k)));
    let mut m = a;
    m += c;
    T::prove("add assign", veq(&m, &each(&|i| av[i] + cv[i])));
    m -= e;
    T::prove("sub assign", veq(&m, &each(&|i| av[i] + cv[i] - ev[i])));
    T::prove("dot", eq(a.dot(c), dot(&av, &cv)));
    T::prove("norm squared", eq(a.norm_squared(), dot(&av, &av)));
    let n = a.norm();
    T::prove("norm", and(vec![eq(n * n, dot(&av, &av)), ge(n, T::ZERO)]));
    T::prove("cross", veq(&a.cross(c), &cross(&av, &cv)));
    T::prove("triple", eq(a.scalar_triple(c, e), det(&[av.to_vec(), cv.to_vec(), ev.to_vec()])));
    let (p, q) = (vecv::<T, 2>("p"), vecv::<T, 2>("q"));
    T::prove("cross 2d", eq(p.cross(q), p[0] * q[1] - p[1] * q[0]));
    T::prove("finite", P::B(a.is_finite()));
    let mut w = a;
    let at = T::choose("at", 3);
    w[at] = T::special("x");
    T::prove("not finite", P::B(!w.is_finite()));
    T::prove("index assigns one slot", and((0..3).filter(|i| *i != at).map(|i| eq(w[i], a[i])).collect()));
    T::prove("map", veq(&a.map(|x| x * x), &each(&|i| av[i] * av[i])));
    T::prove("get", P::B(a.get(3).is_none() && a.get(2).is_some()));
    T::prove("get value", eq(*a.get(at).unwrap(), a[at]));
    let mut g = a;
    *g.get_mut(at).unwrap() = k;
    T::prove("get mut", and((0..3).map(|i| eq(g[i], if i == at { k } else { a[i] })).collect()));
    let mut m = a;
    m.as_mut_slice()[at] = k;
    T::prove("mut slice", veq(&m, g.as_slice()));
    T::prove("from slice", veq(&Vector::<3, T>::try_from_slice(&av).unwrap(), &av));
    T::prove("from slice length", P::B(Vector::<3, T>::try_from_slice(&av[..2]).is_none() && Vector::<2, T>::try_from_slice(&av).is_none()));
    T::prove("from fn", veq(&Vector::<3, T>::from_fn(|i| av[i]), &av));
    T::prove("zeros", veq(&Vector::<3, T>::zeros(), &[T::ZERO; 3]));
    T::prove("as slice", eqs(a.as_slice(), &av));
}
fn vector_div<T: Scal>() {
    let a = vecv::<T, 3>("a");
    let k = T::var("k");
    let z = T::holds(eq(k, T::ZERO));
    let q = a / k;
    for i in 0..3 {
        if z {
            T::prove("division by zero is zero divided safely", same(q[i], a[i].safe_div(k)));
        } else {
            T::prove("div", eq(q[i] * k, a[i]));
        }
    }
    let n = a.norm();
    let mut b = a;
    let mut c = a;
    let r = b.try_normalize();
    c.normalize();
    match a.try_normalized() {
        Some(u) => {
            T::prove("nonzero", ne(n, T::ZERO));
            T::prove("unit", eq(u.norm_squared(), T::ONE));
            T::prove("same direction", veq(&u.scale(n), a.as_slice()));
            T::prove("in place agrees", veq(&b, u.as_slice()));
            T::prove("plain agrees", veq(&a.normalized(), u.as_slice()));
            T::prove("plain in place agrees", veq(&c, u.as_slice()));
            T::prove("reports success", P::B(r.is_some()));
        }
        None => {
            T::prove("only zero is refused", eq(n, T::ZERO));
            T::prove("reports failure", P::B(r.is_none()));
            T::prove("unchanged", veq(&b, a.as_slice()));
        }
    }
    let mut w = a;
    w[T::choose("at", 3)] = T::NAN;
    T::prove("NaN refused", P::B(w.try_normalized().is_none()));
    let keep = w;
    T::prove("NaN refused in place", P::B(w.try_normalize().is_none()));
    for i in 0..3 {
        T::prove("NaN leaves it unchanged", same(w[i], keep[i]));
    }
}
fn matrix<T: Scal>() {
    let (a, c) = (mat::<T, 2, 3>("a"), mat::<T, 2, 3>("c"));
    let d = mat::<T, 3, 4>("d");
    let k = T::var("k");
    let x = vecv::<T, 3>("x");
    T::prove("add", meq(&(a + c), &madd(&a, &c)));
    T::prove("sub", meq(&(a - c), &msub(&a, &c)));
    let mut m = a;
    m += c;
    T::prove("add assign", meq(&m, &madd(&a, &c)));
    m -= a;
    T::prove("sub assign", meq(&m, &c));
    T::prove("neg", meq(&-a, &mscale(&a, -T::ONE)));
    T::prove("scale", meq(&a.scale(k), &mscale(&a, k)));
    T::prove("mul scalar", meq(&(a * k), &mscale(&a, k)));
    if T::holds(ne(k, T::ZERO)) {
        T::prove("div scalar", meq(&mscale(&(a / k), k), &a));
    }
    T::prove("product", meq(&(a * d), &mm(&a, &d)));
    T::prove("matrix vector", veq(&(a * x), &mv(&a, x.as_array())));
    T::prove("transpose", meq(&a.transpose(), &tr(&a)));
    let f = a.frobenius_norm();
    let flat: Vec<T> = rows(&a).into_iter().flatten().collect();
    T::prove("frobenius", and(vec![eq(f * f, dot(&flat, &flat)), ge(f, T::ZERO)]));
    T::prove("row slice", meq(&Matrix::<2, 3, T>::try_from_row_slice(&flat).unwrap(), &a));
    T::prove("row slice length", P::B(Matrix::<2, 3, T>::try_from_row_slice(&flat[..5]).is_none()));
    let (i, j) = (T::choose("i", 2), T::choose("j", 3));
    T::prove("row", veq(&a.try_row(i).unwrap(), &rows(&a)[i]));
    T::prove("column", veq(&a.try_column(j).unwrap(), &rows(&tr(&a))[j]));
    T::prove("row and column range", P::B(a.try_row(2).is_none() && a.try_column(3).is_none()));
    T::prove("get", eq(*a.get(i, j).unwrap(), a[(i, j)]));
    T::prove("get range", P::B(a.get(2, 0).is_none() && a.get(0, 3).is_none()));
    let mut g = a;
    *g.get_mut(i, j).unwrap() = k;
    let mut h = a;
    h[(i, j)] = k;
    for p in 0..2 {
        for q in 0..3 {
            let w = if p == i && q == j { k } else { a[(p, q)] };
            T::prove("assigns one entry", and(vec![eq(g[(p, q)], w), eq(h[(p, q)], w)]));
        }
    }
    let mut m = a;
    m.as_mut_slice_rows()[i][j] = k;
    T::prove("slice rows", and((0..2).map(|p| eqs(&m.as_slice_rows()[p], &rows(&g)[p])).collect()));
    T::prove("finite", P::B(a.is_finite()));
    h[(i, j)] = T::special("s");
    T::prove("not finite", P::B(!h.is_finite()));
    T::prove("zeros", meq(&Matrix::<2, 3, T>::zeros(), &mscale(&a, T::ZERO)));
    T::prove("into array", P::B(true));
    for (r, s) in a.into_array().iter().zip(rows(&a)) {
        T::prove("rows", eqs(r, &s));
    }
}
fn square<T: Scal>() {
    let a = mat::<T, 3, 3>("a");
    let v = T::vars::<3>("v");
    let dg = Matrix::from_diagonal(v);
    T::prove("from diagonal", meq(&dg, &Matrix::from_fn(|i, j| if i == j { v[i] } else { T::ZERO })));
    T::prove("diagonal", eqs(&a.diagonal(), &[a[(0, 0)], a[(1, 1)], a[(2, 2)]]));
    T::prove("trace", eq(a.trace(), a[(0, 0)] + a[(1, 1)] + a[(2, 2)]));
    T::prove("identity", meq(&Matrix::<3, 3, T>::identity(), &ident()));
    let s = a.symmetrized();
    T::prove("symmetrized", meq(&s, &mscale(&madd(&a, &tr(&a)), T::HALF)));
    T::prove("symmetrized is symmetric", P::B(s.is_symmetric()));
}
/// symmetric up to rounding is accepted, a lopsided matrix is not, wherever the pair is
fn is_symmetric<T: Scal>() {
    let mut a = Matrix::<3, 3, T>::from_fn(|i, j| T::i((i * j + i + j) as i64));
    let k = T::choose("pair", 3);
    let (i, j) = [(0, 1), (0, 2), (1, 2)][k];
    let (u, d) = (T::var("u"), T::var("d"));
    let up = T::choose("up", 2) == 1;
    a[(i, j)] = if up { u } else { u + d };
    a[(j, i)] = if up { u + d } else { u };
    // |d| <= 1e-15 always accepted; |d| > 1e-13 of the larger entry never
    let big = u.abs().max((u + d).abs()).max(T::ONE);
    let r = a.is_symmetric();
    T::prove("tolerates rounding", imp(le(d.abs(), T::q(1, 1_000_000_000_000_000) * big), P::B(r)));
    T::prove("rejects asymmetry", imp(gt(d.abs(), T::q(1, 10_000_000_000_000) * big), P::B(!r)));
}
/// any entries give a symmetric matrix whose quadratic form stays at least a quarter of the square
fn spd_builder<T: Scal>() {
    let e: [f64; 9] = core::array::from_fn(|_| T::rnd(-40, 40, 8).to_f64());
    let m = Matrix::<3, 3>::symmetric_positive_definite(&e);
    let x: [f64; 3] = core::array::from_fn(|_| T::rnd(-40, 40, 8).to_f64());
    let form: f64 = (0..3).map(|i| (0..3).map(|j| x[i] * m[(i, j)] * x[j]).sum::<f64>()).sum();
    let rows: f64 = (0..3).map(|c| (0..3).map(|r| e[r * 3 + c] * x[r]).sum::<f64>().powi(2)).sum();
    let sq: f64 = x.iter().map(|v| v * v).sum();
    T::prove("symmetric", P::B((0..3).all(|i| (0..3).all(|j| m[(i, j)] == m[(j, i)]))));
    T::prove("the form is the square of the factor and a quarter", P::B((form - rows - 0.25 * sq).abs() <= 1e-9 * (1.0 + form.abs())));
    T::prove("positive definite", P::B(m.cholesky().is_ok()));
}
fn main() {
    run::main(
        Info { id: "C01", assumptions: &[] },
        vec![
            proof!(lu1, "Matrix::lu_decompose, LuDecomposition::{solve,solve_matrix,inverse,determinant}"),
            proof!(lu2, "Matrix::lu_decompose, LuDecomposition::{solve,solve_matrix,inverse,determinant}"),
            proof!(lu3, "Matrix::lu_decompose, LuDecomposition::{solve,solve_matrix,inverse,determinant}"),
            proof!(solve3, "Matrix::solve"),
            proof!(lu_singular, "Matrix::{lu_decompose,solve,inverse,determinant}"),
            proof!(lu_accepts, "Matrix::{lu_decompose,solve,inverse}"),
            proof!(inv1, "Matrix::{inverse,determinant}"),
            proof!(inv2, "Matrix::{inverse,determinant}"),
            proof!(inv3, "Matrix::{inverse,determinant}"),
            proof!(inv4, "Matrix::{inverse,determinant}"),
            proof!(inv_threshold1, "Matrix::inverse"),
            proof!(inv_threshold2, "Matrix::inverse"),
            exact!(inv_threshold34, 20, "Matrix::inverse"),
            exact!(lu4x, 4, "Matrix::lu_decompose"),
            exact!(lu5x, 4, "Matrix::lu_decompose"),
            exact!(big5, 40, "Matrix::{inverse,determinant}"),
            exact!(big6, 10, "Matrix::{inverse,determinant}"),
            proof!(tiny_pivot, "Matrix::{inverse,determinant,solve,lu_decompose}"),
            proof!(chol1, "Matrix::cholesky, Cholesky::{solve,solve_matrix,inverse,determinant}"),
            proof!(chol2, "Matrix::cholesky, Cholesky::{solve,solve_matrix,inverse,determinant}"),
            proof!(chol3, "Matrix::cholesky, Cholesky::{solve,solve_matrix,inverse,determinant}"),
            proof!(chol4, "Matrix::cholesky, Cholesky::{solve,solve_matrix,inverse,determinant}"),
            proof!(chol_accepts1, "Matrix::cholesky"),
            proof!(chol_accepts2, "Matrix::cholesky"),
            proof!(chol_accepts3, "Matrix::cholesky"),
            proof!(vector, "Vector"),
            proof!(vector_div, "Vector::{div,normalized,normalize,try_normalized,try_normalize}"),
            proof!(matrix, "Matrix"),
            proof!(square, "Matrix"),
            sampled!(spd_builder, 300, "Matrix::symmetric_positive_definite"),
            proof!(is_symmetric, "Matrix::is_symmetric"),
        ],
    );
}
