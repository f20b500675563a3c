use contracts::*;
use multicalc::error::PolynomialError;
use multicalc::polynomial::*;
use multicalc::scalar::Jet;

fn poly<const N: usize, T: Scal>(name: &str) -> Polynomial<N, T> {
    Polynomial::new(T::vars::<N>(name))
}
/// sum of c_k x^k, powers built up, independent of Horner
fn value<T: Scal>(c: &[T], x: T) -> T {
    let mut pw = T::ONE;
    let mut out = T::ZERO;
    for k in c {
        out = out + *k * pw;
        pw = pw * x;
    }
    out
}
/// d^o/dx^o of sum of c_k x^k
fn slope<T: Scal>(c: &[T], o: usize, x: T) -> T {
    let mut out = T::ZERO;
    let mut pw = T::ONE;
    for k in o..c.len() {
        let ways: i64 = (0..o).map(|s| (k - s) as i64).product();
        out = out + c[k] * T::i(ways) * pw;
        pw = pw * x;
    }
    out
}
fn arithmetic<T: Scal>() {
    fn go<const N: usize, T: Scal>() {
        let (p, q, x, k) = (poly::<N, T>("p"), poly::<N, T>("q"), T::var("x"), T::var("k"));
        T::prove("evaluates its coefficients", eq(p.evaluate(x), value(p.coefficients(), x)));
        T::prove("sum and difference", and(vec![eq((p + q).evaluate(x), p.evaluate(x) + q.evaluate(x)), eq((p - q).evaluate(x), p.evaluate(x) - q.evaluate(x))]));
        T::prove("negation and scaling", and(vec![eq((-p).evaluate(x), -p.evaluate(x)), eq((p * k).evaluate(x), k * p.evaluate(x)), eq(p.scale(k).evaluate(x), k * p.evaluate(x))]));
        let nz = T::pos("nz");
        T::prove("division by a number", and(vec![eq((p / nz).evaluate(x) * nz, p.evaluate(x)), eq((p / -nz).evaluate(x) * -nz, p.evaluate(x))]));
        T::prove("argument shifted", eq(p.shift_argument(k).evaluate(x), p.evaluate(x + k)));
        T::prove("argument scaled", eq(p.scale_argument(k).evaluate(x), p.evaluate(k * x)));
        if N > 0 {
            let r = p.reverse();
            T::prove("reversed", eqs(r.coefficients(), &{
                let mut c = *p.coefficients();
                c.reverse();
                c
            }));
            let mut xn = T::ONE;
            for _ in 1..N {
                xn = xn * nz;
            }
            T::prove("roots become reciprocals", eq(r.evaluate(nz), p.evaluate(T::ONE / nz) * xn));
        }
        T::prove("zero polynomial", and(vec![eq(Polynomial::<N, T>::zeros().evaluate(x), T::ZERO), eq(Polynomial::<N, T>::default().evaluate(x), T::ZERO)]));
        for j in 0..N {
            T::prove("coefficient", eq(p.coefficient(j).unwrap(), p.coefficients()[j]));
        }
        T::prove("no coefficient", b(p.coefficient(N).is_none() && p.coefficient(N + 3).is_none()));
    }
    match T::choose("size", 7) {
        0 => go::<0, T>(),
        1 => go::<1, T>(),
        2 => go::<2, T>(),
        3 => go::<3, T>(),
        4 => go::<4, T>(),
        5 => go::<6, T>(),
        _ => go::<9, T>(),
    }
}
fn calculus<T: Scal>() {
    fn go<const N: usize, T: Scal>() {
        let (p, x) = (poly::<N, T>("p"), T::var("x"));
        let c = *p.coefficients();
        T::prove("derivative", eq(p.derivative().evaluate(x), slope(&c, 1, x)));
        let d = p.evaluate_with_derivatives::<6>(x);
        for o in 0..6 {
            T::prove("each derivative", and(vec![eq(d[o], slope(&c, o, x)), eq(p.nth_derivative(o).evaluate(x), slope(&c, o, x))]));
        }
        T::prove("far derivatives vanish", and(vec![eq(p.nth_derivative(40).evaluate(x), T::ZERO), b(p.evaluate_with_derivatives::<0>(x).is_empty()), eq(p.evaluate_with_derivatives::<1>(x)[0], p.evaluate(x))]));
        let (l, u, m) = (T::var("l"), T::var("u"), T::var("m"));
        T::prove("area adds up", eq(p.definite_integral(l, u), p.definite_integral(l, m) + p.definite_integral(m, u)));
        T::prove("area flips sign", eq(p.definite_integral(l, u), -p.definite_integral(u, l)));
        T::prove("area of the derivative", eq(p.derivative().definite_integral(l, u), p.evaluate(u) - p.evaluate(l)));
        // term by term: the antiderivative's coefficients are c_k / (k + 1)
        let mut anti = vec![T::ZERO];
        for k in 0..N {
            anti.push(c[k] / T::i(k as i64 + 1));
        }
        T::prove("area", eq(p.definite_integral(l, u), value(&anti, u) - value(&anti, l)));
    }
    match T::choose("size", 6) {
        0 => go::<0, T>(),
        1 => go::<1, T>(),
        2 => go::<2, T>(),
        3 => go::<4, T>(),
        4 => go::<5, T>(),
        _ => go::<8, T>(),
    }
}
fn maybe<const N: usize, T: Scal>(name: &str) -> Polynomial<N, T> {
    // any pattern of zero coefficients
    Polynomial::new(core::array::from_fn(|k| if T::choose(&format!("{name}{k} zero"), 2) == 1 { T::ZERO } else { nonzero(&format!("{name}{k}")) }))
}
fn nonzero<T: Scal>(name: &str) -> T {
    let x = T::var(name);
    T::assume(ne(x, T::ZERO));
    x
}
fn degree<T: Scal>() {
    let p = maybe::<4, T>("p");
    let c = *p.coefficients();
    let zero: Vec<bool> = c.iter().map(|x| T::holds(eq(*x, T::ZERO))).collect();
    let deg = zero.iter().rposition(|z| !z);
    T::prove("highest power present", b(p.degree() == deg));
    T::prove("leading coefficient", match (deg, p.leading_coefficient()) {
        (None, None) => b(true),
        (Some(d), Some(l)) => eq(l, c[d]),
        _ => b(false),
    });
    T::prove("zero", b(p.is_zero() == deg.is_none()));
    T::prove("finite", b(p.is_finite()));
    let need = deg.map_or(0, |d| d + 1);
    fn sized<const M: usize, T: Scal>(p: &Polynomial<4, T>, need: usize) {
        let x = T::var("x");
        match p.try_resize::<M>() {
            Some(r) => T::prove("resized only when nothing is lost", and(vec![b(need <= M), eq(r.evaluate(x), p.evaluate(x))])),
            None => T::prove("refused only when something would be lost", b(need > M)),
        }
    }
    sized::<0, T>(&p, need);
    sized::<1, T>(&p, need);
    sized::<3, T>(&p, need);
    sized::<4, T>(&p, need);
    sized::<7, T>(&p, need);
    let mut bad = c;
    bad[T::choose("slot", 4)] = T::special("bad");
    T::prove("not finite", b(!Polynomial::new(bad).is_finite()));
}
fn deg<const N: usize, T: Scal>(p: &Polynomial<N, T>) -> Option<usize> {
    (0..N).rev().find(|k| T::holds(ne(p.coefficients()[*k], T::ZERO)))
}
fn product<T: Scal>() {
    let (p, q, x) = (maybe::<3, T>("p"), maybe::<2, T>("q"), T::var("x"));
    let need = match (deg(&p), deg(&q)) {
        (Some(a), Some(c)) => a + c + 1,
        _ => 0,
    };
    fn go<const OUT: usize, T: Scal>(p: &Polynomial<3, T>, q: &Polynomial<2, T>, need: usize, x: T) {
        match p.multiply_into::<2, OUT>(q) {
            Ok(r) => T::prove("product", and(vec![b(need <= OUT), eq(r.evaluate(x), p.evaluate(x) * q.evaluate(x))])),
            Err(e) => T::prove("refused only when it does not fit", b(need > OUT && e == PolynomialError::DegreeOverflow)),
        }
    }
    go::<4, T>(&p, &q, need, x);
    go::<3, T>(&p, &q, need, x);
    go::<1, T>(&p, &q, need, x);
    go::<6, T>(&p, &q, need, x);
}
fn product_big<T: Scal>() {
    let (p, q, x) = (poly::<5, T>("p"), poly::<4, T>("q"), T::var("x"));
    let Ok(r) = p.multiply_into::<4, 8>(&q) else { return T::prove("fits", b(false)) };
    T::prove("product", eq(r.evaluate(x), p.evaluate(x) * q.evaluate(x)));
}
fn composed<T: Scal>() {
    let (p, q, x) = (maybe::<3, T>("p"), maybe::<2, T>("q"), T::var("x"));
    let need = match (deg(&p), deg(&q)) {
        (Some(a), Some(c)) => Some(a * c + 1),
        (Some(_), None) => Some(1),
        _ => None,
    };
    match p.compose_into::<2, 3>(&q) {
        Ok(r) => T::prove("composition", eq(r.evaluate(x), p.evaluate(q.evaluate(x)))),
        Err(_) => T::prove("three coefficients always fit", b(false)),
    }
    match p.compose_into::<2, 2>(&q) {
        Ok(r) => T::prove("composition", and(vec![b(need.is_none_or(|n| n <= 2)), eq(r.evaluate(x), p.evaluate(q.evaluate(x)))])),
        Err(e) => T::prove("refused only when it does not fit", b(need.is_some_and(|n| n > 2) && e == PolynomialError::DegreeOverflow)),
    }
}
fn composed_big<T: Scal>() {
    let (p, q, x) = (poly::<4, T>("p"), poly::<3, T>("q"), T::var("x"));
    let Ok(r) = p.compose_into::<3, 7>(&q) else { return T::prove("fits", b(false)) };
    T::prove("composition", eq(r.evaluate(x), p.evaluate(q.evaluate(x))));
    let (a, c) = (Polynomial::new([T::var("a")]), poly::<1, T>("c"));
    T::prove("of constants", eq(a.compose_into::<1, 1>(&c).unwrap().evaluate(x), a.coefficients()[0]));
}
fn divided<T: Scal>() {
    let p = poly::<5, T>("p");
    let d = maybe::<3, T>("d");
    let x = T::var("x");
    let dd = deg(&d);
    match p.divide::<3, 5, 2>(&d) {
        Ok((q, r)) => {
            T::prove("a divisor that is not zero", b(dd.is_some()));
            T::prove("quotient times divisor plus remainder", eq(q.evaluate(x) * d.evaluate(x) + r.evaluate(x), p.evaluate(x)));
            T::prove("remainder lower than the divisor", eqs(&r.coefficients()[dd.unwrap_or(0).min(2)..], &[T::ZERO; 2][dd.unwrap_or(0).min(2)..]));
        }
        Err(e) => T::prove("only zero is refused", b(dd.is_none() && e == PolynomialError::LeadingCoefficientZero)),
    }
}
fn divided_tight<T: Scal>() {
    let p = maybe::<4, T>("p");
    let d = Polynomial::new([T::var("d0"), nonzero("d1"), T::ZERO]);
    let x = T::var("x");
    let dp = deg(&p);
    match p.divide::<3, 2, 1>(&d) {
        Ok((q, r)) => T::prove("fits", and(vec![eq(q.evaluate(x) * d.evaluate(x) + r.evaluate(x), p.evaluate(x))])),
        Err(e) => T::prove("refused only when the quotient does not fit", b(e == PolynomialError::DegreeOverflow && dp.is_some_and(|k| k > 2))),
    }
    if let Ok((_, r)) = p.divide::<3, 3, 0>(&d) {
        T::prove("no room for a remainder: there is none", and(vec![b(r.coefficients().is_empty()), or(vec![eq(value(p.coefficients(), -d.coefficients()[0] / d.coefficients()[1]), T::ZERO)])]));
    }
}
fn from_roots<T: Scal>() {
    let n = T::choose("roots", 6);
    let r: Vec<T> = (0..n).map(|k| T::var(&format!("r{k}"))).collect();
    let x = T::var("x");
    let Ok(p) = Polynomial::<6, T>::from_roots(&r) else { return T::prove("fits", b(false)) };
    T::prove("the monic polynomial with exactly these roots", eq(p.evaluate(x), r.iter().fold(T::ONE, |a, k| a * (x - *k))));
    T::prove("leading one", eq(p.coefficients()[n], T::ONE));
    let mut more = vec![T::ONE; 6];
    more[0] = x;
    T::prove("too many", b(Polynomial::<6, T>::from_roots(&more).err() == Some(PolynomialError::DegreeOverflow) && Polynomial::<0, T>::from_roots(&[]).err() == Some(PolynomialError::DegreeOverflow)));
    if n > 0 {
        let mut bad = r.clone();
        bad[T::choose("slot", n)] = T::special("bad");
        T::prove("non-finite", b(Polynomial::<6, T>::from_roots(&bad).err() == Some(PolynomialError::NonFinite)));
    }
}
fn interpolated<T: Scal>() {
    fn go<const N: usize, T: Scal>() {
        // any order of the nodes: gaps may run either way
        let mut x = [T::ZERO; N];
        for k in 0..N {
            x[k] = T::var(&format!("x{k}"));
            for j in 0..k {
                T::assume(ne(x[k], x[j]));
            }
        }
        let y = T::vars::<N>("y");
        let Ok(p) = Polynomial::<N, T>::from_points(&x, &y) else { return T::prove("distinct nodes are accepted", b(false)) };
        for k in 0..N {
            T::prove("passes through every point", eq(p.evaluate(x[k]), y[k]));
        }
    }
    match T::choose("size", 3) {
        0 => go::<1, T>(),
        1 => go::<2, T>(),
        _ => go::<3, T>(),
    }
}
/// four and five nodes: increasing order, any gaps
fn interpolated_more<T: Scal>() {
    fn go<const N: usize, T: Scal>() {
        let mut x = [T::var("x"); N];
        for k in 1..N {
            x[k] = x[k - 1] + T::pos(&format!("gap{k}"));
        }
        let y = T::vars::<N>("y");
        let Ok(p) = Polynomial::<N, T>::from_points(&x, &y) else { return T::prove("distinct nodes are accepted", b(false)) };
        for k in 0..N {
            T::prove("passes through every point", eq(p.evaluate(x[k]), y[k]));
        }
    }
    match T::choose("size", 2) {
        0 => go::<4, T>(),
        _ => go::<5, T>(),
    }
}
fn interpolation_refused<T: Scal>() {
    let (x, y) = (T::vars::<3>("x"), T::vars::<3>("y"));
    let (i, j) = [(0, 1), (0, 2), (1, 2)][T::choose("pair", 3)];
    let mut same = x;
    same[i] = same[j];
    T::prove("duplicate node", b(Polynomial::from_points(&same, &y).err() == Some(PolynomialError::DuplicateNode)));
    let bad = T::special("bad");
    let k = T::choose("slot", 3);
    let (mut xb, mut yb) = (x, y);
    xb[k] = bad;
    yb[k] = bad;
    T::prove("non-finite", b([Polynomial::from_points(&xb, &y).err(), Polynomial::from_points(&x, &yb).err()].iter().all(|e| *e == Some(PolynomialError::NonFinite))));
    T::prove("fit: non-finite", b([Polynomial::<2, T>::fit_least_squares(&xb, &y).err(), Polynomial::<2, T>::fit_least_squares(&x, &yb).err()].iter().all(|e| *e == Some(PolynomialError::NonFinite))));
    T::prove("fit: too few samples", b(Polynomial::<4, T>::fit_least_squares(&x, &y).err() == Some(PolynomialError::TooFewSamples)));
    T::prove("fit: one position", b(Polynomial::<2, T>::fit_least_squares(&[x[0]; 3], &y).err() == Some(PolynomialError::DuplicateNode)));
}
/// least squares at fixed rational nodes, for all values: the residual is orthogonal to every power
fn fitted<T: Scal>() {
    fn go<const N: usize, const S: usize, T: Scal>(x: [T; S]) {
        let y = T::vars::<S>("y");
        let Ok(p) = Polynomial::<N, T>::fit_least_squares(&x, &y) else { return T::prove("fits", b(false)) };
        for k in 0..N {
            let mut total = T::ZERO;
            for j in 0..S {
                let mut pw = T::ONE;
                for _ in 0..k {
                    pw = pw * x[j];
                }
                total = total + (p.evaluate(x[j]) - y[j]) * pw;
            }
            T::prove("normal equations", eq(total, T::ZERO));
        }
    }
    let q = |n: i64| T::q(n, 1);
    match T::choose("case", 5) {
        0 => go::<1, 2, T>([q(3), q(5)]),
        1 => go::<2, 3, T>([q(0), q(1), q(3)]),
        2 => go::<2, 2, T>([q(-4), q(7)]),
        3 => go::<3, 4, T>([q(-2), q(0), q(1), q(5)]),
        _ => go::<2, 4, T>([q(1), q(2), q(2), q(4)]),
    }
}
fn fit_sweep<T: Scal>() {
    fn go<const N: usize, T: Scal>() {
        let x: [T; 8] = core::array::from_fn(|k| T::i(2 * k as i64) + T::rnd(0, 1, 10));
        let y: [T; 8] = core::array::from_fn(|_| T::rnd(-90, 90, 7));
        let p = Polynomial::<N, T>::fit_least_squares(&x, &y).unwrap();
        for k in 0..N {
            let (mut total, mut size) = (T::ZERO, T::ONE);
            for j in 0..8 {
                let mut pw = T::ONE;
                for _ in 0..k {
                    pw = pw * x[j];
                }
                total = total + (p.evaluate(x[j]) - y[j]) * pw;
                size = size + (y[j] * pw).abs();
            }
            T::prove("normal equations", le(total.abs(), size * T::q(1, 100_000_000)));
        }
        let yy: [T; N] = core::array::from_fn(|k| y[k]);
        let xx: [T; N] = core::array::from_fn(|k| x[k]);
        let p = Polynomial::<N, T>::from_points(&xx, &yy).unwrap();
        for k in 0..N {
            T::prove("interpolates", le((p.evaluate(xx[k]) - yy[k]).abs(), T::q(1, 1_000_000)));
        }
    }
    match T::rndi(4) {
        0 => go::<1, T>(),
        1 => go::<2, T>(),
        2 => go::<4, T>(),
        _ => go::<6, T>(),
    }
}
/// the samples lie on a polynomial, a long way from zero
fn far_fit_sweep<T: Scal>() {
    let off = T::rnd(500, 900, 1) * [T::ONE, -T::ONE][T::rndi(2)];
    let c: [T; 5] = core::array::from_fn(|_| T::rnd(-20, 20, 7));
    let at = |x: T| value(&c, x - off);
    let x: [T; 9] = core::array::from_fn(|k| off + T::q(k as i64, 4) + T::rnd(0, 1, 9));
    let y = x.map(at);
    match Polynomial::<5, T>::fit_least_squares(&x, &y) {
        Ok(p) => {
            // written out in powers of x the coefficients themselves reach 1e13
            T::prove("found again", and(x.iter().map(|x| le((p.evaluate(*x) - at(*x)).abs(), T::q(1, 2))).collect()));
        }
        Err(_) => T::prove("fits", b(false)),
    }
}
fn jet<T: Scal>() {
    let c = T::vars::<3>("c");
    let x = T::var("x");
    let Ok(p) = Polynomial::<5, T>::from_jet(&Jet { coeffs: c }) else { return T::prove("fits", b(false)) };
    T::prove("the series", eq(p.evaluate(x), value(&c, x)));
    T::prove("too many", b(Polynomial::<2, T>::from_jet(&Jet { coeffs: c }).err() == Some(PolynomialError::DegreeOverflow)));
}
fn chebyshev<T: Scal>() {
    let three = T::choose("nodes", 2) == 0;
    T::angle_div(if three { 6 } else { 4 });
    let (l, h) = (T::var("l"), T::pos("half"));
    let u = l + h + h;
    let c = l + h;
    if three {
        let a = T::PI / T::i(6);
        T::assume(and(vec![eq(a.sin(), T::q(1, 2)), gt(a.cos(), T::ZERO)]));
        let n = Polynomial::<3, T>::chebyshev_nodes(l, u);
        let w = h * a.cos();
        T::prove("three nodes", and(vec![eq(n[1], c), eq(n[0], c - w), eq(n[2], c + w)]));
    } else {
        let a = T::PI / T::i(4);
        T::assume(and(vec![eq(a.sin(), a.cos()), gt(a.cos(), T::ZERO)]));
        let n = Polynomial::<2, T>::chebyshev_nodes(l, u);
        T::prove("two nodes", and(vec![eq(n[0], c - h * a.cos()), eq(n[1], c + h * a.cos())]));
        T::prove("one node", eq(Polynomial::<1, T>::chebyshev_nodes(l, u)[0], c));
    }
}
fn chebyshev_sweep<T: Scal>() {
    fn go<const N: usize, T: Scal>() {
        let (l, h) = (T::rnd(-50, 50, 7), T::rnd(1, 50, 9));
        let n = Polynomial::<N, T>::chebyshev_nodes(l, l + h);
        // a node is where the Chebyshev polynomial of that size vanishes
        for k in 0..N {
            let x = (n[k] - l - h / T::i(2)) / (h / T::i(2));
            let (mut a, mut c) = (T::ONE, x);
            for _ in 1..N {
                (a, c) = (c, x * c * T::i(2) - a);
            }
            T::prove("a root of its Chebyshev polynomial", le(c.abs(), T::q(1, 10_000_000)));
            T::prove("increasing, inside the range", and(vec![lt(l, n[k]), lt(n[k], l + h), if k > 0 { lt(n[k - 1], n[k]) } else { b(true) }]));
        }
    }
    match T::rndi(4) {
        0 => go::<1, T>(),
        1 => go::<4, T>(),
        2 => go::<5, T>(),
        _ => go::<9, T>(),
    }
}
fn hermite3<T: Scal>() {
    let (p, t) = (T::vars::<4>("p"), T::pos("span"));
    let Ok(c) = Polynomial::<4, T>::from_endpoint_derivatives(p[0], p[1], p[2], p[3], t) else { return T::prove("accepted", b(false)) };
    let k = c.coefficients();
    T::prove("values and slopes at both ends", and(vec![eq(value(k, T::ZERO), p[0]), eq(slope(k, 1, T::ZERO), p[1] * t), eq(value(k, T::ONE), p[2]), eq(slope(k, 1, T::ONE), p[3] * t)]));
    let (bad, e) = (T::special("bad"), T::nonneg("e"));
    let mut a = [p[0], p[1], p[2], p[3], t];
    a[T::choose("slot", 5)] = bad;
    T::prove("non-finite", b(Polynomial::<4, T>::from_endpoint_derivatives(a[0], a[1], a[2], a[3], a[4]).err() == Some(PolynomialError::NonFinite)));
    T::prove("span above zero", b(Polynomial::<4, T>::from_endpoint_derivatives(p[0], p[1], p[2], p[3], -e).err() == Some(PolynomialError::SpanNotPositive)));
    let (s, f) = (T::vars::<4>("s"), T::vars::<4>("f"));
    let (mut sb, mut fb) = (s, f);
    let j = T::choose("which", 4);
    sb[j] = bad;
    fb[j] = bad;
    let g = |s: &[T; 4], f: &[T; 4], t: T| Polynomial::<8, T>::from_endpoint_derivatives(s, f, t).err();
    T::prove("degree seven: refused", b(g(&sb, &f, T::ONE) == Some(PolynomialError::NonFinite) && g(&s, &fb, T::ONE) == Some(PolynomialError::NonFinite) && g(&s, &f, bad) == Some(PolynomialError::NonFinite) && g(&s, &f, -e) == Some(PolynomialError::SpanNotPositive)));
}
/// the value and three slopes asked for at each end, in degree seven
fn hermite7<T: Scal>() {
    let (s, f) = (T::vars::<4>("s"), T::vars::<4>("f"));
    // a span the eight equations can be solved over: outside some such range they are refused
    let t = T::var_in("span", T::q(1, 50), T::i(50));
    T::assume(between(T::q(1, 50), t, T::i(50)));
    let Ok(p) = Polynomial::<8, T>::from_endpoint_derivatives(&s, &f, t) else { return T::prove("accepted", b(false)) };
    let (k, mut raised) = (p.coefficients(), T::ONE);
    for o in 0..4 {
        T::prove("what was asked, at both ends", and(vec![eq(slope(k, o, T::ZERO), s[o] * raised), eq(slope(k, o, T::ONE), f[o] * raised)]));
        raised = raised * t;
    }
}
fn hermite7_sweep<T: Scal>() {
    let v: [T; 8] = core::array::from_fn(|_| T::rnd(-50, 50, 7));
    let t = T::rnd(1, 40, 9);
    let (s, f) = ([v[0], v[1], v[2], v[3]], [v[4], v[5], v[6], v[7]]);
    let p = Polynomial::<8, T>::from_endpoint_derivatives(&s, &f, t).unwrap();
    let (k, mut raised) = (p.coefficients(), T::ONE);
    for o in 0..4 {
        let size = T::i(100_000) * (T::ONE + raised);
        T::prove("what was asked, at both ends", and(vec![le((slope(k, o, T::ZERO) - s[o] * raised).abs(), size * T::q(1, 1_000_000_000)), le((slope(k, o, T::ONE) - f[o] * raised).abs(), size * T::q(1, 1_000_000_000))]));
        raised = raised * t;
    }
}
// ---- several variables
type MP<const V: usize, const N: usize, T> = MultivariatePolynomial<V, N, T>;
const EXP: [[u32; 2]; 6] = [[0, 0], [1, 0], [0, 2], [2, 1], [3, 0], [1, 3]];
fn multi<const N: usize, T: Scal>(name: &str, n: usize) -> MP<2, N, T> {
    let mut p = MP::<2, N, T>::new();
    for k in 0..n {
        let e = EXP[T::choose(&format!("{name}{k} powers"), EXP.len())];
        let _ = p.push(MultivariateTerm::new(T::var(&format!("{name}{k}")), e));
    }
    p
}
fn mvalue<T: Scal>(t: &[MultivariateTerm<2, T>], x: &[T; 2]) -> T {
    let mut out = T::ZERO;
    for t in t {
        let mut v = t.coefficient();
        for (k, e) in t.exponents().iter().enumerate() {
            for _ in 0..*e {
                v = v * x[k];
            }
        }
        out = out + v;
    }
    out
}
fn mslope<T: Scal>(t: &[MultivariateTerm<2, T>], var: usize, x: &[T; 2]) -> T {
    let mut out = T::ZERO;
    for t in t {
        let e = t.exponents()[var];
        if e == 0 {
            continue;
        }
        let mut v = t.coefficient() * T::i(e as i64);
        for (k, e) in t.exponents().iter().enumerate() {
            for _ in 0..(if k == var { e - 1 } else { *e }) {
                v = v * x[k];
            }
        }
        out = out + v;
    }
    out
}
fn several<T: Scal>() {
    let p = multi::<3, T>("p", 1 + T::choose("terms", 2));
    let x = T::vars::<2>("x");
    let v = p.evaluate(&x);
    T::prove("evaluates its terms", eq(v, mvalue(p.terms(), &x)));
    let g = p.gradient_at(&x);
    for k in 0..2 {
        let want = mslope(p.terms(), k, &x);
        let (Ok(d), Ok(a)) = (p.partial_derivative(k), p.partial_antiderivative(k)) else { return T::prove("variable in range", b(false)) };
        T::prove("partial derivative", and(vec![eq(d.evaluate(&x), want), eq(g[k], want)]));
        T::prove("antiderivative differentiates back", eq(a.partial_derivative(k).unwrap().evaluate(&x), v));
        let mut zero = x;
        zero[k] = T::ZERO;
        T::prove("no constant added", eq(a.evaluate(&zero), T::ZERO));
        let w = T::var("w");
        let Ok(s) = p.substitute(k, w) else { return T::prove("variable in range", b(false)) };
        let mut at = x;
        at[k] = w;
        T::prove("substitution", and(vec![eq(s.evaluate(&x), p.evaluate(&at)), b(s.degree_in(k).unwrap_or(0) == 0)]));
    }
    let e: Vec<[u32; 2]> = p.terms().iter().map(|t| *t.exponents()).collect();
    T::prove("degrees", b(p.total_degree() == e.iter().map(|e| e[0] + e[1]).max() && p.degree_in(0) == e.iter().map(|e| e[0]).max() && p.degree_in(1) == e.iter().map(|e| e[1]).max() && p.degree_in(2).is_none()));
    let mut c = p;
    c.collect_like_terms();
    T::prove("collecting keeps the value", eq(c.evaluate(&x), v));
    let ce: Vec<[u32; 2]> = c.terms().iter().map(|t| *t.exponents()).collect();
    T::prove("and leaves each power pattern once, none zero", and(vec![b((0..ce.len()).all(|i| (0..i).all(|j| ce[i] != ce[j]))), and(c.terms().iter().map(|t| ne(t.coefficient(), T::ZERO)).collect())]));
    T::prove("variable out of range", b([p.partial_derivative(2).err(), p.partial_antiderivative(2).err(), p.substitute(2, x[0]).err()].iter().all(|e| *e == Some(PolynomialError::VariableOutOfRange))));
}
fn several_arithmetic<T: Scal>() {
    let (p, q) = (multi::<2, T>("p", T::choose("left", 3)), multi::<2, T>("q", 1));
    let x = T::vars::<2>("x");
    let Ok(s) = p.add_into::<2, 3>(&q) else { return T::prove("fits", b(false)) };
    T::prove("sum", eq(s.evaluate(&x), p.evaluate(&x) + q.evaluate(&x)));
    let Ok(m) = p.multiply_into::<2, 2>(&q) else { return T::prove("fits", b(false)) };
    T::prove("product", eq(m.evaluate(&x), p.evaluate(&x) * q.evaluate(&x)));
    let Ok(m) = q.multiply_into::<2, 2>(&p) else { return T::prove("fits", b(false)) };
    T::prove("product the other way", eq(m.evaluate(&x), p.evaluate(&x) * q.evaluate(&x)));
    if p.len() == 2 {
        T::prove("does not fit", b(p.add_into::<2, 2>(&q).err() == Some(PolynomialError::CapacityExceeded) && p.multiply_into::<2, 1>(&q).err() == Some(PolynomialError::CapacityExceeded)));
    }
    let big = MP::<2, 1, T>::try_from_array([MultivariateTerm::new(T::ONE, [u32::MAX, 0])]).unwrap();
    let xx = MP::<2, 1, T>::try_from_array([MultivariateTerm::new(T::ONE, [1, 0])]).unwrap();
    T::prove("power overflow", b(big.multiply_into::<1, 1>(&xx).err() == Some(PolynomialError::DegreeOverflow) && big.partial_antiderivative(0).err() == Some(PolynomialError::DegreeOverflow) && big.partial_antiderivative(1).is_ok()));
}
/// cancelling terms disappear
fn collected<T: Scal>() {
    let n = 2 + T::choose("terms", 3);
    let mut p = MP::<2, 4, T>::new();
    let a = nonzero::<T>("a");
    for k in 0..n {
        let c = [a, -a, a + a][T::choose(&format!("c{k}"), 3)];
        let e = EXP[T::choose(&format!("e{k}"), 2)];
        let _ = p.push(MultivariateTerm::new(c, e));
    }
    let x = T::vars::<2>("x");
    let v = p.evaluate(&x);
    p.collect_like_terms();
    T::prove("same value", eq(p.evaluate(&x), v));
    let ce: Vec<[u32; 2]> = p.terms().iter().map(|t| *t.exponents()).collect();
    T::prove("each pattern once, nothing zero", and(vec![b((0..ce.len()).all(|i| (0..i).all(|j| ce[i] != ce[j])) && p.len() == ce.len()), and(p.terms().iter().map(|t| ne(t.coefficient(), T::ZERO)).collect())]));
}
fn several_built<T: Scal>() {
    let t: Vec<MultivariateTerm<2, T>> = (0..3).map(|k| MultivariateTerm::new(T::var(&format!("c{k}")), EXP[k])).collect();
    let x = T::vars::<2>("x");
    let p = MP::<2, 3, T>::try_from_terms(&t).unwrap();
    let q = MP::<2, 3, T>::try_from_array([t[0], t[1], t[2]]).unwrap();
    T::prove("built either way", and(vec![eq(p.evaluate(&x), mvalue(&t, &x)), eq(q.evaluate(&x), p.evaluate(&x)), b(p.len() == 3 && !p.is_empty() && p.is_finite())]));
    T::prove("does not fit", b(MP::<2, 2, T>::try_from_terms(&t).err() == Some(PolynomialError::CapacityExceeded)));
    let mut full = p;
    T::prove("full, unchanged", and(vec![b(full.push(t[0]) == Err(PolynomialError::CapacityExceeded) && full.len() == 3), eq(full.evaluate(&x), p.evaluate(&x))]));
    let bad = MultivariateTerm::new(T::special("bad"), [1, 1]);
    let mut room = MP::<2, 4, T>::try_from_terms(&t).unwrap();
    T::prove("non-finite, unchanged", and(vec![b(room.push(bad) == Err(PolynomialError::NonFinite) && room.len() == 3), eq(room.evaluate(&x), p.evaluate(&x))]));
    T::prove("non-finite", b(MP::<2, 3, T>::try_from_array([t[0], bad, t[1]]).err() == Some(PolynomialError::NonFinite) && MP::<2, 3, T>::try_from_terms(&[t[0], bad]).err() == Some(PolynomialError::NonFinite)));
    let e = MP::<2, 3, T>::default();
    T::prove("empty is zero", and(vec![b(e.is_empty() && e.total_degree().is_none() && e.degree_in(0).is_none()), eq(e.evaluate(&x), T::ZERO)]));
}
fn one_variable<T: Scal>() {
    let n = T::choose("terms", 4);
    let mut m = MultivariatePolynomial::<1, 3, T>::new();
    let mut high = 0;
    for k in 0..n {
        let e = T::choose(&format!("power{k}"), 4);
        high = high.max(e);
        let _ = m.push(MultivariateTerm::new(T::var(&format!("c{k}")), [e as u32]));
    }
    let x = T::var("x");
    match m.to_univariate::<3>() {
        Ok(p) => T::prove("same values", and(vec![eq(p.evaluate(x), m.evaluate(&[x])), b(high < 3)])),
        Err(e) => T::prove("only when it does not fit", b(high >= 3 && e == PolynomialError::DegreeOverflow)),
    }
    let p = maybe::<4, T>("p");
    let terms = p.coefficients().iter().filter(|c| T::holds(ne(**c, T::ZERO))).count();
    match MultivariatePolynomial::<1, 2, T>::from_univariate(&p) {
        Ok(m) => T::prove("same values, one term per coefficient", and(vec![eq(m.evaluate(&[x]), p.evaluate(x)), b(m.len() == terms && terms <= 2)])),
        Err(e) => T::prove("only when it does not fit", b(terms > 2 && e == PolynomialError::CapacityExceeded)),
    }
}
// ---- pieces
type Pw<T> = PiecewisePolynomial<4, 4, 2, T>;
fn curve<T: Scal>(n: usize) -> (Pw<T>, Vec<[Polynomial<4, T>; 2]>, Vec<T>) {
    let pieces: Vec<[Polynomial<4, T>; 2]> = (0..n).map(|k| [poly(&format!("a{k}")), poly(&format!("b{k}"))]).collect();
    let spans: Vec<T> = (0..n).map(|k| T::pos(&format!("span{k}"))).collect();
    let Ok(c) = Pw::try_from_pieces(&pieces, &spans) else {
        T::prove("accepted", b(false));
        T::abandon()
    };
    (c, pieces, spans)
}
/// where piece k has run a fraction u of its span
fn inside<T: Scal>(spans: &[T]) -> (usize, T, T) {
    let k = T::choose("piece", spans.len());
    let u = T::var_in("along", T::ZERO, T::ONE);
    T::assume(and(vec![ge(u, T::ZERO), lt(u, T::ONE)]));
    (k, u, sum(&spans[..k]) + u * spans[k])
}
fn piecewise<T: Scal>() {
    let n = 1 + T::choose("pieces", 3);
    let (c, p, s) = curve::<T>(n);
    T::prove("shape", and(vec![b(c.piece_count() == n && !c.is_empty() && c.span(n).is_none() && c.piece_polynomial(n, 0).is_none() && c.piece_polynomial(0, 2).is_none()), eq(c.total_span(), sum(&s))]));
    let (k, u, at) = inside(&s);
    T::prove("its span", eq(c.span(k).unwrap(), s[k]));
    let d1 = c.derivative();
    let d2 = c.nth_derivative(2);
    let d4 = c.nth_derivative(4);
    let d0 = c.nth_derivative(0);
    // inside a piece, before the start, past the end
    let (at, k, u) = match T::choose("where", 3) {
        0 => (at, k, u),
        1 => (-T::nonneg("before"), 0, T::ZERO),
        _ => (sum(&s) + T::nonneg("after"), n - 1, T::ONE),
    };
    let (Ok(v), Ok(d)) = (c.evaluate(at), c.evaluate_with_derivatives::<5>(at)) else { return T::prove("evaluates", b(false)) };
    for ax in 0..2 {
        let co = p[k][ax].coefficients();
        T::prove("the right piece at the right place", and(vec![eq(v[ax], value(co, u)), eq(d[0][ax], value(co, u))]));
        let mut raised = T::ONE;
        for o in 1..5 {
            raised = raised * s[k];
            T::prove("derivatives against the shared parameter", eq(d[o][ax] * raised, slope(co, o, u)));
        }
        T::prove("derivative curves agree", and(vec![
            eq(d0.evaluate(at).unwrap()[ax], v[ax]),
            eq(d1.evaluate(at).unwrap()[ax], d[1][ax]),
            eq(d2.evaluate(at).unwrap()[ax], d[2][ax]),
            eq(d4.evaluate(at).unwrap()[ax], T::ZERO),
        ]));
    }
}
/// every derivative a longer piece has
fn high_derivatives<T: Scal>() {
    type Long<T> = PiecewisePolynomial<2, 8, 1, T>;
    let (p0, p1) = (poly::<8, T>("a"), poly::<8, T>("b"));
    let s = [T::pos("span0"), T::pos("span1")];
    let Ok(c) = Long::try_from_pieces(&[[p0.clone()], [p1.clone()]], &s) else { return T::prove("accepted", b(false)) };
    let (k, u, at) = inside(&s);
    let co = [&p0, &p1][k].coefficients();
    let Ok(d) = c.evaluate_with_derivatives::<10>(at) else { return T::prove("evaluates", b(false)) };
    let mut raised = T::ONE;
    for o in 0..10 {
        T::prove("derivative", eq(d[o][0] * raised, slope(co, o, u)));
        T::prove("derivative curve", eq(c.nth_derivative(o).evaluate(at).unwrap()[0], d[o][0]));
        raised = raised * s[k];
    }
}
/// the join itself belongs to the piece it starts
fn joins<T: Scal>() {
    let (c, p, s) = curve::<T>(3);
    let k = T::choose("join", 4);
    let at = sum(&s[..k]);
    let (j, u) = if k == 3 { (2, T::ONE) } else { (k, T::ZERO) };
    let Ok(v) = c.evaluate(at) else { return T::prove("evaluates", b(false)) };
    for ax in 0..2 {
        T::prove("at the join", eq(v[ax], value(p[j][ax].coefficients(), u)));
    }
}
fn area<T: Scal>() {
    let n = 1 + T::choose("pieces", 2);
    let (c, p, s) = curve::<T>(n);
    let place = |name: &str| -> T {
        match T::choose(&format!("{name} where"), 3) {
            0 => {
                let k = T::choose(&format!("{name} piece"), n);
                let u = T::var_in(name, T::ZERO, T::ONE);
                T::assume(between(T::ZERO, u, T::ONE));
                sum(&s[..k]) + u * s[k]
            }
            1 => -T::nonneg(name),
            _ => sum(&s) + T::nonneg(name),
        }
    };
    let (l, u) = (place("l"), place("u"));
    // area from the start, written from the pieces
    let from_start = |x: T, ax: usize| {
        let mut out = T::ZERO;
        let mut start = T::ZERO;
        for k in 0..n {
            let a = ((x.min(start + s[k]) - start).max(T::ZERO)) / s[k];
            let mut anti = vec![T::ZERO];
            for (j, co) in p[k][ax].coefficients().iter().enumerate() {
                anti.push(*co / T::i(j as i64 + 1));
            }
            out = out + value(&anti, a) * s[k];
            start = start + s[k];
        }
        out
    };
    let Ok(v) = c.definite_integral(l, u) else { return T::prove("integrates", b(false)) };
    for ax in 0..2 {
        T::prove("area of the pieces in the range, trimmed to the curve", eq(v[ax], from_start(u, ax) - from_start(l, ax)));
    }
}
fn pieces_refused<T: Scal>() {
    let p = [poly::<2, T>("p")];
    let (o, bad, e) = (T::ONE, T::special("bad"), T::nonneg("e"));
    let f = |n: usize, s: &[T]| PiecewisePolynomial::<2, 2, 1, T>::try_from_pieces(&vec![p; n], s).err();
    T::prove("empty", b(f(0, &[]) == Some(PolynomialError::Empty) && f(1, &[]) == Some(PolynomialError::Empty) && f(0, &[o]) == Some(PolynomialError::Empty)));
    T::prove("too many or mismatched", b(f(3, &[o, o, o]) == Some(PolynomialError::CapacityExceeded) && f(2, &[o]) == Some(PolynomialError::CapacityExceeded) && f(1, &[o, o]) == Some(PolynomialError::CapacityExceeded)));
    T::prove("spans above zero", b([[bad, o], [o, bad], [-e, o], [o, -e]].iter().all(|s| f(2, s) == Some(PolynomialError::SpanNotPositive))));
    T::prove("full is fine", b(f(2, &[o, o]).is_none()));
}
fn main() {
    run::main(
        run::Info { id: "C18", assumptions: &["the least-squares fit is proved for all values at listed rational nodes and sampled at others", "sin(pi/6) = 1/2, sin(pi/4) = cos(pi/4)"] },
        vec![
            proof!(arithmetic, "Polynomial::evaluate, add, sub, neg, mul, div, scale, shift_argument, scale_argument, reverse, coefficient"),
            proof!(calculus, "Polynomial::derivative, nth_derivative, evaluate_with_derivatives, definite_integral"),
            proof!(degree, "Polynomial::degree, leading_coefficient, is_zero, is_finite, try_resize"),
            proof!(product, "Polynomial::multiply_into"),
            proof!(product_big, "Polynomial::multiply_into"),
            proof!(composed, "Polynomial::compose_into"),
            proof!(composed_big, "Polynomial::compose_into"),
            proof!(divided, "Polynomial::divide"),
            proof!(divided_tight, "Polynomial::divide"),
            proof!(from_roots, "Polynomial::from_roots"),
            proof!(interpolated, "Polynomial::from_points"),
            proof!(interpolated_more, "Polynomial::from_points"),
            proof!(interpolation_refused, "Polynomial::from_points, fit_least_squares"),
            proof!(fitted, "Polynomial::fit_least_squares"),
            sampled!(fit_sweep, 200, "Polynomial::fit_least_squares, from_points"),
            proof!(jet, "Polynomial::from_jet"),
            proof!(chebyshev, "Polynomial::chebyshev_nodes"),
            sampled!(chebyshev_sweep, 100, "Polynomial::chebyshev_nodes"),
            proof!(hermite7, "Polynomial::<8>::from_endpoint_derivatives, endpoint_mapping, endpoint_mapping_inverse"),
            sampled!(hermite7_sweep, 100, "Polynomial::<8>::from_endpoint_derivatives, endpoint_mapping"),
            sampled!(far_fit_sweep, 100, "Polynomial::fit_least_squares, sample_range"),
            proof!(hermite3, "Polynomial::<4>::from_endpoint_derivatives, Polynomial::<8>::from_endpoint_derivatives"),
            proof!(several, "MultivariatePolynomial::evaluate, gradient_at, partial_derivative, partial_antiderivative, substitute, total_degree, degree_in, collect_like_terms"),
            proof!(several_arithmetic, "MultivariatePolynomial::add_into, multiply_into"),
            proof!(collected, "MultivariatePolynomial::collect_like_terms"),
            proof!(several_built, "MultivariatePolynomial::try_from_terms, try_from_array, push"),
            proof!(one_variable, "MultivariatePolynomial::to_univariate, from_univariate"),
            proof!(high_derivatives, "PiecewisePolynomial::evaluate_with_derivatives, nth_derivative"),
            proof!(piecewise, "PiecewisePolynomial::evaluate, evaluate_with_derivatives, derivative, nth_derivative, span, total_span"),
            proof!(joins, "PiecewisePolynomial::evaluate"),
            proof!(area, "PiecewisePolynomial::definite_integral"),
            proof!(pieces_refused, "PiecewisePolynomial::try_from_pieces"),
        ],
    );
}
