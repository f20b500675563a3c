use contracts::*;
use multicalc::error::IntegrateError;
use multicalc::gaussian_tables::MAX_ORDER;
use multicalc::numerical_integration::*;
use multicalc::vector_field::*;
use std::cell::RefCell;

type G = GaussianQuadratureMethod;

/// sum of c_k x^k
fn value<T: Scal>(c: &[T], x: T) -> T {
    let mut pw = T::ONE;
    let mut out = T::ZERO;
    for k in c {
        out = out + *k * pw;
        pw = pw * x;
    }
    out
}
/// its integral from a to b
fn area<T: Scal>(c: &[T], a: T, bb: T) -> T {
    let anti: Vec<T> = std::iter::once(T::ZERO).chain(c.iter().enumerate().map(|(k, v)| *v / T::i(k as i64 + 1))).collect();
    value(&anti, bb) - value(&anti, a)
}
fn rule<T: Scal>() -> (IterativeMethod, usize, u64) {
    match T::choose("rule", 3) {
        0 => (IterativeMethod::Booles, 6, 4),
        1 => (IterativeMethod::Simpsons, 4, 3),
        _ => (IterativeMethod::Trapezoidal, 2, 1),
    }
}
/// an interval with b > a
fn interval<T: Scal>() -> [T; 2] {
    let a = T::var("a");
    [a, a + T::pos("width")]
}
fn refused_with<T: Scal>(name: &str, r: Result<T, IntegrateError>, e: IntegrateError) {
    T::prove(name, b(matches!(r, Err(x) if x == e)));
}
/// the composite rules on the polynomials they promise, whatever count was asked for
fn composite<T: Scal>() {
    let (m, terms, block) = rule::<T>();
    let n = [1, 2, 3, 4, 5, 6, 7, 8, 9, 11, 12, 14, 16, 24, 37, 40][T::choose("n", 16)];
    let [lo, hi] = interval::<T>();
    let c: Vec<T> = (0..terms).map(|_| T::var("c")).collect();
    let f = |x: T| value(&c, x);
    let mut s = IterativeSingle::<T>::from_parameters(n, m);
    if T::choose("summation", 2) == 1 {
        s = s.with_kahan_summation();
    }
    T::prove("count rounded up to the rule's block", b(s.config.total_iterations == n.div_ceil(block) * block));
    T::prove("exact", eq(s.single_integral(&f, &[lo, hi]).unwrap(), area(&c, lo, hi)));
}
/// the default rule, and rules with enough points to fill the running sum's blocks
fn composite_long<T: Scal>() {
    let [lo, hi] = interval::<T>();
    let c: Vec<T> = (0..2).map(|_| T::var("c")).collect();
    let f = |x: T| value(&c, x);
    let s = match T::choose("which", 4) {
        0 => IterativeSingle::<T>::default(),
        1 => IterativeSingle::<T>::from_parameters(130, IterativeMethod::Trapezoidal),
        2 => IterativeSingle::<T>::from_parameters(300, IterativeMethod::Simpsons).with_kahan_summation(),
        _ => IterativeSingle::<T>::from_parameters(261, IterativeMethod::Booles),
    };
    T::prove("exact", eq(s.single_integral(&f, &[lo, hi]).unwrap(), area(&c, lo, hi)));
}
/// any integrand at all: linear, and additive over adjoining halves
fn laws<T: Scal>() {
    let (m, _, block) = rule::<T>();
    let [lo, hi] = interval::<T>();
    let (f, g) = (|x: T| T::uf("f", &[x]), |x: T| T::uf("g", &[x]));
    let (p, q) = (T::var("p"), T::var("q"));
    let s = IterativeSingle::<T>::from_parameters(block * 2, m);
    let (fi, gi) = (s.single_integral(&f, &[lo, hi]).unwrap(), s.single_integral(&g, &[lo, hi]).unwrap());
    T::prove("linear", eq(s.single_integral(&|x| p * f(x) + q * g(x), &[lo, hi]).unwrap(), p * fi + q * gi));
    let mid = (lo + hi) / T::TWO;
    let half = IterativeSingle::<T>::from_parameters(block, m);
    T::prove("adjoining halves", eq(half.single_integral(&f, &[lo, mid]).unwrap() + half.single_integral(&f, &[mid, hi]).unwrap(), fi));
    let k = T::var("k");
    T::prove("slides with its interval", eq(s.single_integral(&|x| f(x + k), &[lo - k, hi - k]).unwrap(), fi));
    T::prove("mirrors", eq(s.single_integral(&|x: T| f(-x), &[-hi, -lo]).unwrap(), fi));
    let e = s.with_kahan_summation();
    T::prove("either running sum", eq(e.single_integral(&f, &[lo, hi]).unwrap(), fi));
}
/// repeated single-variable integrals: the outer limits only scale
fn repeated<T: Scal>() {
    let (m, _, block) = rule::<T>();
    let ([a, bb], [c, d], [e, g]) = (interval::<T>(), interval::<T>(), interval::<T>());
    let f = |x: T| T::uf("f", &[x]);
    let s = IterativeSingle::<T>::from_parameters(block, m);
    let one = s.single_integral(&f, &[a, bb]).unwrap();
    T::prove("double", eq(s.double_integral(&f, &[[a, bb], [c, d]]).unwrap(), one * (d - c)));
    T::prove("triple", eq(s.integrate(&f, &[[a, bb], [c, d], [e, g]]).unwrap(), one * (d - c) * (g - e)));
    let w = GaussianSingle::<T>::from_parameters(2, G::GaussLegendre);
    let one = w.single_integral(&f, &[a, bb]).unwrap();
    T::prove("gaussian double", eq(w.double_integral(&f, &[[a, bb], [c, d]]).unwrap(), one * (d - c)));
}
/// many variables: the named variable is integrated, the rest stay put
fn partial<T: Scal>() {
    let (m, _, block) = rule::<T>();
    let at = T::vars::<3>("at");
    let j = T::choose("variable", 3);
    let lim = interval::<T>();
    let f = |x: &[T; 3]| T::uf("f", x);
    let s = IterativeMulti::<T>::from_parameters(block, m);
    let one = IterativeSingle::<T>::from_parameters(block, m);
    let slot = |at: [T; 3], j: usize, x: T| {
        let mut p = at;
        p[j] = x;
        p
    };
    T::prove("one variable", eq(s.single_partial_integral(&f, j, &lim, &at).unwrap(), one.single_integral(&|x| f(&slot(at, j, x)), &lim).unwrap()));
    let k = (j + 1 + T::choose("second", 2)) % 3;
    let outer = interval::<T>();
    let nested = one.single_integral(&|y| one.single_integral(&|x| f(&slot(slot(at, k, y), j, x)), &lim).unwrap(), &outer).unwrap();
    T::prove("two variables", eq(s.double_partial_integral(&f, [j, k], &[lim, outer], &at).unwrap(), nested));
    let e = s.with_kahan_summation();
    T::prove("either running sum", eq(e.double_partial_integral(&f, [j, k], &[lim, outer], &at).unwrap(), nested));
    let (g, h) = (GaussianMulti::<T>::from_parameters(2, G::GaussLegendre), GaussianSingle::<T>::from_parameters(2, G::GaussLegendre));
    T::prove("gaussian, one variable", eq(g.single_partial_integral(&f, j, &lim, &at).unwrap(), h.single_integral(&|x| f(&slot(at, j, x)), &lim).unwrap()));
    let nested = h.single_integral(&|y| h.single_integral(&|x| f(&slot(slot(at, k, y), j, x)), &lim).unwrap(), &outer).unwrap();
    T::prove("gaussian, two variables", eq(g.double_partial_integral(&f, [j, k], &[lim, outer], &at).unwrap(), nested));
    for fam in [G::GaussHermite, G::GaussLaguerre] {
        let lim = [if matches!(fam, G::GaussHermite) { T::NEG_INFINITY } else { T::ZERO }, T::INFINITY];
        let (g, h) = (GaussianMulti::<T>::from_parameters(2, fam), GaussianSingle::<T>::from_parameters(2, fam));
        T::prove("fixed range, one variable", eq(g.single_partial_integral(&f, j, &lim, &at).unwrap(), h.single_integral(&|x| f(&slot(at, j, x)), &lim).unwrap()));
        let nested = h.single_integral(&|y| h.single_integral(&|x| f(&slot(slot(at, k, y), j, x)), &lim).unwrap(), &lim).unwrap();
        T::prove("fixed range, two variables", eq(g.double_partial_integral(&f, [j, k], &[lim, lim], &at).unwrap(), nested));
    }
}
/// many variables, exact on what the rules promise, three deep
fn boxes<T: Scal>() {
    let (m, _, _) = rule::<T>();
    let (x, y, z) = (interval::<T>(), interval::<T>(), interval::<T>());
    let k = T::vars::<4>("k");
    let f = |p: &[T; 4]| k[0] + k[1] * p[0] * p[2] + k[2] * p[2] * p[3] + k[3] * p[0] * p[2] * p[3] * p[1];
    let at = T::vars::<4>("at");
    let s = IterativeMulti::<T>::from_parameters(1, m);
    let got = s.integrate([2, 3, 0], &f, &[z, y, x], &at).unwrap();
    let (l, mm) = (|i: [T; 2]| i[1] - i[0], |i: [T; 2]| (i[1] * i[1] - i[0] * i[0]) / T::TWO);
    let want = k[0] * l(x) * l(y) * l(z) + k[1] * mm(x) * mm(z) * l(y) + k[2] * mm(z) * mm(y) * l(x) + k[3] * mm(x) * mm(z) * mm(y) * at[1];
    T::prove("volume", eq(got, want));
}
/// improper ranges: the substituted rule
fn improper<T: Scal>() {
    let (m, _, block) = rule::<T>();
    let a = T::var("a");
    let f = |x: T| T::uf("f", &[x]);
    let s = IterativeSingle::<T>::from_parameters(block, m);
    let up = s.single_integral(&f, &[a, T::INFINITY]).unwrap();
    T::prove("downward range mirrors the upward one", eq(s.single_integral(&|x: T| f(-x), &[T::NEG_INFINITY, -a]).unwrap(), up));
    T::prove("slides with its end", eq(s.single_integral(&|x| f(x + a), &[T::ZERO, T::INFINITY]).unwrap(), up));
    let k = T::var("k");
    let tail = s.single_integral(&|x| k / ((T::ONE + x - a) * (T::ONE + x - a)), &[a, T::INFINITY]).unwrap();
    T::prove("inverse-square tail", eq(tail, k * (T::ONE - T::EPSILON)));
    let multi = IterativeMulti::<T>::from_parameters(block, m);
    let at = T::vars::<2>("at");
    let j = T::choose("variable", 2);
    let v = multi.single_partial_integral(&|p: &[T; 2]| f(p[j]) * p[1 - j], j, &[a, T::INFINITY], &at).unwrap();
    T::prove("partial", eq(v, up * at[1 - j]));
    let g = |p: &[T; 2]| f(p[j]) * T::uf("g", &[p[1 - j]]);
    let other = interval::<T>();
    let side = s.single_integral(&|x| T::uf("g", &[x]), &other).unwrap();
    T::prove("nested, infinite inside", eq(multi.double_partial_integral(&g, [j, 1 - j], &[[a, T::INFINITY], other], &at).unwrap(), up * side));
    T::prove("nested, infinite outside", eq(multi.double_partial_integral(&g, [1 - j, j], &[other, [a, T::INFINITY]], &at).unwrap(), up * side));
    let one = s.single_integral(&|_| T::ONE, &[a, T::INFINITY]).unwrap();
    T::prove("repeated", eq(s.double_integral(&f, &[other, [a, T::INFINITY]]).unwrap(), one * s.single_integral(&f, &other).unwrap()));
}
fn improper_values<T: Scal>() {
    let s = IterativeSingle::<T>::from_parameters(2000, match T::rndi(3) {
        0 => IterativeMethod::Booles,
        1 => IterativeMethod::Simpsons,
        _ => IterativeMethod::Trapezoidal,
    });
    let a = T::rnd(-3, 3, 4);
    let r = T::rnd(1, 3, 4);
    let gauss = |x: T| (-(x - a) * (x - a) * r).exp();
    T::prove_close("decay", s.single_integral(&|x| (-(x - a) * r).exp(), &[a, T::INFINITY]).unwrap() * r, T::ONE, 1e-5);
    T::prove_close("growth", s.single_integral(&|x| ((x - a) * r).exp(), &[T::NEG_INFINITY, a]).unwrap() * r, T::ONE, 1e-5);
    T::prove_close("bell", s.single_integral(&gauss, &[T::NEG_INFINITY, T::INFINITY]).unwrap(), (T::PI / r).sqrt(), 1e-5);
    T::prove_close("half bell", s.single_integral(&gauss, &[a, T::INFINITY]).unwrap(), (T::PI / r).sqrt() / T::TWO, 1e-5);
    let m = IterativeMulti::<T>::from_parameters(120, IterativeMethod::Booles);
    let bell = |p: &[T; 2]| gauss(p[0]) * (-p[1] * p[1]).exp();
    let all = [T::NEG_INFINITY, T::INFINITY];
    T::prove_close("plane bell", m.double_partial_integral(&bell, [0, 1], &[all, all], &[T::ZERO, T::ZERO]).unwrap(), T::PI / r.sqrt(), 1e-4);
    let sm = IterativeSingle::<T>::default();
    let lim = [a, a + r];
    T::prove_close("waves", sm.single_integral(&|x: T| x.sin(), &lim).unwrap(), lim[0].cos() - lim[1].cos(), 1e-9);
}
/// any Gaussian order: a weighted sum over fixed nodes, carried to the interval
fn gaussian_shape<T: Scal>() {
    let n = 1 + T::choose("order", MAX_ORDER);
    let fam = [G::GaussLegendre, G::GaussHermite, G::GaussLaguerre][T::choose("family", 3)];
    let s = GaussianSingle::<T>::from_parameters(n, fam);
    let lim = match fam {
        G::GaussLegendre => [-T::ONE, T::ONE],
        G::GaussHermite => [T::NEG_INFINITY, T::INFINITY],
        G::GaussLaguerre => [T::ZERO, T::INFINITY],
    };
    let seen = RefCell::new(vec![]);
    let (f, g) = (|x: T| T::uf("f", &[x]), |x: T| T::uf("g", &[x]));
    let fi = s.single_integral(&|x| { seen.borrow_mut().push(x); f(x) }, &lim).unwrap();
    T::prove("one sample per node", b(seen.borrow().len() == n));
    let (p, q) = (T::var("p"), T::var("q"));
    T::prove("linear", eq(s.single_integral(&|x| p * f(x) + q * g(x), &lim).unwrap(), p * fi + q * s.single_integral(&g, &lim).unwrap()));
    let inside: Vec<P<T>> = seen.borrow().iter().map(|x| match fam {
        G::GaussLegendre => and(vec![lt(-T::ONE, *x), lt(*x, T::ONE)]),
        G::GaussHermite => b(true),
        G::GaussLaguerre => lt(T::ZERO, *x),
    }).collect();
    T::prove("nodes inside the range", and(inside));
    if let G::GaussLegendre = fam {
        let [lo, hi] = interval::<T>();
        let (h, m) = ((hi - lo) / T::TWO, (hi + lo) / T::TWO);
        let here = s.single_integral(&f, &[lo, hi]).unwrap();
        T::prove("carried to any interval", eq(here, h * s.single_integral(&|t| f(h * t + m), &lim).unwrap()));
    }
}
/// each tabulated order on each power it promises
fn gaussian_exact<T: Scal>() {
    for n in 1..=MAX_ORDER {
        for k in 0..2 * n {
            let pw = |x: T| {
                let mut o = T::ONE;
                for _ in 0..k {
                    o = o * x;
                }
                o
            };
            let even = k % 2 == 0;
            let g = GaussianSingle::<T>::from_parameters(n, G::GaussLegendre).single_integral(&pw, &[-T::ONE, T::ONE]).unwrap();
            let want = if even { 2.0 / (k as f64 + 1.0) } else { 0.0 };
            T::prove_close("legendre", g, T::from_f64(want), 1e-13);
            let (mut odd, mut fact) = (1.0f64, 1.0f64);
            for i in 1..=k {
                fact *= i as f64;
                if i % 2 == 1 && i < k {
                    odd *= i as f64 / 2.0;
                }
            }
            let scale = T::from_f64(1.0 / fact);
            let g = GaussianSingle::<T>::from_parameters(n, G::GaussLaguerre).single_integral(&|x| pw(x) * scale, &[T::ZERO, T::INFINITY]).unwrap();
            T::prove_close("laguerre", g, T::ONE, 1e-11);
            // (2j-1)!!/2^j sqrt(pi); an odd power is measured against the even one below it
            let scale = T::from_f64(1.0 / odd);
            let g = GaussianSingle::<T>::from_parameters(n, G::GaussHermite).single_integral(&|x| pw(x) * scale, &[T::NEG_INFINITY, T::INFINITY]).unwrap();
            T::prove_close("hermite", g, if even { T::from_f64(std::f64::consts::PI.sqrt()) } else { T::ZERO }, 1e-11);
        }
    }
}
fn refusals<T: Scal>() {
    let [lo, hi] = interval::<T>();
    let f = |x: T| T::uf("f", &[x]);
    let f2 = |x: &[T; 2]| T::uf("f", x);
    let at = T::vars::<2>("at");
    let bad = match T::choose("limits", 8) {
        0 => [hi, lo],
        1 => [lo, lo],
        2 => [lo, T::NEG_INFINITY],
        3 => [T::INFINITY, hi],
        4 => [T::INFINITY, T::NEG_INFINITY],
        5 => [T::INFINITY, T::INFINITY],
        6 => [T::NAN, hi],
        _ => [lo, T::NAN],
    };
    let (m, _, _) = rule::<T>();
    let (s, sm) = (IterativeSingle::<T>::from_parameters(2, m), IterativeMulti::<T>::from_parameters(2, m));
    let ill = IntegrateError::LimitsIllDefined;
    refused_with("limits", s.single_integral(&f, &bad), ill);
    refused_with("inner limits", s.double_integral(&f, &[bad, [lo, hi]]), ill);
    refused_with("outer limits", s.double_integral(&f, &[[lo, hi], bad]), ill);
    refused_with("partial limits", sm.single_partial_integral(&f2, 0, &bad, &at), ill);
    refused_with("outer partial limits", sm.double_partial_integral(&f2, [0, 1], &[[lo, hi], bad], &at), ill);
    let fam = [G::GaussLegendre, G::GaussHermite, G::GaussLaguerre][T::choose("family", 3)];
    let (g, gm) = (GaussianSingle::<T>::from_parameters(3, fam), GaussianMulti::<T>::from_parameters(3, fam));
    refused_with("gaussian limits", g.single_integral(&f, &bad), ill);
    refused_with("gaussian partial limits", gm.single_partial_integral(&f2, 1, &bad, &at), ill);
    let domains = [[lo, hi], [T::NEG_INFINITY, T::INFINITY], [T::ZERO, T::INFINITY], [T::NEG_INFINITY, T::ZERO], [T::pos("above"), T::INFINITY]];
    for (k, d) in domains.iter().enumerate() {
        let want = match fam {
            G::GaussLegendre => k == 0,
            G::GaussHermite => k == 1,
            G::GaussLaguerre => k == 2,
        };
        T::prove("only its own range", b(g.single_integral(&f, d).is_ok() == want && gm.single_partial_integral(&f2, 0, d, &at).is_ok() == want));
    }
    let zero = IterativeSingle::<T>::from_parameters(0, m);
    refused_with("no intervals", zero.single_integral(&f, &[lo, hi]), IntegrateError::IterationsZero);
    refused_with("no intervals comes first", zero.single_integral(&f, &bad), IntegrateError::IterationsZero);
    refused_with("no intervals, partial", IterativeMulti::<T>::from_parameters(0, m).single_partial_integral(&f2, 0, &[lo, hi], &at), IntegrateError::IterationsZero);
    let idx = 2 + T::choose("index", 3);
    refused_with("index", sm.single_partial_integral(&f2, idx, &[lo, hi], &at), IntegrateError::IndexOutOfRange);
    refused_with("second index", sm.double_partial_integral(&f2, [0, idx], &[[lo, hi], [lo, hi]], &at), IntegrateError::IndexOutOfRange);
    let gm = GaussianMulti::<T>::from_parameters(2, G::GaussLegendre);
    refused_with("gaussian index", gm.single_partial_integral(&f2, idx, &[lo, hi], &at), IntegrateError::IndexOutOfRange);
    for order in [0, MAX_ORDER + 1, 1000, usize::MAX] {
        refused_with("order", GaussianSingle::<T>::from_parameters(order, G::GaussLegendre).single_integral(&f, &[lo, hi]), IntegrateError::QuadratureOrderOutOfRange);
        refused_with("order, partial", GaussianMulti::<T>::from_parameters(order, G::GaussLegendre).single_partial_integral(&f2, 0, &[lo, hi], &at), IntegrateError::QuadratureOrderOutOfRange);
    }
}
/// one bad sample anywhere is refused
fn bad_sample<T: Scal>() {
    let (m, _, block) = rule::<T>();
    let n = (block * 2 + 1) as usize;
    let k = T::choose("sample", n);
    let x = T::special("f");
    let count = RefCell::new(0);
    let f = |v: T| {
        let mut c = count.borrow_mut();
        *c += 1;
        if *c == k + 1 { x } else { T::uf("f", &[v]) }
    };
    let [lo, hi] = interval::<T>();
    let lim = [[lo, hi], [lo, T::INFINITY], [T::NEG_INFINITY, hi]][T::choose("range", 3)];
    let e = IntegrateError::NonFinite;
    refused_with("composite", IterativeSingle::<T>::from_parameters(block * 2, m).single_integral(&f, &lim), e);
    *count.borrow_mut() = 0;
    refused_with("composite, partial", IterativeMulti::<T>::from_parameters(block * 2, m).single_partial_integral(&|p: &[T; 2]| f(p[0]), 0, &lim, &[lo, lo]), e);
    *count.borrow_mut() = 0;
    refused_with("composite, nested", IterativeMulti::<T>::from_parameters(block * 2, m).double_partial_integral(&|p: &[T; 2]| f(p[0]), [0, 1], &[lim, [lo, hi]], &[lo, lo]), e);
    for (fam, d) in [(G::GaussLegendre, [lo, hi]), (G::GaussHermite, [T::NEG_INFINITY, T::INFINITY]), (G::GaussLaguerre, [T::ZERO, T::INFINITY])] {
        *count.borrow_mut() = 0;
        refused_with("gaussian", GaussianSingle::<T>::from_parameters(n, fam).single_integral(&f, &d), e);
        *count.borrow_mut() = 0;
        refused_with("gaussian, partial", GaussianMulti::<T>::from_parameters(n, fam).double_partial_integral(&|p: &[T; 2]| f(p[0]), [0, 1], &[d, d], &[lo, lo]), e);
    }
}
/// a potential with constant curvature, along any curve whatever
fn gradient<T: Scal>() {
    let h = sym::<T, 3>("h");
    let g = T::vars::<3>("g");
    let phi = |p: [T; 3]| {
        let mut o = T::ZERO;
        for i in 0..3 {
            o = o + g[i] * p[i];
            for j in 0..3 {
                o = o + p[i] * h[(i, j)] * p[j] / T::TWO;
            }
        }
        o
    };
    let pull = |i: usize, p: &[T; 3]| g[i] + h[(i, 0)] * p[0] + h[(i, 1)] * p[1] + h[(i, 2)] * p[2];
    let (f0, f1, f2) = (|p: &[T; 3]| pull(0, p), |p: &[T; 3]| pull(1, p), |p: &[T; 3]| pull(2, p));
    let (x, y, z) = (|t: T| T::uf("x", &[t]), |t: T| T::uf("y", &[t]), |t: T| T::uf("z", &[t]));
    let [lo, hi] = interval::<T>();
    let n = 1 + T::choose("n", 4);
    let got = line_integral_3d_custom(&[&f0, &f1, &f2], &[&x, &y, &z], &[lo, hi], n as u64).unwrap();
    let end = |t: T| phi([x(t), y(t), z(t)]);
    T::prove("end minus start", eq(got, end(hi) - end(lo)));
    let flat = |i: usize, p: &[T; 2]| g[i] + h[(i, 0)] * p[0] + h[(i, 1)] * p[1];
    let (e0, e1) = (|p: &[T; 2]| flat(0, p), |p: &[T; 2]| flat(1, p));
    let end = |t: T| phi([x(t), y(t), T::ZERO]);
    let got = line_integral_2d_custom(&[&e0, &e1], &[&x, &y], &[lo, hi], n as u64).unwrap();
    T::prove("in the plane", eq(got, end(hi) - end(lo)));
}
/// any field, any curve: the trapezoid on each chord, one component at a time
fn chords<T: Scal>() {
    let [lo, hi] = interval::<T>();
    let n = 1 + T::choose("n", 3);
    let (x, y, z) = (|t: T| T::uf("x", &[t]), |t: T| T::uf("y", &[t]), |t: T| T::uf("z", &[t]));
    let at = |k: usize| lo + (hi - lo) * T::i(k as i64) / T::i(n as i64);
    let chord = |field: &dyn Fn(T) -> T, along: &dyn Fn(T) -> T| {
        let mut o = T::ZERO;
        for k in 0..n {
            let (s, e) = (at(k), at(k + 1));
            o = o + (along(e) - along(s)) * (field(s) + field(e)) / T::TWO;
        }
        o
    };
    let nn = n as u64;
    let lim = [lo, hi];
    let (f0, f1) = (|p: &[T; 2]| T::uf("f0", p), |p: &[T; 2]| T::uf("f1", p));
    let w0 = chord(&|t| f0(&[x(t), y(t)]), &x);
    let w1 = chord(&|t| f1(&[x(t), y(t)]), &y);
    T::prove("plane", eq(line_integral_2d_custom(&[&f0, &f1], &[&x, &y], &lim, nn).unwrap(), w0 + w1));
    T::prove("plane, each component", and(vec![eq(line_integral_partial_2d(&[&f0, &f1], &[&x, &y], &lim, nn, 0).unwrap(), w0), eq(line_integral_partial_2d(&[&f0, &f1], &[&x, &y], &lim, nn, 1).unwrap(), w1)]));
    T::prove("plane, first less second", eq(flux_integral_2d_custom(&[&f0, &f1], &[&x, &y], &lim, nn).unwrap(), w0 - w1));
    let (g0, g1, g2) = (|p: &[T; 3]| T::uf("g0", p), |p: &[T; 3]| T::uf("g1", p), |p: &[T; 3]| T::uf("g2", p));
    let w0 = chord(&|t| g0(&[x(t), y(t), z(t)]), &x);
    let w1 = chord(&|t| g1(&[x(t), y(t), z(t)]), &y);
    let w2 = chord(&|t| g2(&[x(t), y(t), z(t)]), &z);
    let (field, curve): ([&dyn Fn(&[T; 3]) -> T; 3], [&dyn Fn(T) -> T; 3]) = ([&g0, &g1, &g2], [&x, &y, &z]);
    T::prove("space", eq(line_integral_3d_custom(&field, &curve, &lim, nn).unwrap(), w0 + w1 + w2));
    T::prove("space, each component", and((0..3).map(|i| eq(line_integral_partial_3d(&field, &curve, &lim, nn, i).unwrap(), [w0, w1, w2][i])).collect()));
    T::prove("space, first less the others", eq(flux_integral_3d_custom(&field, &curve, &lim, nn).unwrap(), w0 - w1 - w2));
}
/// a straight path under a linear field: exact at the default count too
fn straight<T: Scal>() {
    let (h, g) = (mat::<T, 2, 2>("h"), T::vars::<2>("g"));
    let (p, v) = (T::vars::<2>("p"), T::vars::<2>("v"));
    let [lo, hi] = interval::<T>();
    let (f0, f1) = (|q: &[T; 2]| g[0] + h[(0, 0)] * q[0] + h[(0, 1)] * q[1], |q: &[T; 2]| g[1] + h[(1, 0)] * q[0] + h[(1, 1)] * q[1]);
    let (x, y) = (|t: T| p[0] + v[0] * t, |t: T| p[1] + v[1] * t);
    let mid = (lo + hi) / T::TWO;
    let w = [v[0] * f0(&[x(mid), y(mid)]) * (hi - lo), v[1] * f1(&[x(mid), y(mid)]) * (hi - lo)];
    T::prove("work", eq(line_integral_2d(&[&f0, &f1], &[&x, &y], &[lo, hi]).unwrap(), w[0] + w[1]));
    T::prove("first less second", eq(flux_integral_2d(&[&f0, &f1], &[&x, &y], &[lo, hi]).unwrap(), w[0] - w[1]));
    let z = T::var("z");
    let (e0, e1, e2) = (|q: &[T; 3]| f0(&[q[0], q[1]]), |q: &[T; 3]| f1(&[q[0], q[1]]), |q: &[T; 3]| q[2]);
    let up = |t: T| z * t;
    let wz = z * z * mid * (hi - lo);
    T::prove("work in space", eq(line_integral_3d(&[&e0, &e1, &e2], &[&x, &y, &up], &[lo, hi]).unwrap(), w[0] + w[1] + wz));
    T::prove("first less the others in space", eq(flux_integral_3d(&[&e0, &e1, &e2], &[&x, &y, &up], &[lo, hi]).unwrap(), w[0] - w[1] - wz));
}
/// what passes through a straight wall: field component across it times its length
fn crossing<T: Scal>() {
    let g = T::vars::<2>("g");
    let v = T::vars::<2>("v");
    let [lo, hi] = interval::<T>();
    let (f0, f1) = (|_: &[T; 2]| g[0], |_: &[T; 2]| g[1]);
    let (x, y) = (|t: T| v[0] * t, |t: T| v[1] * t);
    let got = flux_integral_2d_custom(&[&f0, &f1], &[&x, &y], &[lo, hi], 1).unwrap();
    T::prove("flow across a wall", eq(got, (g[0] * v[1] - g[1] * v[0]) * (hi - lo)));
}
fn path_refusals<T: Scal>() {
    let [lo, hi] = interval::<T>();
    let f = |p: &[T; 2]| T::uf("f", p);
    let g = |p: &[T; 3]| T::uf("f", p);
    let x = |t: T| T::uf("x", &[t]);
    let (f2, c2): ([&dyn Fn(&[T; 2]) -> T; 2], [&dyn Fn(T) -> T; 2]) = ([&f, &f], [&x, &x]);
    let (f3, c3): ([&dyn Fn(&[T; 3]) -> T; 3], [&dyn Fn(T) -> T; 3]) = ([&g, &g, &g], [&x, &x, &x]);
    let go = |name: &str, lim: [T; 2], n: u64, e: IntegrateError| {
        refused_with(name, line_integral_2d_custom(&f2, &c2, &lim, n), e);
        refused_with(name, flux_integral_2d_custom(&f2, &c2, &lim, n), e);
        refused_with(name, line_integral_3d_custom(&f3, &c3, &lim, n), e);
        refused_with(name, flux_integral_3d_custom(&f3, &c3, &lim, n), e);
        for i in 0..2 {
            refused_with(name, line_integral_partial_2d(&f2, &c2, &lim, n, i), e);
        }
        for i in 0..3 {
            refused_with(name, line_integral_partial_3d(&f3, &c3, &lim, n, i), e);
        }
    };
    go("no steps", [lo, hi], 0, IntegrateError::IterationsZero);
    for bad in [[hi, lo], [lo, lo], [T::NAN, hi], [lo, T::NAN]] {
        go("limits", bad, 3, IntegrateError::LimitsIllDefined);
    }
}
fn main() {
    run::main(
        run::Info { id: "C20", assumptions: &[
            "composite rules are proved for the listed interval counts (1 to 40, 120, 130, 261, 300), not for every count",
            "Gaussian weights and nodes are evaluated, power by power, to 1e-11 or better; linearity carries that to every polynomial",
            "the conventional flux across a curve is a recorded finding; the signed sum upstream's tests pin is what is proved",
        ] },
        vec![
            proof!(composite, "IterativeSingle::integrate, IterativeConfig::from_parameters, booles, simpsons, trapezoidal"),
            proof!(composite_long, "IterativeSingle::integrate, Acc"),
            proof!(laws, "IterativeSingle::integrate"),
            proof!(repeated, "IterativeSingle::integrate, GaussianSingle::integrate"),
            proof!(partial, "IterativeMulti::integrate, GaussianMulti::integrate"),
            proof!(boxes, "IterativeMulti::integrate"),
            proof!(improper, "IterativeSingle::integrate, IterativeMulti::integrate, classify, t_bounds, map_sample"),
            sampled!(improper_values, 40, "IterativeSingle::integrate, IterativeMulti::integrate"),
            proof!(gaussian_shape, "GaussianSingle::integrate, gaussian_tables::nodes"),
            sampled!(gaussian_exact, 1, "GaussianSingle::integrate, gaussian_tables"),
            proof!(refusals, "IterativeSingle, IterativeMulti, GaussianSingle, GaussianMulti::integrate"),
            proof!(bad_sample, "IterativeSingle, IterativeMulti, GaussianSingle, GaussianMulti::integrate"),
            proof!(gradient, "line_integral_2d_custom, line_integral_3d_custom"),
            proof!(chords, "line_integral_*, flux_integral_*, get_partial"),
            proof!(straight, "line_integral_2d, line_integral_3d, flux_integral_2d, flux_integral_3d"),
            proof!(crossing, "flux_integral_2d_custom"),
            proof!(path_refusals, "line_integral_*, flux_integral_*"),
        ],
    );
}
