use contracts::*;
use multicalc::error::PolynomialError;
use multicalc::polynomial::*;

/// a (x - r0)(x - r1)... , lowest power first
fn expand<const N: usize, T: Scal>(a: T, r: &[T]) -> [T; N] {
    let mut c = [T::ZERO; N];
    c[0] = a;
    for (k, root) in r.iter().enumerate() {
        for j in (0..=k + 1).rev() {
            let below = if j > 0 { c[j - 1] } else { T::ZERO };
            c[j] = below - *root * c[j];
        }
    }
    c
}
fn times<const N: usize, T: Scal>(p: &[T], q: &[T]) -> [T; N] {
    let mut c = [T::ZERO; N];
    for (i, a) in p.iter().enumerate() {
        for (j, d) in q.iter().enumerate() {
            c[i + j] = c[i + j] + *a * *d;
        }
    }
    c
}
fn sorted<T: Scal>(r: &[T]) -> P<T> {
    and((1..r.len()).map(|k| le(r[k - 1], r[k])).collect())
}
/// the same roots, repeats counted: equal coefficients of the two monic products
fn same_roots<const N: usize, T: Scal>(got: &[T], want: &[T]) -> P<T> {
    if got.len() != want.len() {
        return b(false);
    }
    eqs(&expand::<N, T>(T::ONE, got), &expand::<N, T>(T::ONE, want))
}
fn nonzero<T: Scal>(name: &str) -> T {
    let x = T::pos(name);
    if T::choose("sign", 2) == 0 { x } else { -x }
}
fn linear<T: Scal>() {
    let (a, c) = (nonzero::<T>("a"), T::var("c"));
    let Ok(r) = Polynomial::<2, T>::new([c, a]).real_roots() else { return T::prove("a sloped line has a root", b(false)) };
    T::prove("one root", b(r.len() == 1 && !r.is_empty()));
    T::prove("where the line vanishes", eq(c + a * r.as_slice()[0], T::ZERO));
}
fn quadratic_factored<T: Scal>() {
    let (a, r, g) = (nonzero::<T>("a"), T::var("r"), T::nonneg("gap"));
    let c = expand::<3, T>(a, &[r, r + g]);
    let Ok(f) = Polynomial::<3, T>::new(c).real_roots() else { return T::prove("a parabola is accepted", b(false)) };
    T::prove("both roots, in order", if f.len() == 2 { eqs(f.as_slice(), &[r, r + g]) } else { b(false) });
}
fn quadratic_none<T: Scal>() {
    let (a, m, k) = (nonzero::<T>("a"), T::var("m"), T::pos("k"));
    let Ok(f) = Polynomial::<3, T>::new([a * (m * m + k), -T::i(2) * a * m, a]).real_roots() else { return T::prove("a parabola is accepted", b(false)) };
    T::prove("no real root", b(f.is_empty() && f.len() == 0 && f.as_slice().is_empty()));
}
/// straight from any coefficients
fn quadratic_any<T: Scal>() {
    let (a, l, c) = (nonzero::<T>("a"), T::var("l"), T::var("c"));
    let Ok(f) = Polynomial::<3, T>::new([c, l, a]).real_roots() else { return T::prove("a parabola is accepted", b(false)) };
    let d = l * l - T::i(4) * a * c;
    if f.is_empty() {
        return T::prove("no root only without a real root", lt(d, T::ZERO));
    }
    T::prove("real roots exist", ge(d, T::ZERO));
    let s = f.as_slice();
    T::prove("two, in order", and(vec![b(s.len() == 2), sorted(s)]));
    T::prove("with the polynomial's own sum and product", and(vec![eq(a * (s[0] + s[1]), -l), eq(a * s[0] * s[1], c)]));
}
fn third<T: Scal>() -> T {
    T::angle_div(3);
    let t = T::PI / T::i(3);
    T::assume(and(vec![eq(t.cos(), T::q(1, 2)), gt(t.sin(), T::ZERO)]));
    T::PI
}
/// three real roots: every such triple is a centre, a radius and an angle
/// the trigonometric branch: three real roots, by centre, radius and angle
fn cubic_three<T: Scal>() {
    let (a, m, w) = (T::rnd(1, 9, 2), T::rnd(-9, 9, 3), T::rnd(1, 12, 4));
    let th = T::rnd(2, 17, 1) * T::PI / T::i(60);
    let mut want: Vec<T> = (0..3).map(|k| m + w * (th - T::i(2 * k) * T::PI / T::i(3)).cos()).collect();
    want.sort_by(|p, q| p.partial_cmp(q).unwrap());
    let a = if T::rndi(2) == 0 { a } else { -a };
    let Ok(f) = Polynomial::<4, T>::new(expand::<4, T>(a, &want)).real_roots() else { return T::prove("a cubic is accepted", b(false)) };
    T::prove("three", b(f.len() == 3));
    for k in 0..3 {
        T::prove_close("exactly its roots, in order", f.as_slice()[k], want[k], 1e-6);
    }
}
fn cubic_repeated<T: Scal>() {
    let _ = third::<T>();
    let (a, r, g) = (nonzero::<T>("a"), T::var("r"), T::pos("gap"));
    let want = match T::choose("which", 3) {
        0 => [r, r, r + g],
        1 => [r, r + g, r + g],
        _ => [r, r, r],
    };
    let Ok(f) = Polynomial::<4, T>::new(expand::<4, T>(a, &want)).real_roots() else { return T::prove("a cubic is accepted", b(false)) };
    T::prove("in order", sorted(f.as_slice()));
    T::prove("exactly its roots, repeats included", same_roots::<4, T>(f.as_slice(), &want));
}
/// one real root: y^3 - 3uv y - (u^3 + v^3), the rest a complex pair when u and v differ
fn cubic_one<T: Scal>() {
    let (a, m) = (nonzero::<T>("a"), T::var("m"));
    let v = match T::choose("v", 3) {
        0 => T::ZERO,
        1 => T::pos("v"),
        _ => -T::pos("v"),
    };
    let u = match T::choose("u", 3) {
        0 => T::ZERO,
        1 => T::pos("u"),
        _ => -T::pos("u"),
    };
    T::assume(ne(u, v));
    let root = m + u + v;
    // (x - root) ((x - m)^2 + (u + v)(x - m) + u^2 - u v + v^2)
    let (s, t) = (u + v, u * u - u * v + v * v);
    let co = times::<4, T>(&[-root, T::ONE], &[m * m - s * m + t, s - T::i(2) * m, T::ONE]).map(|x| a * x);
    let Ok(f) = Polynomial::<4, T>::new(co).real_roots() else { return T::prove("a cubic is accepted", b(false)) };
    T::prove("one root", b(f.len() == 1));
    T::prove("the real one", eq(f.as_slice()[0], root));
}
/// quartics symmetric about a centre
fn quartic_even<T: Scal>() {
    let (a, m) = (nonzero::<T>("a"), T::var("m"));
    let (s, t) = (T::pos("s"), T::pos("t"));
    // (y^2 -+ s^2)(y^2 -+ t^2), zero included
    let kinds = [s * s, -(s * s), T::ZERO];
    let kindt = [t * t, -(t * t), T::ZERO];
    let (i, j) = (T::choose("first", 3), T::choose("second", 3));
    let (p, q) = (kinds[i], kindt[j]);
    let mut want = vec![];
    for (k, r) in [(i, s), (j, t)] {
        match k {
            0 => want.extend([m - r, m + r]),
            1 => {}
            _ => want.extend([m, m]),
        }
    }
    let c2 = m * m;
    let co = times::<5, T>(&[c2 - p, -T::i(2) * m, T::ONE], &[c2 - q, -T::i(2) * m, T::ONE]).map(|x| a * x);
    let Ok(f) = Polynomial::<5, T>::new(co).real_roots() else { return T::prove("a quartic is accepted", b(false)) };
    T::prove("in order", sorted(f.as_slice()));
    T::prove("exactly its roots, repeats included", same_roots::<5, T>(f.as_slice(), &want));
}
fn refused<T: Scal>() {
    let bad = T::special("bad");
    let o = T::ONE;
    let v = T::vars::<5>("v");
    let z = PolynomialError::LeadingCoefficientZero;
    let n = PolynomialError::NonFinite;
    T::prove("leading zero", b(Polynomial::<2, T>::new([v[0], T::ZERO]).real_roots().err() == Some(z) && Polynomial::<3, T>::new([v[0], v[1], T::ZERO]).real_roots().err() == Some(z) && Polynomial::<4, T>::new([v[0], v[1], v[2], T::ZERO]).real_roots().err() == Some(z) && Polynomial::<5, T>::new([v[0], v[1], v[2], v[3], T::ZERO]).real_roots().err() == Some(z)));
    let k = T::choose("slot", 5);
    let mut w = v;
    w[k] = bad;
    if k < 2 {
        T::prove("non-finite", b(Polynomial::<2, T>::new([w[0], w[1]]).real_roots().err() == Some(n)));
    }
    if k < 3 {
        T::prove("non-finite", b(Polynomial::<3, T>::new([w[0], w[1], w[2]]).real_roots().err() == Some(n)));
    }
    if k < 4 {
        T::prove("non-finite", b(Polynomial::<4, T>::new([w[0], w[1], w[2], w[3]]).real_roots().err() == Some(n)));
    }
    let p = Polynomial::<5, T>::new(w);
    T::prove("non-finite", b(p.real_roots().err() == Some(n) && p.cauchy_root_bound().err() == Some(n) && p.count_real_roots(o, o).err() == Some(n) && p.real_roots_in(-o, o, o, 9).err() == Some(n)));
    let p = Polynomial::<5, T>::zeros();
    T::prove("zero everywhere", b(p.cauchy_root_bound().err() == Some(z) && p.count_real_roots(-o, o).err() == Some(z) && p.real_roots_in(-o, o, o, 9).err() == Some(z)));
    let p = Polynomial::<2, T>::new([v[0], o]);
    let (x, e) = (T::var("x"), T::nonneg("e"));
    T::prove("non-finite range", b(p.real_roots_in(bad, x, o, 9).err() == Some(n) && p.real_roots_in(x, bad, o, 9).err() == Some(n) && p.real_roots_in(x, x, bad, 9).err() == Some(n)));
    T::prove("tolerance above zero", b(p.real_roots_in(x, x, -e, 9).err() == Some(PolynomialError::ToleranceNotPositive)));
    T::prove("range reversed", b(p.real_roots_in(x + o, x, o, 9).err() == Some(PolynomialError::RangeReversed)));
}
/// every root of every polynomial lies inside the bound
fn bound<T: Scal>() {
    fn go<const N: usize, T: Scal>() {
        let mut c = T::vars::<N>("c");
        c[N - 1] = nonzero("lead");
        let Ok(r) = Polynomial::<N, T>::new(c).cauchy_root_bound() else { return T::prove("bounded", b(false)) };
        T::prove("largest ratio plus one", and(vec![ge(r, T::ONE), and((0..N - 1).map(|k| le(c[k].abs(), (r - T::ONE) * c[N - 1].abs())).collect())]));
        // outside it the leading term outweighs the rest
        let x = r + T::nonneg("over");
        let x = if T::choose("side", 2) == 0 { x } else { -x };
        if N == 3 {
            let v = c[0] + c[1] * x + c[2] * x * x;
            T::prove("no root outside", ne(v, T::ZERO));
        }
        if N == 2 {
            T::prove("no root outside", ne(c[0] + c[1] * x, T::ZERO));
        }
    }
    match T::choose("size", 4) {
        0 => go::<1, T>(),
        1 => go::<2, T>(),
        2 => go::<3, T>(),
        _ => go::<5, T>(),
    }
    // trailing zeros do not count
    let (a, c) = (nonzero::<T>("a"), T::var("c"));
    T::prove("degree, not size", eq(Polynomial::<4, T>::new([c, a, T::ZERO, T::ZERO]).cauchy_root_bound().unwrap(), T::ONE + (c / a).abs()));
}
fn inside<T: Scal>(r: &[T], lo: T, hi: T) -> usize {
    let mut seen: Vec<T> = vec![];
    for x in r {
        if T::holds(and(vec![lt(lo, *x), le(*x, hi)])) && !seen.iter().any(|s| T::holds(eq(*s, *x))) {
            seen.push(*x);
        }
    }
    seen.len()
}
/// counting, for every quadratic with real roots or none and every range
fn counted<T: Scal>() {
    let a = nonzero::<T>("a");
    let r = T::var("r");
    let (c, want) = match T::choose("roots", 3) {
        0 => {
            let g = T::pos("gap");
            (expand::<3, T>(a, &[r, r + g]), vec![r, r + g])
        }
        1 => (expand::<3, T>(a, &[r, r]), vec![r]),
        _ => ([a * (r * r + T::pos("k")), -T::i(2) * a * r, a], vec![]),
    };
    let lo = T::var("lo");
    let hi = lo + T::nonneg("width");
    let Ok(n) = Polynomial::<3, T>::new(c).count_real_roots(lo, hi) else { return T::prove("counts", b(false)) };
    T::prove("distinct real roots above lower, up to upper", b(n == inside(&want, lo, hi)));
}
/// cubics with a repeated root: the case where every entry of the chain vanishes at once
fn counted_repeated<T: Scal>() {
    let a = nonzero::<T>("a");
    let r = T::var("r");
    let g = nonzero::<T>("gap");
    let want = [r, r, r + g];
    let c = expand::<4, T>(a, &want);
    // the ends sit at, below or above the roots, at any distance
    let (lo, hi) = match T::choose("range", 5) {
        0 => (r, r + T::pos("w")),
        1 => (r - T::pos("w"), r),
        2 => (r + g, r + g + T::pos("w")),
        3 => (r - T::pos("w"), r + g),
        _ => (r + g, r + T::pos("w")),
    };
    T::assume(le(lo, hi));
    let Ok(n) = Polynomial::<4, T>::new(c).count_real_roots(lo, hi) else { return T::prove("counts", b(false)) };
    T::prove("distinct real roots above lower, up to upper", b(n == inside(&want, lo, hi)));
}
fn counted_line<T: Scal>() {
    let (a, c) = (nonzero::<T>("a"), T::var("c"));
    let lo = T::var("lo");
    let hi = lo + T::nonneg("width");
    let n = Polynomial::<4, T>::new([c, a, T::ZERO, T::ZERO]).count_real_roots(lo, hi).unwrap();
    T::prove("a line", b(n == inside(&[-c / a], lo, hi)));
    let n = Polynomial::<3, T>::new([a, T::ZERO, T::ZERO]).count_real_roots(lo, hi).unwrap();
    T::prove("a constant", b(n == 0));
}
/// narrowing, for a line: the root lies within half a tolerance of the answer
fn narrowed<T: Scal>() {
    let (a, r) = (nonzero::<T>("a"), T::var("r"));
    let (below, above) = (T::nonneg("below"), T::nonneg("above"));
    let tol = (below + above) / T::i([1, 3, 8][T::choose("tolerance", 3)]);
    T::assume(gt(tol, T::ZERO));
    let p = Polynomial::<2, T>::new([-a * r, a]);
    let Ok(f) = p.real_roots_in(r - below, r + above, tol, 9) else { return T::prove("enough steps", b(false)) };
    if f.is_empty() {
        return T::prove("missed only on the open end", eq(below, T::ZERO));
    }
    T::prove("one root, found to the tolerance", and(vec![b(f.len() == 1), le((f.as_slice()[0] - r).abs(), tol)]));
    if T::holds(gt(below, T::ZERO)) {
        T::prove("steps run out", b(p.real_roots_in(r - below, r + above, tol / T::i(16), 3).is_err()));
    }
}
/// exact rational arithmetic: chosen rational roots with repeats, complex pairs, chosen rational ranges
fn exact_count<T: Scal>() {
    fn go<const N: usize, T: Scal>() {
        let mut roots = vec![];
        let mut c = [T::ZERO; N];
        c[0] = [T::ONE, T::q(-3, 2), T::i(5)][T::rndi(3)];
        let mut d = 0;
        let mut grow = |c: &mut [T; N], q: &[T]| {
            let mut out = [T::ZERO; N];
            for i in 0..=d {
                for (j, x) in q.iter().enumerate() {
                    out[i + j] = out[i + j] + c[i] * *x;
                }
            }
            d += q.len() - 1;
            *c = out;
            d
        };
        let mut deg = 0;
        while deg < N - 1 {
            if N - 1 - deg >= 2 && T::rndi(4) == 0 {
                let (m, k) = (T::rnd(-4, 4, 2), T::rnd(1, 5, 2));
                deg = grow(&mut c, &[m * m + k, -T::i(2) * m, T::ONE]);
            } else {
                let r = if !roots.is_empty() && T::rndi(3) == 0 { roots[T::rndi(roots.len())] } else { T::rnd(-6, 6, 2) };
                roots.push(r);
                deg = grow(&mut c, &[-r, T::ONE]);
            }
        }
        let p = Polynomial::<N, T>::new(c);
        for _ in 0..4 {
            let end = |r: &[T]| if !r.is_empty() && T::rndi(2) == 0 { r[T::rndi(r.len())] } else { T::rnd(-9, 9, 4) };
            let (x, y) = (end(&roots), end(&roots));
            let (lo, hi) = if T::holds(le(x, y)) { (x, y) } else { (y, x) };
            let n = inside(&roots, lo, hi);
            T::prove("counts the distinct roots above lower, up to upper", b(p.count_real_roots(lo, hi) == Ok(n)));
            let tol = T::q(1, 64);
            match p.real_roots_in(lo, hi, tol, 400) {
                Err(_) => T::prove("enough steps", b(false)),
                Ok(f) => {
                    let mut want: Vec<T> = vec![];
                    for r in &roots {
                        if T::holds(and(vec![lt(lo, *r), le(*r, hi)])) && !want.iter().any(|s| T::holds(eq(*s, *r))) {
                            want.push(*r);
                        }
                    }
                    want.sort_by(|a, c| if T::holds(lt(*a, *c)) { std::cmp::Ordering::Less } else { std::cmp::Ordering::Greater });
                    T::prove("finds each once, in order, to the tolerance", and(vec![
                        b(f.len() == want.len()),
                        sorted(f.as_slice()),
                        and(f.as_slice().iter().zip(want.iter()).map(|(g, w)| le((*g - *w).abs(), tol)).collect()),
                    ]));
                }
            }
        }
        let r = p.cauchy_root_bound().unwrap();
        T::prove("bound", and(roots.iter().map(|x| lt(x.abs(), r)).collect()));
    }
    match T::rndi(5) {
        0 => go::<3, T>(),
        1 => go::<4, T>(),
        2 => go::<5, T>(),
        3 => go::<6, T>(),
        _ => go::<7, T>(),
    }
}
/// floating point: closed forms against chosen well separated roots
fn closed_sweep<T: Scal>() {
    let a = T::rnd(1, 9, 4);
    let a = if T::rndi(2) == 0 { a } else { -a };
    let mut r = vec![T::rnd(-9, 9, 3)];
    for k in 1..4 {
        r.push(r[k - 1] + T::rnd(1, 6, 1) / T::i(2));
    }
    let ok = |got: &[T], want: &[T]| {
        let close = b(got.len() == want.len());
        let each = and(got.iter().zip(want.iter()).map(|(g, w)| le((*g - *w).abs(), T::q(1, 10_000))).collect());
        and(vec![close, each])
    };
    let f = Polynomial::<4, T>::new(expand::<4, T>(a, &r[..3])).real_roots().unwrap();
    T::prove("cubic", ok(f.as_slice(), &r[..3]));
    let f = Polynomial::<5, T>::new(expand::<5, T>(a, &r)).real_roots().unwrap();
    T::prove("quartic, four roots", ok(f.as_slice(), &r));
    let (m, k) = (T::rnd(-5, 5, 3), T::rnd(1, 9, 2));
    let pair = [m * m + k, -T::i(2) * m, T::ONE];
    let q: [T; 3] = expand::<3, T>(a, &r[..2]);
    let f = Polynomial::<5, T>::new(times::<5, T>(&pair, &q)).real_roots().unwrap();
    T::prove("quartic, two roots", ok(f.as_slice(), &r[..2]));
    let mid = (r[0] + r[1]) / T::TWO;
    let even = [mid * mid + k, -T::i(2) * mid, T::ONE];
    let f = Polynomial::<5, T>::new(times::<5, T>(&even, &q)).real_roots().unwrap();
    T::prove("quartic, two roots about the pair's centre", ok(f.as_slice(), &r[..2]));
    let f = Polynomial::<4, T>::new(times::<4, T>(&pair, &[-r[0] * a, a])).real_roots().unwrap();
    T::prove("cubic, one root", ok(f.as_slice(), &r[..1]));
    let (m2, k2) = (m + T::rnd(1, 5, 3), T::rnd(1, 9, 2));
    let f = Polynomial::<5, T>::new(times::<5, T>(&pair, &[m2 * m2 + k2, -T::i(2) * m2, T::ONE])).real_roots().unwrap();
    T::prove("quartic, no roots", b(f.is_empty()));
}
fn main() {
    run::main(
        run::Info { id: "C19", assumptions: &[
            "cos(pi/3) = 1/2 and sin(pi/3) > 0; the sextant facts 0 <= sin, 1/2 <= cos, 0 <= sin 3t for 0 <= 3t <= pi",
            "cubics are written by centre, radius and angle (three real roots) or by two cube roots (one), quartics with odd terms about their centre are sampled",
            "root counting is proved for degrees one and two and for cubics with a repeated root at a range end; higher degrees are exact evaluations at rational roots",
        ] },
        vec![
            proof!(linear, "Polynomial::<2>::real_roots"),
            proof!(quadratic_factored, "Polynomial::<3>::real_roots"),
            proof!(quadratic_none, "Polynomial::<3>::real_roots"),
            proof!(quadratic_any, "Polynomial::<3>::real_roots"),
            sampled!(cubic_three, 40, "Polynomial::<4>::real_roots"),
            proof!(cubic_repeated, "Polynomial::<4>::real_roots"),
            proof!(cubic_one, "Polynomial::<4>::real_roots"),
            proof!(quartic_even, "Polynomial::<5>::real_roots"),
            proof!(refused, "real_roots, cauchy_root_bound, count_real_roots, real_roots_in"),
            proof!(bound, "Polynomial::cauchy_root_bound"),
            proof!(counted, "Polynomial::count_real_roots"),
            proof!(counted_repeated, "Polynomial::count_real_roots"),
            proof!(counted_line, "Polynomial::count_real_roots"),
            proof!(narrowed, "Polynomial::real_roots_in"),
            exact!(exact_count, 40, "Polynomial::count_real_roots, real_roots_in, cauchy_root_bound"),
            sampled!(closed_sweep, 300, "Polynomial::<4>::real_roots, Polynomial::<5>::real_roots"),
        ],
    );
}
