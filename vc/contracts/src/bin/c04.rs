use contracts::*;
use multicalc::scalar::{Dual, HyperDual, Jet, Primal, ScalarFn, ScalarFnN, VectorFn, constant};
use std::cmp::Ordering;

// ---- one-argument operations: value and derivatives up to third order, arbitrary inner derivatives
/// `d` = f, f', f'', f''' at `x`
fn unary<T: Scal>(f: &impl ScalarFn, x: T, d: [T; 4]) {
    let [d0, d1, d2, d3] = d;
    let v = T::vars::<7>("in");
    T::prove("plain value", eq(f.eval(x), d0));
    let r = f.eval(Dual::new(x, v[0]));
    T::prove("dual value", eq(r.value, d0));
    T::prove("dual derivative", eq(r.deriv, d1 * v[0]));
    let r = f.eval(HyperDual::new(x, v[1], v[2], v[3]));
    T::prove("hyper-dual value", eq(r.real, d0));
    T::prove("first partial", eq(r.eps1, d1 * v[1]));
    T::prove("second partial", eq(r.eps2, d1 * v[2]));
    T::prove("mixed derivative", eq(r.eps1eps2, d1 * v[3] + d2 * v[1] * v[2]));
    let (a, b, c) = (v[4], v[5], v[6]);
    let r = f.eval(Jet::<T, 4>::new([x, a, b, c]));
    T::prove("jet value", eq(r.coeffs[0], d0));
    T::prove("jet order 1", eq(r.coeffs[1], d1 * a));
    T::prove("jet order 2", eq(r.coeffs[2], d1 * b + d2 * a * a * T::HALF));
    T::prove("jet order 3", eq(r.coeffs[3], d1 * c + d2 * a * b + d3 * a * a * a / T::i(6)));
    let r = f.eval(Jet::<T, 1>::new([x]));
    T::prove("one-coefficient jet", eq(r.coeffs[0], d0));
    // nesting: the dual of a dual
    let r = f.eval(Dual::new(Dual::new(x, v[1]), Dual::new(v[2], v[3])));
    T::prove("nested value", eq(r.value.value, d0));
    T::prove("nested first", eqs(&[r.value.deriv, r.deriv.value], &[d1 * v[1], d1 * v[2]]));
    T::prove("nested mixed", eq(r.deriv.deriv, d1 * v[3] + d2 * v[1] * v[2]));
}
struct Op<const K: usize>;
macro_rules! ops {
    ($($k:literal $x:ident => $e:expr;)*) => { $( impl ScalarFn for Op<$k> {
        fn eval<S: Numeric>(&self, $x: S) -> S { $e }
    } )* };
}
ops! {
    0 x => -x;
    1 x => x.abs();
    2 x => x.sqrt();
    3 x => x.cbrt();
    4 x => x.sin();
    5 x => x.cos();
    6 x => x.tan();
    7 x => x.exp();
    8 x => x.expm1();
    9 x => x.log();
    10 x => x.ln_1p();
    11 x => x.log2();
    12 x => x.log10();
    13 x => x.atan();
    14 x => x.asin();
    15 x => x.acos();
    16 x => x.sinh();
    17 x => x.cosh();
    18 x => x.tanh();
    19 x => x.recip();
    20 x => x.to_radians();
    21 x => x.to_degrees();
    22 x => x.wrap_to_pi();
    23 x => x.floor();
    24 x => x.ceil();
    25 x => x.round();
    26 x => x.trunc();
    27 x => x.signum();
    28 x => S::ONE / x;
}
fn smooth<T: Scal>() {
    T::merge(false);
    let (z, one, two) = (T::ZERO, T::ONE, T::TWO);
    match T::choose("operation", 9) {
        0 => {
            let x = T::var("x");
            unary(&Op::<0>, x, [-x, -one, z, z])
        }
        1 => {
            let x = T::var("x");
            T::assume(ne(x, z));
            let s = if T::holds(lt(x, z)) { -one } else { one };
            unary(&Op::<1>, x, [s * x, s, z, z])
        }
        2 => {
            let x = T::pos("x");
            let r = x.sqrt();
            let r3 = r * r * r;
            unary(&Op::<2>, x, [r, one / (two * r), -one / (T::i(4) * r3), T::i(3) / (T::i(8) * r3 * r * r)])
        }
        3 => {
            let x = T::var("x");
            T::assume(ne(x, z));
            let r = x.cbrt();
            let r2 = r * r;
            unary(&Op::<3>, x, [r, one / (T::i(3) * r2), -two / (T::i(9) * r2 * r2 * r), T::i(10) / (T::i(27) * r2 * r2 * r2 * r2)])
        }
        4 => {
            let x = T::var("x");
            let (s, c) = (x.sin(), x.cos());
            unary(&Op::<4>, x, [s, c, -s, -c])
        }
        5 => {
            let x = T::var("x");
            let (s, c) = (x.sin(), x.cos());
            unary(&Op::<5>, x, [c, -s, -c, s])
        }
        6 => {
            let x = T::var("x");
            T::assume(ne(x.cos(), z));
            let t = x.sin() / x.cos();
            let s = one + t * t;
            unary(&Op::<6>, x, [t, s, two * t * s, two * s * (one + T::i(3) * t * t)])
        }
        7 => {
            let x = T::var("x");
            T::assume(ne(x, z));
            let i = one / x;
            let d = [i, -i * i, two * i * i * i, -T::i(6) * i * i * i * i];
            unary(&Op::<19>, x, d);
            unary(&Op::<28>, x, d);
        }
        _ => {
            let x = T::var("x");
            let k = T::PI / T::i(180);
            unary(&Op::<20>, x, [k * x, k, z, z]);
            let k = T::i(180) / T::PI;
            unary(&Op::<21>, x, [k * x, k, z, z]);
        }
    }
}
fn exponentials<T: Scal>() {
    T::merge(false);
    let (z, one, two) = (T::ZERO, T::ONE, T::TWO);
    match T::choose("operation", 10) {
        0 => {
            let x = T::var("x");
            let e = x.exp();
            unary(&Op::<7>, x, [e, e, e, e]);
            unary(&Op::<8>, x, [e - one, e, e, e]);
        }
        1 => {
            let x = T::pos("x");
            let i = one / x;
            unary(&Op::<9>, x, [x.log(), i, -i * i, two * i * i * i])
        }
        2 => {
            let x = T::var("x");
            T::assume(gt(x, -one));
            let i = one / (one + x);
            unary(&Op::<10>, x, [(one + x).log(), i, -i * i, two * i * i * i])
        }
        3 => {
            let x = T::pos("x");
            let (i, l) = (one / x, two.log());
            unary(&Op::<11>, x, [x.log() / l, i / l, -i * i / l, two * i * i * i / l])
        }
        4 => {
            let x = T::pos("x");
            let (i, l) = (one / x, T::TEN.log());
            unary(&Op::<12>, x, [x.log() / l, i / l, -i * i / l, two * i * i * i / l])
        }
        5 => {
            let x = T::var("x");
            let i = one / (one + x * x);
            unary(&Op::<13>, x, [x.atan(), i, -two * x * i * i, (T::i(6) * x * x - two) * i * i * i])
        }
        6 | 7 => {
            let asin = T::choose("asin", 2) == 0;
            let x = T::var("x");
            T::assume(and(vec![lt(x, one), gt(x, -one)]));
            let i = one / (one - x * x).sqrt();
            let i3 = i * i * i;
            let d = [i, x * i3, (one + two * x * x) * i3 * i * i];
            if asin {
                unary(&Op::<14>, x, [x.asin(), d[0], d[1], d[2]])
            } else {
                unary(&Op::<15>, x, [x.acos(), -d[0], -d[1], -d[2]])
            }
        }
        8 => {
            let x = T::var("x");
            let (s, c) = ((x.exp() - (-x).exp()) / two, (x.exp() + (-x).exp()) / two);
            unary(&Op::<16>, x, [s, c, s, c]);
            unary(&Op::<17>, x, [c, s, c, s]);
        }
        _ => {
            let x = T::var("x");
            let (p, m) = (x.exp(), (-x).exp());
            let t = (p - m) / (p + m);
            let s = one - t * t;
            unary(&Op::<18>, x, [t, s, -two * t * s, s * (T::i(6) * t * t - two)]);
            let _ = z;
        }
    }
}
/// the principal values of the inverse functions of the scalar itself
fn inverse_values<T: Scal>() {
    let x = T::var("x");
    T::assume(and(vec![lt(x, T::ONE), gt(x, -T::ONE)]));
    let (s, c) = (x.asin(), x.acos());
    T::prove("sin asin", eq(s.sin(), x));
    T::prove("cos acos", eq(c.cos(), x));
    T::prove("asin + acos", eq(s.sin() * c.sin(), c.sin() * x));
    let y = T::var("y");
    let t = y.atan();
    T::prove("tan atan", eq(t.sin(), y * t.cos()));
    T::prove("atan principal", gt(t.cos(), T::ZERO));
}
fn steps<T: Scal>() {
    T::merge(false);
    let z = T::ZERO;
    let x = T::var_in("x", T::i(-3), T::i(3));
    let half = T::HALF;
    // away from the jumps
    match T::choose("operation", 6) {
        0 => {
            T::assume(ne(x.floor(), x));
            unary(&Op::<23>, x, [x.floor(), z, z, z])
        }
        1 => {
            T::assume(ne(x.floor(), x));
            unary(&Op::<24>, x, [x.ceil(), z, z, z])
        }
        2 => {
            T::assume(ne((x + half).floor(), x + half));
            unary(&Op::<25>, x, [x.round(), z, z, z])
        }
        3 => {
            T::assume(ne(x.floor(), x));
            unary(&Op::<26>, x, [x.trunc(), z, z, z])
        }
        4 => {
            T::assume(ne(x, z));
            unary(&Op::<27>, x, [if T::holds(lt(x, z)) { -T::ONE } else { T::ONE }, z, z, z])
        }
        _ => {
            let y = x * T::PI;
            T::assume(ne((x * half + half).floor(), x * half + half));
            let k = (x * half).round();
            unary(&Op::<22>, y, [y - T::TWO * T::PI * k, T::ONE, z, z])
        }
    }
}
/// at the jumps the step functions still give their value and no derivative
fn steps_at_jumps<T: Scal>() {
    let n = T::choose("n", 5) as i64 - 2;
    let x = T::i(n) + if T::choose("half", 2) == 0 { T::ZERO } else { T::HALF };
    let e = T::vars::<4>("e");
    fn go<T: Scal>(f: &impl ScalarFn, x: T, e: [T; 4]) {
        let v = f.eval(x);
        let d = f.eval(Dual::new(x, e[0]));
        T::prove("dual step", eqs(&[d.value, d.deriv], &[v, T::ZERO]));
        let h = f.eval(HyperDual::new(x, e[1], e[2], e[3]));
        T::prove("hyper-dual step", eqs(&[h.real, h.eps1, h.eps2, h.eps1eps2], &[v, T::ZERO, T::ZERO, T::ZERO]));
        let j = f.eval(Jet::<T, 3>::new([x, e[0], e[1]]));
        T::prove("jet step", eqs(&j.coeffs, &[v, T::ZERO, T::ZERO]));
    }
    go(&Op::<23>, x, e);
    go(&Op::<24>, x, e);
    go(&Op::<25>, x, e);
    go(&Op::<26>, x, e);
}
fn powi<T: Scal>() {
    struct Pow(i32);
    impl ScalarFn for Pow {
        fn eval<S: Numeric>(&self, x: S) -> S {
            x.powi(self.0)
        }
    }
    let n = T::choose("n", 15) as i32 - 6;
    let x = T::var("x");
    T::assume(ne(x, T::ZERO));
    let p = |k: i32| {
        let mut a = T::ONE;
        for _ in 0..k.abs() {
            a = if k > 0 { a * x } else { a / x };
        }
        a
    };
    let m = n as i64;
    let d = [p(n), T::i(m) * p(n - 1), T::i(m * (m - 1)) * p(n - 2), T::i(m * (m - 1) * (m - 2)) * p(n - 3)];
    unary(&Pow(n), x, d);
    if n >= 3 {
        unary(&Pow(n), T::ZERO, [T::ZERO, T::ZERO, T::ZERO, if n == 3 { T::i(6) } else { T::ZERO }]);
    }
}
// ---- two-argument operations
trait Bin {
    fn ev<S: Numeric>(&self, y: S, x: S) -> S;
}
/// `d` = f, f_y, f_x, f_yy, f_xy, f_xx
fn binary<T: Scal>(f: &impl Bin, y: T, x: T, d: [T; 6]) {
    let [d0, dy, dx, dyy, dxy, dxx] = d;
    let v = T::vars::<12>("in");
    T::prove("plain value", eq(f.ev(y, x), d0));
    let r = f.ev(Dual::new(y, v[0]), Dual::new(x, v[1]));
    T::prove("dual value", eq(r.value, d0));
    T::prove("dual derivative", eq(r.deriv, dy * v[0] + dx * v[1]));
    let (p, q) = (HyperDual::new(y, v[2], v[3], v[4]), HyperDual::new(x, v[5], v[6], v[7]));
    let r = f.ev(p, q);
    T::prove("hyper-dual value", eq(r.real, d0));
    T::prove("first partial", eq(r.eps1, dy * v[2] + dx * v[5]));
    T::prove("second partial", eq(r.eps2, dy * v[3] + dx * v[6]));
    let mixed = dy * v[4] + dx * v[7] + dyy * v[2] * v[3] + dxx * v[5] * v[6] + dxy * (v[2] * v[6] + v[3] * v[5]);
    T::prove("mixed derivative", eq(r.eps1eps2, mixed));
    let r = f.ev(Jet::<T, 3>::new([y, v[8], v[9]]), Jet::new([x, v[10], v[11]]));
    T::prove("jet value", eq(r.coeffs[0], d0));
    T::prove("jet order 1", eq(r.coeffs[1], dy * v[8] + dx * v[10]));
    let second = dy * v[9] + dx * v[11] + (dyy * v[8] * v[8] + dxx * v[10] * v[10]) * T::HALF + dxy * v[8] * v[10];
    T::prove("jet order 2", eq(r.coeffs[2], second));
}
macro_rules! bins {
    ($($n:ident $y:ident $x:ident => $e:expr;)*) => { $( struct $n; impl Bin for $n {
        fn ev<S: Numeric>(&self, $y: S, $x: S) -> S { $e }
    } )* };
}
bins! {
    Add y x => y + x;
    Sub y x => y - x;
    Mul y x => y * x;
    Div y x => y / x;
    AddA y x => { let mut a = y; a += x; a };
    SubA y x => { let mut a = y; a -= x; a };
    MulA y x => { let mut a = y; a *= x; a };
    DivA y x => { let mut a = y; a /= x; a };
    SafeDiv y x => y.safe_div(x);
    Atan2 y x => y.atan2(x);
    Hypot y x => y.hypot(x);
    Powf y x => y.powf(x);
    CopySign y x => y.copysign(x);
    Max y x => y.max(x);
    Min y x => y.min(x);
}
fn arithmetic<T: Scal>() {
    let (z, one) = (T::ZERO, T::ONE);
    let (y, x) = (T::var("y"), T::var("x"));
    match T::choose("operation", 4) {
        0 => {
            let d = [y + x, one, one, z, z, z];
            binary(&Add, y, x, d);
            binary(&AddA, y, x, d);
        }
        1 => {
            let d = [y - x, one, -one, z, z, z];
            binary(&Sub, y, x, d);
            binary(&SubA, y, x, d);
        }
        2 => {
            let d = [y * x, x, y, z, one, z];
            binary(&Mul, y, x, d);
            binary(&MulA, y, x, d);
        }
        _ => {
            T::assume(ne(x, z));
            let i = one / x;
            let d = [y * i, i, -y * i * i, z, -i * i, T::TWO * y * i * i * i];
            binary(&Div, y, x, d);
            binary(&DivA, y, x, d);
            binary(&SafeDiv, y, x, d);
        }
    }
}
fn transcendental2<T: Scal>() {
    T::merge(false);
    let (z, one, two) = (T::ZERO, T::ONE, T::TWO);
    match T::choose("operation", 3) {
        0 => {
            let (y, x) = (T::var("y"), T::var("x"));
            T::assume(or(vec![ne(y, z), ne(x, z)]));
            let r2 = x * x + y * y;
            let r4 = r2 * r2;
            binary(&Atan2, y, x, [y.atan2(x), x / r2, -y / r2, -two * x * y / r4, (y * y - x * x) / r4, two * x * y / r4]);
        }
        1 => {
            let (y, x) = (T::pos("y"), T::var("x"));
            let l = y.log();
            let f = (x * l).exp();
            let d = [f, f * x / y, f * l, f * x * (x - one) / (y * y), f / y + f * x * l / y, f * l * l];
            binary(&Powf, y, x, d);
        }
        _ => {
            let (y, x) = (T::var("y"), T::var("x"));
            T::assume(and(vec![ne(y, z), ne(x, z)]));
            let h = (x * x + y * y).sqrt();
            let h3 = h * h * h;
            binary(&Hypot, y, x, [h, y / h, x / h, x * x / h3, -x * y / h3, y * y / h3]);
        }
    }
}
/// operations that pick one operand carry its complete derivative information
fn selection<T: Scal>() {
    T::merge(false);
    let (z, one) = (T::ZERO, T::ONE);
    let (y, x) = (T::var("y"), T::var("x"));
    match T::choose("operation", 3) {
        0 => {
            T::assume(and(vec![ne(y, z), ne(x, z)]));
            let s = if T::holds(lt(y, z)) == T::holds(lt(x, z)) { one } else { -one };
            binary(&CopySign, y, x, [s * y, s, z, z, z, z]);
        }
        1 => {
            T::assume(ne(y, x));
            let a = T::holds(gt(y, x));
            let d = if a { [y, one, z, z, z, z] } else { [x, z, one, z, z, z] };
            binary(&Max, y, x, d);
        }
        _ => {
            T::assume(ne(y, x));
            let a = T::holds(lt(y, x));
            let d = if a { [y, one, z, z, z, z] } else { [x, z, one, z, z, z] };
            binary(&Min, y, x, d);
        }
    }
}
fn clamping<T: Scal>() {
    struct Cl<T>(T, T);
    let lo = T::var("lo");
    let hi = lo + T::nonneg("width");
    let x = T::var("x");
    let v = T::vars::<4>("in");
    let c = Cl(lo, hi);
    let inside = T::holds(ge(x, lo)) && T::holds(le(x, hi));
    let k = if inside { T::ONE } else { T::ZERO };
    let want = if T::holds(lt(x, lo)) { lo } else if T::holds(gt(x, hi)) { hi } else { x };
    T::prove("plain", eq(x.clamp(c.0, c.1), want));
    let d = Dual::new(x, v[0]).clamp(lo, hi);
    T::prove("dual", eqs(&[d.value, d.deriv], &[want, k * v[0]]));
    let h = HyperDual::new(x, v[1], v[2], v[3]).clamp(lo, hi);
    T::prove("hyper-dual", eqs(&[h.real, h.eps1, h.eps2, h.eps1eps2], &[want, k * v[1], k * v[2], k * v[3]]));
    let j = Jet::<T, 3>::new([x, v[0], v[1]]).clamp(lo, hi);
    T::prove("jet", eqs(&j.coeffs, &[want, k * v[0], k * v[1]]));
    // the derivative is that of the interior wherever clamping changes nothing
    let m = Dual::new(x, v[0]).mul_add(Dual::new(lo, v[1]), Dual::new(hi, v[2]));
    T::prove("mul_add", eqs(&[m.value, m.deriv], &[x * lo + hi, v[0] * lo + x * v[1] + v[2]]));
    let m = HyperDual::new(x, v[0], v[1], v[2]).mul_add(HyperDual::constant(lo), HyperDual::constant(hi));
    T::prove("mul_add", eqs(&[m.real, m.eps1, m.eps2, m.eps1eps2], &[x * lo + hi, v[0] * lo, v[1] * lo, v[2] * lo]));
    let m = Jet::<T, 2>::new([x, v[0]]).mul_add(Jet::new([lo, v[1]]), Jet::new([hi, v[2]]));
    T::prove("mul_add", eqs(&m.coeffs, &[x * lo + hi, v[0] * lo + x * v[1] + v[2]]));
}
/// every order of the jet recurrences, through the series identities that define the functions
fn jet_series<T: Scal>() {
    const N: usize = 6;
    type A<T> = [T; N];
    fn conv<T: Scal>(a: &A<T>, b: &A<T>) -> A<T> {
        std::array::from_fn(|k| sum(&(0..=k).map(|i| a[i] * b[k - i]).collect::<Vec<_>>()))
    }
    fn der<T: Scal>(a: &A<T>) -> A<T> {
        std::array::from_fn(|k| if k + 1 < N { T::i(k as i64 + 1) * a[k + 1] } else { T::ZERO })
    }
    fn low<T: Scal>(name: &str, a: &A<T>, b: &A<T>) {
        T::prove(name, eqs(&a[..N - 1], &b[..N - 1]));
    }
    fn neg<T: Scal>(a: &A<T>) -> A<T> {
        a.map(|x| -x)
    }
    let mut a = T::vars::<N>("a");
    match T::choose("operation", 9) {
        0 => {
            let b = T::vars::<N>("b");
            T::prove("product", eqs(&(Jet::new(a) * Jet::new(b)).coeffs, &conv(&a, &b)));
            T::assume(ne(b[0], T::ZERO));
            T::prove("quotient", eqs(&conv(&(Jet::new(a) / Jet::new(b)).coeffs, &b), &a));
        }
        1 => {
            a[0] = T::pos("a0");
            let r = Jet::new(a).sqrt().coeffs;
            T::prove("square of the root", eqs(&conv(&r, &r), &a));
            T::prove("positive root", gt(r[0], T::ZERO));
        }
        2 => {
            T::assume(ne(a[0], T::ZERO));
            let r = Jet::new(a).cbrt().coeffs;
            T::prove("cube of the root", eqs(&conv(&conv(&r, &r), &r), &a));
        }
        3 => {
            let e = Jet::new(a).exp().coeffs;
            T::prove("value", eq(e[0], a[0].exp()));
            low("e' = a' e", &der(&e), &conv(&der(&a), &e));
            let m = Jet::new(a).expm1().coeffs;
            T::prove("expm1 value", eq(m[0], a[0].exp() - T::ONE));
            T::prove("expm1", eqs(&m[1..], &e[1..]));
        }
        4 => {
            a[0] = T::pos("a0");
            let l = Jet::new(a).log().coeffs;
            T::prove("value", eq(l[0], a[0].log()));
            low("a l' = a'", &conv(&a, &der(&l)), &der(&a));
            for (j, base) in [(Jet::new(a).log2(), T::TWO), (Jet::new(a).log10(), T::TEN)] {
                T::prove("base", eqs(&j.coeffs.map(|x| x * base.log()), &l));
            }
        }
        5 => {
            T::assume(gt(a[0], -T::ONE));
            let l = Jet::new(a).ln_1p().coeffs;
            let mut b = a;
            b[0] = b[0] + T::ONE;
            T::prove("value", eq(l[0], b[0].log()));
            low("(1 + a) l' = a'", &conv(&b, &der(&l)), &der(&a));
        }
        6 => {
            let (s, c) = (Jet::new(a).sin().coeffs, Jet::new(a).cos().coeffs);
            T::prove("values", eqs(&[s[0], c[0]], &[a[0].sin(), a[0].cos()]));
            low("s' = c a'", &der(&s), &conv(&c, &der(&a)));
            low("c' = -s a'", &der(&c), &neg(&conv(&s, &der(&a))));
        }
        7 => {
            T::assume(ne(a[0].cos(), T::ZERO));
            let (s, c, t) = (Jet::new(a).sin().coeffs, Jet::new(a).cos().coeffs, Jet::new(a).tan().coeffs);
            T::prove("t c = s", eqs(&conv(&t, &c), &s));
        }
        _ => {
            let b = T::vars::<N>("b");
            T::assume(or(vec![ne(a[0], T::ZERO), ne(b[0], T::ZERO)]));
            let u = Jet::new(a).atan2(Jet::new(b)).coeffs;
            T::prove("value", eq(u[0], a[0].atan2(b[0])));
            let (aa, bb, p, q) = (conv(&a, &a), conv(&b, &b), conv(&b, &der(&a)), conv(&a, &der(&b)));
            let w: A<T> = std::array::from_fn(|k| aa[k] + bb[k]);
            let r: A<T> = std::array::from_fn(|k| p[k] - q[k]);
            low("(a^2 + b^2) u' = b a' - a b'", &conv(&w, &der(&u)), &r);
        }
    }
}
fn value_only<T: Scal>() {
    let (x, y) = (T::var("x"), T::var("y"));
    let e = T::vars::<6>("e");
    let (dx, dy) = (Dual::new(x, e[0]), Dual::new(y, e[1]));
    let (hx, hy) = (HyperDual::new(x, e[0], e[1], e[2]), HyperDual::new(y, e[3], e[4], e[5]));
    let (jx, jy) = (Jet::<T, 3>::new([x, e[0], e[1]]), Jet::<T, 3>::new([y, e[2], e[3]]));
    let o = if T::holds(lt(x, y)) { Ordering::Less } else if T::holds(gt(x, y)) { Ordering::Greater } else { Ordering::Equal };
    T::prove("dual order", P::B(dx.partial_cmp(&dy) == Some(o) && (dx == dy) == (o == Ordering::Equal)));
    T::prove("hyper-dual order", P::B(hx.partial_cmp(&hy) == Some(o) && (hx == hy) == (o == Ordering::Equal)));
    T::prove("jet order", P::B(jx.partial_cmp(&jy) == Some(o) && (jx == jy) == (o == Ordering::Equal)));
    T::prove(
        "operators",
        P::B((dx < dy) == (o == Ordering::Less) && (hx <= hy) == (o != Ordering::Greater) && (jx > jy) == (o == Ordering::Greater) && (dx >= dy) == (o != Ordering::Less)),
    );
    // non-finite derivatives do not matter; non-finite values do
    let s = T::special("s");
    let fin = [(Dual::new(x, s).is_nan(), Dual::new(x, s).is_finite(), Dual::new(x, s).is_infinite()),
        (HyperDual::new(x, s, s, s).is_nan(), HyperDual::new(x, s, s, s).is_finite(), HyperDual::new(x, s, s, s).is_infinite()),
        (Jet::new([x, s]).is_nan(), Jet::new([x, s]).is_finite(), Jet::new([x, s]).is_infinite())];
    for (n, f, i) in fin {
        T::prove("finite value", P::B(!n && f && !i));
    }
    let spec = [(Dual::new(s, x).is_nan(), Dual::new(s, x).is_finite(), Dual::new(s, x).is_infinite()),
        (HyperDual::new(s, x, x, x).is_nan(), HyperDual::new(s, x, x, x).is_finite(), HyperDual::new(s, x, x, x).is_infinite()),
        (Jet::new([s, x]).is_nan(), Jet::new([s, x]).is_finite(), Jet::new([s, x]).is_infinite())];
    for (n, f, i) in spec {
        T::prove("special value", P::B(n == s.is_nan() && !f && i == s.is_infinite()));
    }
    T::prove("nan compares with nothing", P::B(!(Dual::new(T::NAN, x) == Dual::new(T::NAN, x)) && Dual::new(T::NAN, x).partial_cmp(&dx).is_none()));
    T::prove("nan compares with nothing", P::B(HyperDual::constant(T::NAN).partial_cmp(&hx).is_none() && Jet::<T, 3>::constant(T::NAN).partial_cmp(&jx).is_none()));
}
fn constants<T: Scal>() {
    fn table<S: Numeric>() -> Vec<S> {
        vec![
            S::ZERO, S::ONE, S::TWO, S::THREE, S::HALF, S::TEN, S::HUNDRED, S::ONE_HUNDRED_EIGHTY, S::PI, S::TWO_PI, S::EPSILON,
            S::EPSILON_X4, S::EPSILON_X30, S::NAN, S::INFINITY, S::NEG_INFINITY, S::MAX, S::MIN_POSITIVE,
            S::from_f64(0.375), S::from_u64(12), S::from_usize(34), constant(0.75) * S::ONE, constant(0.25) + S::ONE, constant(0.5) - S::TWO, constant(1.5) / S::TEN,
        ]
    }
    let t = table::<T>();
    let z = T::ZERO;
    for (d, &v) in table::<Dual<T>>().into_iter().zip(&t) {
        T::prove("dual constant", and(vec![same(d.value, v), eq(d.deriv, z)]));
    }
    for (d, &v) in table::<HyperDual<T>>().into_iter().zip(&t) {
        T::prove("hyper-dual constant", and(vec![same(d.real, v), eqs(&[d.eps1, d.eps2, d.eps1eps2], &[z, z, z])]));
    }
    for (d, &v) in table::<Jet<T, 3>>().into_iter().zip(&t) {
        T::prove("jet constant", and(vec![same(d.coeffs[0], v), eqs(&d.coeffs[1..], &[z, z])]));
    }
    T::prove("numbers", eqs(&t[..8], &[0, 1, 2, 3].iter().map(|&k| T::i(k)).chain([T::q(1, 2), T::i(10), T::i(100), T::i(180)]).collect::<Vec<_>>()));
    T::prove("turn", eq(t[9], T::TWO * t[8]));
    T::prove("epsilon multiples", eqs(&[t[11], t[12]], &[T::i(4) * t[10], T::i(30) * t[10]]));
    T::prove("conversions", eqs(&t[18..], &[T::q(3, 8), T::i(12), T::i(34), T::q(3, 4), T::q(5, 4), T::q(-3, 2), T::q(3, 20)]));
    let x = T::var("x");
    let (c, v) = (Dual::constant(x), Dual::variable(x));
    T::prove("seeds", eqs(&[c.value, c.deriv, v.value, v.deriv], &[x, z, x, T::ONE]));
    let (c, v) = (HyperDual::constant(x), HyperDual::variable(x));
    T::prove("seeds", eqs(&[c.real, c.eps1, c.eps2, c.eps1eps2, v.real, v.eps1, v.eps2, v.eps1eps2], &[x, z, z, z, x, T::ONE, T::ONE, z]));
    let (c, v) = (Jet::<T, 4>::constant(x), Jet::<T, 4>::variable(x));
    T::prove("seeds", eqs(&[c.coeffs, v.coeffs].concat(), &[x, z, z, z, x, T::ONE, z, z]));
    let a = T::vars::<7>("a");
    let j = Jet::new(a);
    let mut fact = T::ONE;
    T::prove("value", eq(j.value(), a[0]));
    for k in 0..7 {
        if k > 0 {
            fact = fact * T::i(k as i64);
        }
        T::prove("derivative = k! coefficient", eqs(&[j.coefficient(k), j.derivative(k)], &[a[k], fact * a[k]]));
    }
    let d = constant(2.5) * Dual::new(x, a[0]);
    T::prove("constant factor", eqs(&[d.value, d.deriv], &[T::q(5, 2) * x, T::q(5, 2) * a[0]]));
    let d = constant(2.5) - Dual::new(x, a[0]);
    T::prove("constant minus", eqs(&[d.value, d.deriv], &[T::q(5, 2) - x, -a[0]]));
    T::assume(ne(x, z));
    let d = constant(2.5) / Dual::new(x, a[0]);
    T::prove("constant over", eqs(&[d.value, d.deriv], &[T::q(5, 2) / x, -T::q(5, 2) * a[0] / (x * x)]));
}
fn division_by_zero<T: Scal>() {
    fn go<T: Scal, S: Numeric>(mk: impl Fn(T) -> S, val: impl Fn(S) -> T) {
        let x = T::var("x");
        let z = mk(T::ZERO);
        let r = val(mk(x).safe_div(z));
        let want = if T::holds(lt(x, T::ZERO)) { T::NEG_INFINITY } else if T::holds(gt(x, T::ZERO)) { T::INFINITY } else { T::NAN };
        T::prove("finite over zero", same(r, want));
        let s = T::special("s");
        T::prove("special over zero", same(val(mk(s).safe_div(z)), s));
        T::prove("reciprocal of zero", same(val(S::ONE.safe_div(z)), T::INFINITY));
    }
    let e = T::var("e");
    go(|x: T| Dual::new(x, e), |d| d.value);
    go(|x: T| HyperDual::new(x, e, e, e), |d| d.real);
    go(|x: T| Jet::<T, 2>::new([x, e]), |d| d.coeffs[0]);
}
/// whole programs: chained expressions agree with their closed-form derivatives
fn programs<T: Scal>() {
    struct F;
    impl ScalarFnN<2> for F {
        fn eval<S: Numeric>(&self, p: &[S; 2]) -> S {
            let (x, y) = (p[0], p[1]);
            let u = x * y + x.sin();
            let w = (x * x + y * y + S::ONE).sqrt();
            u * u / w - y.exp() * w
        }
    }
    let (x, y) = (T::var("x"), T::var("y"));
    let (s, c, e) = (x.sin(), x.cos(), y.exp());
    let u = x * y + s;
    let w = (x * x + y * y + T::ONE).sqrt();
    let (ux, uy, uxy) = (y + c, x, T::ONE);
    let (wx, wy, wxy) = (x / w, y / w, -x * y / (w * w * w));
    let two = T::TWO;
    let fx = two * u * ux / w - u * u * wx / (w * w) - e * wx;
    let fy = two * u * uy / w - u * u * wy / (w * w) - e * w - e * wy;
    let fxy = two * uy * ux / w + two * u * uxy / w - two * u * ux * wy / (w * w) - two * u * uy * wx / (w * w) - u * u * wxy / (w * w)
        + two * u * u * wx * wy / (w * w * w) - e * wx - e * wxy;
    let z = T::ZERO;
    let d = F.eval(&[Dual::variable(x), Dual::constant(y)]);
    T::prove("df/dx", eq(d.deriv, fx));
    let d = F.eval(&[Dual::constant(x), Dual::variable(y)]);
    T::prove("df/dy", eq(d.deriv, fy));
    let h = F.eval(&[HyperDual::new(x, T::ONE, z, z), HyperDual::new(y, z, T::ONE, z)]);
    T::prove("hyper-dual", eqs(&[h.eps1, h.eps2, h.eps1eps2], &[fx, fy, fxy]));
    let d = multicalc::scalar_fn!(|x| x * x * x - constant(2.0) * x).eval(Jet::<T, 5>::variable(x));
    T::prove("macro function", eqs(&d.coeffs, &[x * x * x - two * x, T::i(3) * x * x - two, T::i(3) * x, T::ONE, z]));
    let g = multicalc::scalar_fn!(|p: &[f64; 2]| p[0] * p[1] * p[1]).eval(&[Dual::new(x, z), Dual::new(y, T::ONE)]);
    T::prove("macro function of two", eqs(&[g.value, g.deriv], &[x * y * y, two * x * y]));
    let g: [Dual<T>; 3] = multicalc::scalar_fn_vec!(|p: &[f64; 2]| [p[0], p[1] * p[0], p[1]]).eval(&[Dual::new(x, T::ONE), Dual::new(y, z)]);
    T::prove("macro vector function", eqs(&g.map(|d| d.deriv), &[T::ONE, y, z]));
}
// ---- the primitive floats themselves
fn floats<T: Scal>() {
    T::tol(1e-12);
    fn one<S: Numeric + Primal>(x: f64, y: f64, tol: f64) -> Vec<(&'static str, f64, f64)> {
        let a = S::from_f64(x);
        let b = S::from_f64(y);
        let (x, y) = (a.to_f64(), b.to_f64());
        let u = x / 100.0;
        let uu = S::from_f64(u);
        let u = uu.to_f64();
        let v = x.abs() + 0.01;
        let vv = S::from_f64(v);
        let v = vv.to_f64();
        let _ = tol;
        vec![
            ("abs", a.abs().to_f64(), x.abs()),
            ("sqrt", vv.sqrt().to_f64(), v.sqrt()),
            ("cbrt", a.cbrt().to_f64(), x.cbrt()),
            ("sin", a.sin().to_f64(), x.sin()),
            ("cos", a.cos().to_f64(), x.cos()),
            ("tan", uu.tan().to_f64(), u.tan()),
            ("exp", uu.exp().to_f64(), u.exp()),
            ("log", vv.log().to_f64(), v.ln()),
            ("expm1", uu.expm1().to_f64(), u.exp_m1()),
            ("ln_1p", vv.ln_1p().to_f64(), v.ln_1p()),
            ("log2", vv.log2().to_f64(), v.log2()),
            ("log10", vv.log10().to_f64(), v.log10()),
            ("atan2", a.atan2(b).to_f64(), x.atan2(y)),
            ("atan", a.atan().to_f64(), x.atan()),
            ("asin", uu.asin().to_f64(), u.asin()),
            ("acos", uu.acos().to_f64(), u.acos()),
            ("sinh", uu.sinh().to_f64(), u.sinh()),
            ("cosh", uu.cosh().to_f64(), u.cosh()),
            ("tanh", uu.tanh().to_f64(), u.tanh()),
            ("hypot", a.hypot(b).to_f64(), x.hypot(y)),
            ("powf", vv.powf(uu).to_f64(), v.powf(u)),
            ("powi", uu.powi(5).to_f64(), u.powi(5)),
            ("powi", vv.powi(-3).to_f64() * v.powi(3), 1.0),
            ("copysign", a.copysign(b).to_f64(), x.copysign(y)),
            ("floor", a.floor().to_f64(), x.floor()),
            ("ceil", a.ceil().to_f64(), x.ceil()),
            ("round", a.round().to_f64(), x.round()),
            ("trunc", a.trunc().to_f64(), x.trunc()),
            ("signum", a.signum().to_f64(), x.signum()),
            ("max", a.max(b).to_f64(), x.max(y)),
            ("min", a.min(b).to_f64(), x.min(y)),
            ("recip", vv.recip().to_f64() * v, 1.0),
            ("wrap", a.wrap_to_pi().sin().to_f64(), x.sin()),
            ("wrap range", (a.wrap_to_pi().to_f64().abs() < 3.1416) as u8 as f64, 1.0),
            ("radians", a.to_radians().to_f64(), x.to_radians()),
            ("degrees", a.to_degrees().to_f64() / 100.0, x.to_degrees() / 100.0),
            ("mul_add", uu.mul_add(b, a).to_f64(), u * y + x),
        ]
    }
    let (x, y) = (T::rnd(-99, 99, 100).to_f64(), T::rnd(-99, 99, 101).to_f64());
    for (n, a, b) in one::<f64>(x, y, 1e-12) {
        T::prove(n, P::B((a - b).abs() <= 1e-11 * b.abs().max(1.0)));
    }
    for (n, a, b) in one::<f32>(x, y, 1e-5) {
        T::prove(n, P::B((a - b).abs() <= 3e-5 * b.abs().max(1.0)));
    }
}
fn float_specials<T: Scal>() {
    fn go<T: Scal, S: Numeric<Constant = S> + Primal>(eps: f64, max: f64, minp: f64) {
        let ok = |n: &str, b: bool| T::prove(n, P::B(b));
        let f = |x: f64| S::from_f64(x);
        ok("nan", S::NAN.is_nan() && !S::NAN.is_finite() && !S::NAN.is_infinite());
        ok("inf", S::INFINITY.is_infinite() && S::NEG_INFINITY.is_infinite() && !S::INFINITY.is_nan() && !S::INFINITY.is_finite());
        ok("signs", S::INFINITY > S::ZERO && S::NEG_INFINITY < S::ZERO);
        ok("finite", S::MAX.is_finite() && S::MIN_POSITIVE > S::ZERO);
        ok("max skips nan", S::NAN.max(f(2.0)) == f(2.0) && f(2.0).max(S::NAN) == f(2.0));
        ok("min skips nan", S::NAN.min(f(2.0)) == f(2.0) && f(2.0).min(S::NAN) == f(2.0));
        ok("signum", S::NAN.signum().is_nan() && f(0.0).signum() == S::ONE && f(-0.0).signum() == -S::ONE);
        ok("clamp", S::NAN.clamp(f(0.0), f(1.0)).is_nan() && f(2.0).clamp(f(0.0), f(1.0)) == S::ONE && f(-2.0).clamp(f(0.0), f(1.0)) == S::ZERO);
        ok("clamp inside", f(0.5).clamp(f(0.0), f(1.0)) == f(0.5));
        ok("safe division", S::ONE.safe_div(S::ZERO) == S::INFINITY && (-S::ONE).safe_div(S::ZERO) == S::NEG_INFINITY && S::ZERO.safe_div(S::ZERO).is_nan());
        ok("safe division", f(6.0).safe_div(f(3.0)) == f(2.0) && S::NAN.safe_div(S::ZERO).is_nan());
        ok("hypot does not overflow", (S::MAX * S::HALF).hypot(S::MAX * S::HALF).is_finite() && S::ZERO.hypot(S::ZERO) == S::ZERO);
        ok("small arguments keep precision", f(1e-12).expm1().to_f64() > 0.99e-12 && f(1e-12).expm1().to_f64() < 1.01e-12 && f(1e-12).ln_1p().to_f64() > 0.99e-12 && f(1e-12).ln_1p().to_f64() < 1.01e-12);
        ok("epsilon", S::EPSILON.to_f64() == eps && S::ONE + S::EPSILON > S::ONE && S::ONE + S::EPSILON * S::HALF == S::ONE);
        ok("range", S::MAX.to_f64() == max && S::MIN_POSITIVE.to_f64() == minp);
        ok("pi", (S::PI.to_f64() - std::f64::consts::PI).abs() <= eps * 2.0 && (S::TWO_PI.to_f64() - std::f64::consts::TAU).abs() <= eps * 4.0);
        ok("half away from zero", f(2.5).round() == f(3.0) && f(-2.5).round() == f(-3.0));
        ok("conversions", S::from_u64(16777215).to_f64() == 16777215.0 && S::from_usize(12345).to_f64() == 12345.0 && S::from_f64(1.5).to_f32() == 1.5);
        ok("powi", f(2.0).powi(0) == S::ONE && f(2.0).powi(-2) == f(0.25) && f(-2.0).powi(3) == f(-8.0) && f(1.0).powi(i32::MIN) == S::ONE);
        ok("powf", (f(-2.0).powf(f(3.0)).to_f64() + 8.0).abs() < 1e-5);
        ok("atan2 quadrants", f(0.0).atan2(f(-1.0)).to_f64() > 3.14 && f(-1.0).atan2(f(-1.0)).to_f64() < -2.3);
        ok("constants", [S::ZERO, S::ONE, S::TWO, S::THREE, S::HALF, S::TEN, S::HUNDRED, S::ONE_HUNDRED_EIGHTY].map(|x| x.to_f64()) == [0.0, 1.0, 2.0, 3.0, 0.5, 10.0, 100.0, 180.0]);
        ok("epsilon multiples", S::EPSILON_X4.to_f64() == eps * 4.0 && S::EPSILON_X30.to_f64() == eps * 30.0);
        ok("primal of duals", Dual::new(f(1.5), f(9.0)).to_f64() == 1.5 && HyperDual::new(f(1.5), f(9.0), f(8.0), f(7.0)).to_f64() == 1.5 && Jet::new([f(1.5), f(9.0)]).to_f64() == 1.5);
        ok("primal of duals", Dual::new(f(1.5), f(9.0)).to_f32() == 1.5 && HyperDual::new(f(1.5), f(9.0), f(8.0), f(7.0)).to_f32() == 1.5 && Jet::new([f(1.5), f(9.0)]).to_f32() == 1.5);
    }
    go::<T, f64>(f64::EPSILON, f64::MAX, f64::MIN_POSITIVE);
    go::<T, f32>(f32::EPSILON as f64, f32::MAX as f64, f32::MIN_POSITIVE as f64);
}
fn main() {
    run::main(
        Info {
            id: "C04",
            assumptions: &[
                "composition: a program built from the scalar operations is differentiated exactly because each operation is exact for arbitrary incoming derivatives (induction over the program, done on paper)",
                "jets: orders above five follow the same recurrence and are not separately checked; one-argument operations to order three, series identities to order five",
                "at kinks (abs, copysign, signum, max, min ties) no derivative is claimed",
            ],
        },
        vec![
            proof!(smooth, "{Dual,HyperDual,Jet}::{neg,abs,sqrt,cbrt,sin,cos,tan,div}, Numeric::{recip,to_radians,to_degrees}"),
            proof!(exponentials, "{Dual,HyperDual,Jet}::{exp,expm1,log,ln_1p,log2,log10}, Numeric::{atan,asin,acos,sinh,cosh,tanh}"),
            proof!(inverse_values, "Numeric::{asin,acos,atan}"),
            proof!(steps, "{Dual,HyperDual,Jet}::{floor,ceil,round,trunc}, Numeric::{signum,wrap_to_pi}"),
            proof!(steps_at_jumps, "{Dual,HyperDual,Jet}::{floor,ceil,round,trunc}"),
            proof!(powi, "Numeric::powi"),
            proof!(arithmetic, "{Dual,HyperDual,Jet}::{add,sub,mul,div,*_assign}, Numeric::safe_div"),
            proof!(transcendental2, "{Dual,HyperDual,Jet}::atan2, Numeric::{powf,hypot}"),
            proof!(selection, "{Dual,HyperDual,Jet}::copysign, Numeric::{max,min}"),
            proof!(clamping, "{Dual,HyperDual,Jet}::clamp, Numeric::mul_add"),
            proof!(jet_series, "Jet::{mul,div,sqrt,cbrt,exp,expm1,log,ln_1p,log2,log10,sin,cos,tan,atan2}"),
            proof!(value_only, "{Dual,HyperDual,Jet}::{eq,partial_cmp,is_nan,is_finite,is_infinite}"),
            proof!(constants, "{Dual,HyperDual,Jet} constants and constructors, Const, Jet::derivative"),
            proof!(division_by_zero, "Numeric::safe_div"),
            proof!(programs, "Dual, HyperDual, Jet, scalar_fn!, scalar_fn_vec!"),
            sampled!(floats, 3000, "Numeric for f64, f32"),
            sampled!(float_specials, 1, "Numeric for f64, f32"),
        ],
    );
}
