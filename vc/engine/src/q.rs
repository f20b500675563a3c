//! Exact rationals: an `i64/i64` fast path that falls back to big rationals.
use num_bigint::BigInt;
use num_integer::Integer;
use num_rational::BigRational;
use num_traits::{One, Signed, ToPrimitive, Zero};

#[derive(Clone, PartialEq, Eq, Hash)]
pub enum Q {
    S(i64, i64),
    B(Box<BigRational>),
}
fn gcd(mut a: i128, mut b: i128) -> i128 {
    a = a.abs();
    b = b.abs();
    while b != 0 {
        let t = a % b;
        a = b;
        b = t;
    }
    a
}
impl Q {
    pub fn int(n: i64) -> Q {
        Q::S(n, 1)
    }
    pub fn zero() -> Q {
        Q::S(0, 1)
    }
    pub fn one() -> Q {
        Q::S(1, 1)
    }
    pub fn new(n: i64, d: i64) -> Q {
        Q::mk(n as i128, d as i128)
    }
    fn mk(n: i128, d: i128) -> Q {
        let g = gcd(n, d).max(1);
        let (mut n, mut d) = (n / g, d / g);
        if d < 0 {
            n = -n;
            d = -d;
        }
        if n.abs() <= i64::MAX as i128 && d <= i64::MAX as i128 {
            Q::S(n as i64, d as i64)
        } else {
            Q::B(Box::new(BigRational::new_raw(BigInt::from(n), BigInt::from(d))))
        }
    }
    pub fn big(&self) -> BigRational {
        match self {
            Q::S(n, d) => BigRational::new_raw(BigInt::from(*n), BigInt::from(*d)),
            Q::B(b) => (**b).clone(),
        }
    }
    pub fn from_big(b: BigRational) -> Q {
        if let (Some(n), Some(d)) = (b.numer().to_i64(), b.denom().to_i64()) {
            if n != i64::MIN {
                return Q::S(n, d);
            }
        }
        Q::B(Box::new(b))
    }
    pub fn is_zero(&self) -> bool {
        matches!(self, Q::S(0, _))
    }
    pub fn is_one(&self) -> bool {
        matches!(self, Q::S(1, 1))
    }
    pub fn sign(&self) -> i32 {
        match self {
            Q::S(n, _) => n.signum() as i32,
            Q::B(b) => {
                if b.is_zero() {
                    0
                } else if b.is_positive() {
                    1
                } else {
                    -1
                }
            }
        }
    }
    pub fn add(&self, o: &Q) -> Q {
        if let (Q::S(a, b), Q::S(c, d)) = (self, o) {
            let (a, b, c, d) = (*a as i128, *b as i128, *c as i128, *d as i128);
            if b == d {
                return Q::mk(a + c, b);
            }
            if let (Some(x), Some(y)) = (a.checked_mul(d), c.checked_mul(b)) {
                if let Some(s) = x.checked_add(y) {
                    return Q::mk(s, b * d);
                }
            }
        }
        Q::from_big(self.big() + o.big())
    }
    pub fn neg(&self) -> Q {
        match self {
            Q::S(n, d) => Q::S(-n, *d),
            Q::B(b) => Q::from_big(-(**b).clone()),
        }
    }
    pub fn sub(&self, o: &Q) -> Q {
        self.add(&o.neg())
    }
    pub fn mul(&self, o: &Q) -> Q {
        if let (Q::S(a, b), Q::S(c, d)) = (self, o) {
            return Q::mk(*a as i128 * *c as i128, *b as i128 * *d as i128);
        }
        Q::from_big(self.big() * o.big())
    }
    pub fn inv(&self) -> Q {
        match self {
            Q::S(n, d) => Q::mk(*d as i128, *n as i128),
            Q::B(b) => Q::from_big(b.recip()),
        }
    }
    pub fn div(&self, o: &Q) -> Q {
        self.mul(&o.inv())
    }
    pub fn abs(&self) -> Q {
        if self.sign() < 0 { self.neg() } else { self.clone() }
    }
    pub fn pow(&self, k: u32) -> Q {
        let mut r = Q::one();
        for _ in 0..k {
            r = r.mul(self);
        }
        r
    }
    pub fn cmp(&self, o: &Q) -> std::cmp::Ordering {
        self.sub(o).sign().cmp(&0)
    }
    pub fn is_int(&self) -> bool {
        match self {
            Q::S(_, d) => *d == 1,
            Q::B(b) => b.is_integer(),
        }
    }
    pub fn to_i64(&self) -> Option<i64> {
        match self {
            Q::S(n, 1) => Some(*n),
            _ => None,
        }
    }
    pub fn floor(&self) -> Q {
        Q::from_big(self.big().floor())
    }
    pub fn numden(&self) -> (BigInt, BigInt) {
        let b = self.big();
        (b.numer().clone(), b.denom().clone())
    }
    pub fn from_numden(n: BigInt, d: BigInt) -> Q {
        Q::from_big(BigRational::new(n, d))
    }
    pub fn to_f64(&self) -> f64 {
        match self {
            Q::S(n, d) => *n as f64 / *d as f64,
            Q::B(b) => {
                // scale so that both parts fit
                let nb = b.numer().bits() as i64;
                let db = b.denom().bits() as i64;
                let sh = nb - db - 64;
                let (mut n, mut d) = (b.numer().clone(), b.denom().clone());
                if sh > 0 {
                    d <<= sh as usize;
                } else {
                    n <<= (-sh) as usize;
                }
                let q = n / d;
                let mut v = q.to_f64().unwrap_or(f64::NAN);
                let mut s = sh;
                while s > 0 {
                    let k = s.min(1000);
                    v *= 2f64.powi(k as i32);
                    s -= k;
                }
                while s < 0 {
                    let k = (-s).min(1000);
                    v *= 2f64.powi(-(k as i32));
                    s += k;
                }
                v
            }
        }
    }
    pub fn exact_f64(x: f64) -> Q {
        Q::from_big(BigRational::from_float(x).expect("finite"))
    }
    /// The rational a finite `f64` literal stands for: the shortest decimal when it is short,
    /// otherwise the simplest fraction (denominator at most 400000) that rounds to it, otherwise the
    /// exact binary value.
    pub fn literal(x: f64) -> Q {
        if x == x.trunc() && x.abs() < 9e15 {
            return Q::int(x as i64);
        }
        // continued fraction
        let ex = BigRational::from_float(x).expect("finite");
        let (mut h0, mut h1) = (BigInt::zero(), BigInt::one());
        let (mut k0, mut k1) = (BigInt::one(), BigInt::zero());
        let mut r = ex.clone();
        let lim = BigInt::from(400_000);
        for _ in 0..40 {
            let a = r.floor().to_integer();
            let h2 = &a * &h1 + &h0;
            let k2 = &a * &k1 + &k0;
            if k2 > lim {
                break;
            }
            let c = BigRational::new(h2.clone(), k2.clone());
            let q = Q::from_big(c.clone());
            if let (Some(n), Some(d)) = (h2.to_f64(), k2.to_f64()) {
                if n / d == x {
                    return q;
                }
            }
            h0 = h1;
            h1 = h2;
            k0 = k1;
            k1 = k2;
            let f = &r - BigRational::from_integer(a);
            if f.is_zero() {
                break;
            }
            r = f.recip();
        }
        let s = format!("{:e}", x);
        if let Some((m, e)) = s.split_once('e') {
            let neg = m.starts_with('-');
            let m = m.trim_start_matches('-');
            let digits: String = m.chars().filter(|c| *c != '.').collect();
            if digits.len() <= 12 {
                let frac = m.split_once('.').map(|p| p.1.len()).unwrap_or(0) as i64;
                let e: i64 = e.parse::<i64>().unwrap() - frac;
                let mut n: BigInt = digits.parse().unwrap();
                if neg {
                    n = -n;
                }
                let ten = BigInt::from(10);
                return if e >= 0 {
                    Q::from_numden(n * ten.pow(e as u32), BigInt::one())
                } else {
                    Q::from_numden(n, ten.pow((-e) as u32))
                };
            }
        }
        Q::exact_f64(x)
    }
    /// Exact square root, when rational.
    pub fn sqrt_exact(&self) -> Option<Q> {
        if self.sign() < 0 {
            return None;
        }
        let (n, d) = self.numden();
        let (rn, rd) = (n.sqrt(), d.sqrt());
        if &rn * &rn == n && &rd * &rd == d { Some(Q::from_numden(rn, rd)) } else { None }
    }
    /// `self = s^2 * f` with `f` an integer free of small square factors.
    pub fn split_square(&self) -> (Q, Q) {
        let (n, d) = self.numden();
        // n/d = n*d / d^2
        let mut m = n * &d;
        let mut s = BigInt::one();
        for p in 2u32..1000 {
            let pp = BigInt::from(p) * p;
            while (&m % &pp).is_zero() && !m.is_zero() {
                m /= &pp;
                s *= p;
            }
        }
        let r = m.sqrt();
        if &r * &r == m {
            s *= r;
            m = BigInt::one();
        }
        (Q::from_numden(s, d), Q::from_numden(m, BigInt::one()))
    }
    pub fn cbrt_exact(&self) -> Option<Q> {
        let (n, d) = self.numden();
        let (rn, rd) = (n.cbrt(), d.cbrt());
        if &rn * &rn * &rn == n && &rd * &rd * &rd == d { Some(Q::from_numden(rn, rd)) } else { None }
    }
    pub fn smt(&self) -> String {
        let (n, d) = self.numden();
        let a = if d.is_one() { format!("{}.0", n.abs()) } else { format!("(/ {}.0 {}.0)", n.abs(), d) };
        if n.is_negative() { format!("(- {a})") } else { a }
    }
    pub fn show(&self) -> String {
        let (n, d) = self.numden();
        if d.is_one() { n.to_string() } else { format!("{n}/{d}") }
    }
    pub fn lcm_den(a: &BigInt, b: &BigInt) -> BigInt {
        a.lcm(b)
    }
}
