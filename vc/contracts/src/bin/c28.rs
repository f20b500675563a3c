//! C28: random numbers — the PCG words, the unit draws, and the normal draws built on them.
use contracts::*;
use multicalc::random::{Pcg32, RandomSource};

const M: u64 = 6364136223846793005;
const STREAM: u64 = 0xda3e_39cb_94b9_5bdb;
/// PCG-XSH-RR with 64-bit state, as published
struct Pcg {
    state: u64,
    inc: u64,
}
impl Pcg {
    fn new(seed: u64, stream: u64) -> Pcg {
        let mut p = Pcg { state: 0, inc: stream.wrapping_mul(2) | 1 };
        p.word();
        p.state = p.state.wrapping_add(seed);
        p.word();
        p
    }
    fn word(&mut self) -> u32 {
        let s = self.state;
        self.state = s.wrapping_mul(M).wrapping_add(self.inc);
        let x = (((s >> 18) ^ s) >> 27) as u32;
        x.rotate_right((s >> 59) as u32)
    }
}
fn any64<T: Scal>() -> u64 {
    let mut w = 0u64;
    for _ in 0..4 {
        w = (w << 16) | T::rndi(1 << 16) as u64;
    }
    match T::rndi(6) {
        0 => w >> 32,
        1 => w % 3,
        2 => u64::MAX - (w % 3),
        3 => w | (1 << 63),
        _ => w,
    }
}
fn word<G: RandomSource<f64>>(g: &mut G) -> u32 {
    g.next_u32()
}
// ---- discharged bit for bit by the harnesses of the same names in /verif/kani; here at sampled inputs
fn words<T: Scal>() {
    let (seed, stream) = (any64::<T>(), any64::<T>());
    let (mut g, mut p) = (Pcg32::<f64>::with_stream(seed, stream), Pcg::new(seed, stream));
    T::prove("words", b((0..40).all(|_| word(&mut g) == p.word())));
}
fn next_state<T: Scal>() {
    let (seed, stream) = (any64::<T>(), any64::<T>());
    let mut g = Pcg32::<f64>::with_stream(seed, stream);
    for _ in 0..5 {
        word(&mut g);
    }
    let mut at = seed;
    for _ in 0..5 {
        at = (stream.wrapping_mul(2) | 1).wrapping_add(at).wrapping_mul(M);
    }
    T::prove("next_state", b(g == Pcg32::with_stream(at, stream)));
}
fn default_stream<T: Scal>() {
    let seed = any64::<T>();
    T::prove("default_stream", b(Pcg32::<f64>::new(seed) == Pcg32::with_stream(seed, STREAM)));
}
struct Words(Vec<u32>, usize);
macro_rules! words {
    ($t:ty) => {
        impl RandomSource<$t> for Words {
            fn next_u32(&mut self) -> u32 {
                self.1 += 1;
                self.0[self.1 - 1]
            }
            fn get_cache(&mut self) -> Option<$t> {
                None
            }
            fn set_cache(&mut self, _: $t) {}
        }
    };
}
words!(f64);
words!(f32);
fn some_words<T: Scal>() -> Words {
    Words((0..4).map(|_| any64::<T>() as u32).collect(), 0)
}
fn wide<T: Scal>() {
    let mut s = some_words::<T>();
    let w = RandomSource::<f64>::next_u64(&mut s);
    T::prove("wide", b(w == ((s.0[0] as u64) << 32) + s.0[1] as u64 && s.1 == 2));
}
fn unit64<T: Scal>() {
    let mut s = some_words::<T>();
    let u: f64 = s.next_unit();
    let top = ((s.0[0] as u64) << 21) + (s.0[1] >> 11) as u64;
    T::prove("unit64", b((0.0..1.0).contains(&u) && s.1 == 2 && u * 9007199254740992.0 == top as f64));
}
fn unit32<T: Scal>() {
    let mut s = some_words::<T>();
    let u: f32 = s.next_unit();
    T::prove("unit32", b((0.0..1.0).contains(&u) && s.1 == 1 && u * 16777216.0 == (s.0[0] >> 8) as f32));
}
/// the same seed replays the same draws of every kind, and a clone carries on alike
fn replays<T: Scal>() {
    let (seed, stream) = (any64::<T>(), any64::<T>());
    let (mut g, mut h) = (Pcg32::<f64>::with_stream(seed, stream), Pcg32::<f64>::with_stream(seed, stream));
    let draw = |g: &mut Pcg32<f64>, kind: usize| match kind {
        0 => g.next_u32() as f64,
        1 => g.next_u64() as f64,
        2 => g.next_unit(),
        _ => g.standard_normal(),
    };
    let kinds: Vec<usize> = (0..24).map(|_| T::rndi(4)).collect();
    T::prove("same seed, same draws", b(kinds.iter().all(|k| draw(&mut g, *k) == draw(&mut h, *k)) && g == h));
    let mut c = g.clone();
    T::prove("a clone carries on alike", b(kinds.iter().all(|k| draw(&mut g, *k) == draw(&mut c, *k))));
}
/// the normal draws of the generator itself, against its own unit draws
fn normals<T: Scal>() {
    let seed = any64::<T>();
    let (mut g, mut u) = (Pcg32::<f64>::new(seed), Pcg32::<f64>::new(seed));
    let mut good = true;
    for _ in 0..6 {
        let (x, y) = loop {
            let (x, y) = (2.0 * u.next_unit() - 1.0, 2.0 * u.next_unit() - 1.0);
            let s: f64 = x * x + y * y;
            if s > 0.0 && s < 1.0 {
                let k = (-2.0 * s.ln() / s).sqrt();
                break (x * k, y * k);
            }
        };
        let near = |a: f64, b: f64| (a - b).abs() <= 1e-12 * (1.0 + b.abs());
        good &= near(g.standard_normal(), x) && near(g.standard_normal(), y);
    }
    T::prove("Marsaglia pairs of the generator's own draws", b(good && word(&mut g) == word(&mut u)));
}
// ---- the polar method over named unit draws
#[derive(Default)]
struct Tape<T> {
    drawn: Vec<T>,
    /// whether each pair is accepted; past the end draws are not expected
    accept: Vec<bool>,
    cache: Option<T>,
}
impl<T: Scal> RandomSource<T> for Tape<T> {
    fn next_u32(&mut self) -> u32 {
        unreachable!("raw words are not drawn")
    }
    fn next_unit(&mut self) -> T {
        let k = self.drawn.len();
        if k >= 2 * self.accept.len() {
            T::prove("no draw beyond the accepted pair", b(false));
            T::abandon()
        }
        // every draw of [0, 1), named by the coordinate in [-1, 1) it stands for
        let x = T::var_in(&format!("x{k}"), -T::ONE, T::ONE);
        T::assume(lt(x, T::ONE));
        let u = (x + T::ONE) / T::TWO;
        self.drawn.push(u);
        if k % 2 == 1 {
            let s = disc(self.drawn[k - 1], u).2;
            let inside = and(vec![gt(s, T::ZERO), lt(s, T::ONE)]);
            T::assume(if self.accept[k / 2] { inside } else { not(inside) });
        }
        u
    }
    fn get_cache(&mut self) -> Option<T> {
        self.cache.take()
    }
    fn set_cache(&mut self, value: T) {
        self.cache = Some(value);
    }
}
fn disc<T: Scal>(u: T, v: T) -> (T, T, T) {
    let (x, y) = (T::TWO * u - T::ONE, T::TWO * v - T::ONE);
    (x, y, x * x + y * y)
}
/// the two normals of the last accepted pair
fn pair<T: Scal>(s: &Tape<T>, a: T, c: T) {
    let n = s.drawn.len();
    let (x, y, r) = disc(s.drawn[n - 2], s.drawn[n - 1]);
    T::prove("squared length", eq(a * a + c * c, -T::TWO * r.log()));
    T::prove("along the accepted point", eq(a * y, c * x));
    T::prove("not against it", and(vec![ge(a * x, T::ZERO), ge(c * y, T::ZERO)]));
}
/// however many pairs miss the disc, the first that lands in it gives both normals
fn polar<T: Scal>() {
    let misses = T::choose("misses", 4);
    let mut accept = vec![false; misses];
    accept.push(true);
    let mut s: Tape<T> = Tape { drawn: vec![], accept, cache: None };
    let a = s.standard_normal();
    T::prove("two draws a pair", b(s.drawn.len() == 2 * misses + 2));
    let c = s.standard_normal();
    T::prove("the second comes from the first's pair", b(s.drawn.len() == 2 * misses + 2));
    pair(&s, a, c);
    T::prove("served once", b(s.cache.is_none()));
    s.accept.push(true);
    let a = s.standard_normal();
    let c = s.standard_normal();
    T::prove("then a fresh pair", b(s.drawn.len() == 2 * misses + 4));
    pair(&s, a, c);
}
/// the spare a generator keeps is served as it was put, once
fn spare<T: Scal>() {
    let (z, w) = (T::var("z"), T::var("w"));
    let mut g = Pcg32::<T>::new(T::rndi(9) as u64);
    T::prove("none to begin with", b(g.get_cache().is_none()));
    g.set_cache(z);
    T::prove("the normal served is the spare", eq(g.standard_normal(), z));
    T::prove("and only once", b(g.get_cache().is_none()));
    g.set_cache(z);
    g.set_cache(w);
    T::prove("the latest spare", g.get_cache().map_or(b(false), |x| eq(x, w)));
    T::prove("then none", b(g.get_cache().is_none()));
}

fn main() {
    run::main(
        run::Info {
            id: "C28",
            assumptions: &[
                "trusted for the bits contracts: Kani 0.68, CBMC 6.11 and z3 (harnesses in /verif/kani on the library compiled as it is)",
                "the bits contracts hold for every 64-bit seed and stream and every word, machine arithmetic exact; with next_state they carry to every later word by induction",
                "the polar loop is unrolled to three missed pairs before the accepted one; a missed pair leaves no state behind in the library's trait method",
                "replays and normals evaluate the real generator at sampled seeds (bounded)",
            ],
        },
        vec![
            bits!(words, "Pcg32::with_stream, next_u32"),
            bits!(next_state, "Pcg32::with_stream, next_u32, eq"),
            bits!(default_stream, "Pcg32::new"),
            bits!(wide, "RandomSource::next_u64"),
            bits!(unit64, "RandomScalar for f64::next_unit"),
            bits!(unit32, "RandomScalar for f32::next_unit"),
            proof!(polar, "RandomSource::standard_normal"),
            proof!(spare, "Pcg32::get_cache, set_cache, standard_normal"),
            sampled!(replays, 200, "Pcg32::with_stream, clone, next_u32, next_u64, next_unit, standard_normal"),
            sampled!(normals, 200, "Pcg32::standard_normal"),
        ],
    );
}
