use contracts::*;
use multicalc::error::EstimationError;
use multicalc::estimation::*;
use multicalc::mapping::{OccupancyMap, ScanGeometry};
use multicalc::random::{RandomScalar, RandomSource};
use multicalc::scalar::VectorFn;
use std::cell::RefCell;
use std::rc::Rc;

/// A source whose draws are named inputs, recorded as they are taken.
#[derive(Clone)]
struct Tape<T> {
    units: Rc<RefCell<Vec<T>>>,
    normals: Rc<RefCell<Vec<T>>>,
}
impl<T: Scal> Tape<T> {
    fn new() -> Self {
        Tape { units: Default::default(), normals: Default::default() }
    }
    fn take_units(&self) -> Vec<T> {
        std::mem::take(&mut *self.units.borrow_mut())
    }
    fn take_normals(&self) -> Vec<T> {
        std::mem::take(&mut *self.normals.borrow_mut())
    }
}
impl<T: Scal> RandomSource<T> for Tape<T> {
    fn next_u32(&mut self) -> u32 {
        unreachable!("raw words are not drawn")
    }
    fn next_unit(&mut self) -> T {
        let u = T::var_in("u", T::ZERO, T::ONE);
        T::assume(lt(u, T::ONE));
        self.units.borrow_mut().push(u);
        u
    }
    fn standard_normal(&mut self) -> T {
        let z = T::var("z");
        self.normals.borrow_mut().push(z);
        z
    }
    fn get_cache(&mut self) -> Option<T> {
        None
    }
    fn set_cache(&mut self, _: T) {}
}
struct Affine<const N: usize, const M: usize, T: Scal>(Matrix<M, N, T>, [T; M]);
impl<const N: usize, const M: usize, T: Scal> VectorFn<N, M> for Affine<N, M, T> {
    fn eval<S: Numeric>(&self, x: &[S; N]) -> [S; M] {
        std::array::from_fn(|i| {
            let mut t = S::from_f64(self.1[i].smug());
            for j in 0..N {
                t = t + S::from_f64(self.0[(i, j)].smug()) * x[j];
            }
            t
        })
    }
}
type Pf<T> = ParticleFilter<2, 1, T, Tape<T>>;
/// a cloud of `n` scattered particles and the tape feeding it
fn cloud<T: Scal>(n: usize) -> (Pf<T>, Tape<T>) {
    let t = Tape::new();
    let f = Pf::from_random(n, Vector::zeros(), Matrix::identity(), Matrix::identity(), t.clone());
    match f {
        Ok(f) => {
            t.take_normals();
            (f.with_resample_threshold(T::ZERO), t)
        }
        Err(_) => T::abandon(),
    }
}
fn weights_are<T: Scal>(f: &Pf<T>, w: &[T]) -> P<T> {
    eqs(f.weights(), w)
}
fn same_cloud<T: Scal>(f: &Pf<T>, p: &[Vector<2, T>], w: &[T]) -> P<T> {
    let mut all: Vec<P<T>> = f.particles().iter().zip(p).map(|(a, b)| veq(a, b.as_slice())).collect();
    all.push(b(f.particles().len() == p.len()));
    all.push(weights_are(f, w));
    and(all)
}
/// normalised free weights, all positive
fn simplex<T: Scal>(n: usize) -> Vec<T> {
    let mut w: Vec<T> = (1..n).map(|i| T::nonneg(&format!("w{i}"))).collect();
    let rest = w.iter().fold(T::ONE, |t, x| t - *x);
    T::assume(ge(rest, T::ZERO));
    w.insert(0, rest);
    w
}
// ---------------------------------------------------------------- building and moving the cloud
fn scatter<T: Scal>() {
    let (mean, (p, l), (q, lq)) = (T::vars::<2>("m"), spd::<T, 2>("p"), spd::<T, 2>("q"));
    let n = 1 + T::choose("n", 3);
    let t = Tape::new();
    let f = Pf::<T>::from_random(n, Vector::new(mean), p, q, t.clone());
    let Ok(mut f) = f else { return T::prove("accepted", b(false)) };
    let z = t.take_normals();
    T::prove("one draw per coordinate", b(z.len() == 2 * n && t.take_units().is_empty() && f.particles().len() == n));
    let place = |l: &Matrix<2, 2, T>, c: [T; 2], z: &[T]| {
        let s = mv(l, &[z[0], z[1]]);
        [c[0] + s[0], c[1] + s[1]]
    };
    let at: Vec<[T; 2]> = (0..n).map(|i| place(&l, mean, &z[2 * i..])).collect();
    for i in 0..n {
        T::prove("scattered by the covariance about the mean", veq(&f.particles()[i], &at[i]));
    }
    let w = vec![T::ONE / T::i(n as i64); n];
    T::prove("equally likely", weights_are(&f, &w));
    T::prove("effective sample size of an equal cloud", eq(f.effective_sample_size(), T::i(n as i64)));
    let (a, c) = (mat::<T, 2, 2>("a"), T::vars::<2>("c"));
    let fresh = T::choose("new noise", 2) == 1;
    let lq = if fresh {
        let (q, l) = spd::<T, 2>("q2");
        T::prove("process noise replaced", b(f.set_process_noise(q).is_ok()));
        l
    } else {
        lq
    };
    T::prove("moved", b(f.predict(&Affine(a, c)).is_ok()));
    let z = t.take_normals();
    T::prove("one kick per coordinate", b(z.len() == 2 * n));
    for i in 0..n {
        let fx = mv(&a, &at[i]);
        let to = place(&lq, [fx[0] + c[0], fx[1] + c[1]], &z[2 * i..]);
        T::prove("through the model with a draw of process noise", veq(&f.particles()[i], &to));
    }
    T::prove("weights kept", weights_are(&f, &w));
}
fn build_refused<T: Scal>() {
    let mk = |n, p, q| Pf::<T>::from_random(n, Vector::zeros(), p, q, Tape::new()).err();
    let id = Matrix::<2, 2, T>::identity();
    T::prove("no particles", b(mk(0, id, id) == Some(EstimationError::WeightsDegenerate)));
    let (a, c) = (T::var("a"), T::var("c"));
    let bad = Matrix::<2, 2, T>::new([[a, c], [c, T::ONE]]);
    T::assume(le(a, c * c));
    T::prove("initial covariance must factor", b(mk(2, bad, id) == Some(EstimationError::NotPositiveDefinite)));
    T::prove("process noise must factor", b(mk(2, id, bad) == Some(EstimationError::NotPositiveDefinite)));
    let (mut f, t) = cloud::<T>(2);
    let p = f.particles().to_vec();
    T::prove("new process noise must factor", b(f.set_process_noise(bad) == Err(EstimationError::NotPositiveDefinite)));
    T::prove("cloud kept", same_cloud(&f, &p, &[T::HALF; 2]));
    T::prove("measurement noise must factor", b(GaussianLikelihood::new(bad).err() == Some(EstimationError::NotPositiveDefinite)));
    let x = T::special("bad");
    let r = f.predict(&Affine(Matrix::identity(), [T::ZERO, x]));
    T::prove("a non-finite particle is reported", b(r == Err(EstimationError::NonFinite)));
    T::prove("weights kept by it", weights_are(&f, &[T::HALF; 2]));
    let _ = t;
}
// ---------------------------------------------------------------- reweighting
fn reweight_n<T: Scal>(n: usize) {
    let (mut f, t) = cloud::<T>(n);
    let p = f.particles().to_vec();
    let mut odds = vec![T::ONE; n];
    for round in 0..2 {
        let s: Vec<T> = (0..n).map(|i| T::var(&format!("s{round}{i}"))).collect();
        let mut seen = vec![];
        let r = f.update_with_log_weights(|x| {
            seen.push(*x);
            s[seen.len() - 1]
        });
        T::prove("accepted", b(r.is_ok() && seen.len() == n));
        T::prove("every particle scored once, in order", and(seen.iter().zip(&p).map(|(a, b)| veq(a, b.as_slice())).collect()));
        for i in 0..n {
            odds[i] = odds[i] * s[i].exp();
        }
        let total = sum(&odds);
        let w: Vec<T> = odds.iter().map(|o| *o / total).collect();
        T::prove("prior weight times likelihood, normalised", same_cloud(&f, &p, &w));
        T::prove("weights sum to one", eq(sum(f.weights()), T::ONE));
        T::prove("weights are not negative", and(f.weights().iter().map(|w| ge(*w, T::ZERO)).collect()));
        if round == 1 {
            break;
        }
        let sq = w.iter().fold(T::ZERO, |t, x| t + *x * *x);
        T::prove("effective sample size", eq(f.effective_sample_size() * sq, T::ONE));
        let mean: [T; 2] = std::array::from_fn(|k| (0..n).fold(T::ZERO, |t, i| t + w[i] * p[i][k]));
        T::prove("weighted mean", veq(&f.mean(), &mean));
        let best = f.maximum_a_posteriori_state();
        T::prove(
            "the likeliest particle",
            or((0..n).map(|i| and([vec![veq(&best, p[i].as_slice())], (0..n).map(|j| ge(w[i], w[j])).collect()].concat())).collect()),
        );
    }
    T::prove("nothing drawn", b(t.take_normals().is_empty() && t.take_units().is_empty()));
}
fn reweight<T: Scal>() {
    reweight_n::<T>(1 + T::choose("n", 2));
}
fn reweight_3<T: Scal>() {
    reweight_n::<T>(3);
}
fn gaussian<T: Scal>() {
    // through a model and a Gaussian likelihood
    let (r, _) = spd::<T, 2>("r");
    let Ok(l) = GaussianLikelihood::new(r) else { return T::prove("accepted", b(false)) };
    let (p, z) = (T::vars::<2>("p"), T::vars::<2>("z"));
    let d = [z[0] - p[0], z[1] - p[1]];
    let dt = r[(0, 0)] * r[(1, 1)] - r[(0, 1)] * r[(0, 1)];
    let m = (d[0] * d[0] * r[(1, 1)] - T::TWO * d[0] * d[1] * r[(0, 1)] + d[1] * d[1] * r[(0, 0)]) / dt;
    T::prove("log likelihood", eq(l.log_weight(&p, &z), -m / T::TWO));
    let (mut f, _) = cloud::<T>(2);
    let at = f.particles().to_vec();
    let sg = T::pos("sg");
    let Ok(l) = GaussianLikelihood::new(Matrix::new([[sg * sg]])) else { return T::prove("accepted", b(false)) };
    let (h, c) = (mat::<T, 1, 2>("h"), T::var("c"));
    let z = T::var("y");
    T::prove("update accepted", b(f.update(&Affine(h, [c]), &l, Vector::new([z])).is_ok()));
    let score: Vec<T> = at
        .iter()
        .map(|x| {
            let e = z - c - dot(&[h[(0, 0)], h[(0, 1)]], x.as_slice());
            -e * e / (T::TWO * sg * sg)
        })
        .collect();
    let w = f.weights().to_vec();
    T::prove("weights by the likelihood of the reading", and(vec![eq(w[0] + w[1], T::ONE), eq(w[0] * (score[1] - score[0]).exp(), w[1])]));
    let bad = Vector::new([T::special("bad")]);
    T::prove("non-finite reading refused", b(f.update(&Affine(h, [c]), &l, bad) == Err(EstimationError::NonFinite)));
    T::prove("cloud unchanged", same_cloud(&f, &at, &w));
}
fn reweight_refused<T: Scal>() {
    let n = 1 + T::choose("n", 3);
    let (mut f, _) = cloud::<T>(n);
    let p = f.particles().to_vec();
    let w = vec![T::ONE / T::i(n as i64); n];
    let kind = T::choose("kind", 3);
    let k = T::choose("which", 3);
    let mut i = 0;
    let r = f.update_with_log_weights(|_| {
        i += 1;
        match kind {
            0 => T::NEG_INFINITY,
            1 if i - 1 == k % n => T::NAN,
            2 if i - 1 == k % n => T::INFINITY,
            _ => T::i(i as i64),
        }
    });
    T::prove("no usable likelihood", b(r == Err(EstimationError::WeightsDegenerate)));
    T::prove("cloud unchanged", same_cloud(&f, &p, &w));
}
/// underflow and impossible particles, in floating point
fn extreme<T: Scal>() {
    let n = 2 + T::rndi(6);
    let (mut f, _) = cloud::<T>(n);
    let s: Vec<T> = (0..n).map(|i| if i == 0 || T::rndi(3) == 0 { T::rnd(-3, 3, 4) } else if T::rndi(2) == 0 { T::NEG_INFINITY } else { T::rnd(-2000, -1000, 1) }).collect();
    let shift = [T::ZERO, T::i(-100_000), T::i(100_000)][T::rndi(3)];
    let mut i = 0;
    let r = f.update_with_log_weights(|_| {
        i += 1;
        s[i - 1] + shift
    });
    T::prove("accepted", b(r.is_ok()));
    let total = s.iter().fold(T::ZERO, |t, x| t + x.exp());
    for (i, w) in f.weights().iter().enumerate() {
        T::prove_close("weight", *w, s[i].exp() / total, 1e-9);
    }
    T::prove_close("weights sum to one", sum(f.weights()), T::ONE, 1e-14);
    // a weight that underflowed is not lost for good
    let mut i = 0;
    let back = f.weights().iter().position(|w| T::holds(eq(*w, T::ZERO)));
    if let Some(k) = back {
        let r = f.update_with_log_weights(|_| {
            i += 1;
            if i - 1 == k { T::i(2000) } else { T::ZERO }
        });
        T::prove("accepted", b(r.is_ok()));
        T::prove_close("recovered", f.weights()[k], T::ONE, 1e-9);
    }
}
// ---------------------------------------------------------------- resampling
fn cumulative<T: Scal>(w: &[T]) -> Vec<T> {
    let mut c = vec![T::ZERO];
    for x in w {
        c.push(*c.last().unwrap() + *x);
    }
    c
}
fn copies(idx: &[usize], n: usize) -> Vec<i64> {
    (0..n).map(|i| idx.iter().filter(|k| **k == i).count() as i64).collect()
}
fn draw_n<T: Scal>(n: usize, scheme: ResamplingScheme) {
    let w = simplex::<T>(n);
    let mut t = Tape::new();
    let mut idx = vec![usize::MAX; n];
    scheme.resample_indices(&w, &mut t, &mut idx);
    let u = t.take_units();
    T::prove("only existing particles", b(idx.iter().all(|i| *i < n)));
    let c = cumulative(&w);
    let nn = T::i(n as i64);
    let k = copies(&idx, n);
    match scheme {
        ResamplingScheme::Systematic | ResamplingScheme::Stratified => {
            let shared = scheme == ResamplingScheme::Systematic;
            T::prove("number of draws", b(u.len() == if shared { 1 } else { n }));
            for (s, &i) in idx.iter().enumerate() {
                let at = (T::i(s as i64) + u[if shared { 0 } else { s }]) / nn;
                T::prove("the particle whose share of the line holds the pick", and(vec![le(c[i], at), lt(at, c[i + 1])]));
            }
            let slack = if shared { T::ONE } else { T::TWO };
            for i in 0..n {
                let e = T::i(k[i]) - nn * w[i];
                T::prove("copies close to their expected number", and(vec![lt(-slack, e), lt(e, slack)]));
            }
        }
        ResamplingScheme::Multinomial => {
            T::prove("number of draws", b(u.len() == n));
            for (s, &i) in idx.iter().enumerate() {
                T::prove("the first particle whose running weight reaches the draw", and(vec![or(vec![b(i == 0), lt(c[i], u[s])]), ge(c[i + 1], u[s])]));
            }
        }
        _ => {
            let mut laid = vec![];
            for i in 0..n {
                let mut j = 0;
                while j < n && T::holds(ge(nn * w[i], T::i(j as i64 + 1))) {
                    laid.push(i);
                    j += 1;
                }
            }
            T::prove("whole copies first", b(laid.len() <= n && idx[..laid.len()] == laid));
            T::prove("number of draws", b(u.len() == n - laid.len()));
            let rest: Vec<T> = (0..n).map(|i| nn * w[i] - T::i(copies(&laid, n)[i])).collect();
            let total = sum(&rest);
            let c = cumulative(&rest);
            for (s, &i) in idx[laid.len()..].iter().enumerate() {
                T::prove("the first particle whose running remainder reaches the draw", and(vec![or(vec![b(i == 0), lt(c[i], u[s] * total)]), ge(c[i + 1], u[s] * total)]));
            }
        }
    }
}
fn draw<T: Scal>(s: ResamplingScheme) {
    draw_n::<T>(1 + T::choose("n", 3), s);
}
fn systematic<T: Scal>() {
    draw::<T>(ResamplingScheme::Systematic);
}
fn systematic_4<T: Scal>() {
    draw_n::<T>(4, ResamplingScheme::Systematic);
}
fn stratified<T: Scal>() {
    draw::<T>(ResamplingScheme::Stratified);
}
fn multinomial<T: Scal>() {
    draw::<T>(ResamplingScheme::Multinomial);
}
fn residual<T: Scal>() {
    draw::<T>(ResamplingScheme::Residual);
}
fn empty_draw<T: Scal>() {
    let mut t = Tape::<T>::new();
    let mut idx = [7, 8];
    let s = [ResamplingScheme::Systematic, ResamplingScheme::Stratified, ResamplingScheme::Multinomial, ResamplingScheme::Residual][T::choose("scheme", 4)];
    s.resample_indices(&[], &mut t, &mut idx);
    T::prove("no weights, nothing drawn or written", b(idx == [7, 8] && t.take_units().is_empty()));
    T::prove("systematic is the default", b(ResamplingScheme::default() == ResamplingScheme::Systematic));
}
fn many<T: Scal>() {
    // large clouds: floor or ceiling of the expected copies, and fair totals
    let n = 2 + T::rndi(60);
    let raw: Vec<T> = (0..n).map(|_| if T::rndi(4) == 0 { T::ZERO } else { T::rnd(1, 50, 3) }).collect();
    let s = sum(&raw);
    if T::holds(le(s, T::ZERO)) {
        return;
    }
    let w: Vec<T> = raw.iter().map(|x| *x / s).collect();
    let c = cumulative(&w);
    let scheme = [ResamplingScheme::Systematic, ResamplingScheme::Stratified, ResamplingScheme::Multinomial, ResamplingScheme::Residual][T::rndi(4)];
    let mut g = multicalc::random::Pcg32::<f64>::new(T::rndi(1 << 30) as u64);
    struct Real<T>(Vec<T>);
    impl<T: Scal> RandomSource<T> for Real<T> {
        fn next_u32(&mut self) -> u32 {
            0
        }
        fn next_unit(&mut self) -> T {
            self.0.pop().unwrap()
        }
        fn get_cache(&mut self) -> Option<T> {
            None
        }
        fn set_cache(&mut self, _: T) {}
    }
    let u: Vec<T> = (0..n).map(|_| T::from_f64(<f64 as RandomScalar>::next_unit(&mut g))).collect();
    let mut src = Real(u.iter().rev().cloned().collect());
    let mut idx = vec![0; n];
    scheme.resample_indices(&w, &mut src, &mut idx);
    let k = copies(&idx, n);
    let nn = T::i(n as i64);
    let eps = T::q(1, 1_000_000_000);
    for i in 0..n {
        let e = T::i(k[i]) - nn * w[i];
        let ok = match scheme {
            ResamplingScheme::Systematic => and(vec![lt(-T::ONE - eps, e), lt(e, T::ONE + eps)]),
            ResamplingScheme::Stratified => and(vec![lt(-T::TWO - eps, e), lt(e, T::TWO + eps)]),
            ResamplingScheme::Residual => ge(e, -T::ONE - eps),
            _ => b(true),
        };
        T::prove("copies close to their expected number", ok);
    }
    if scheme == ResamplingScheme::Multinomial {
        for (s, &i) in idx.iter().enumerate() {
            T::prove("picked by running weight", and(vec![le(c[i], u[s] + eps), ge(c[i + 1], u[s] - eps)]));
        }
    }
}
/// weights whose total falls short of a draw by rounding: the last source is picked, nothing overruns
fn short_total<T: Scal>() {
    struct Top<T>(T);
    impl<T: Scal> RandomSource<T> for Top<T> {
        fn next_u32(&mut self) -> u32 {
            0
        }
        fn next_unit(&mut self) -> T {
            self.0
        }
        fn get_cache(&mut self) -> Option<T> {
            None
        }
        fn set_cache(&mut self, _: T) {}
    }
    let n = 2 + T::choose("n", 3);
    let scheme = [ResamplingScheme::Systematic, ResamplingScheme::Stratified, ResamplingScheme::Multinomial, ResamplingScheme::Residual][T::choose("scheme", 4)];
    let w = vec![T::q(7, 10) / T::i(n as i64); n];
    let mut idx = vec![usize::MAX; n];
    scheme.resample_indices(&w, &mut Top(T::q(99, 100)), &mut idx);
    T::prove("every pick names a source", b(idx.iter().all(|i| *i < n)));
    T::prove("a draw past the total picks the last source", b(idx[n - 1] == n - 1));
}
fn resample<T: Scal>() {
    let n = 1 + T::choose("n", 3);
    let (f, t) = cloud::<T>(n);
    let rough = T::choose("roughening", 2) == 1;
    let k = T::var("k");
    if rough {
        T::assume(gt(k, T::ZERO));
    } else {
        T::assume(le(k, T::ZERO));
    }
    let scheme = if T::choose("scheme", 2) == 0 { ResamplingScheme::Systematic } else { ResamplingScheme::Multinomial };
    let mut f = f.with_resampling(scheme).with_roughening(k);
    let p = f.particles().to_vec();
    f.resample();
    let u = t.take_units();
    let w = vec![T::ONE / T::i(n as i64); n];
    T::prove("cloud size kept, equally likely", and(vec![b(f.particles().len() == n), weights_are(&f, &w)]));
    // equal weights: the systematic pick keeps every particle once
    let at: Vec<Vector<2, T>> = (0..n)
        .map(|s| {
            if scheme == ResamplingScheme::Systematic {
                return p[s];
            }
            let mut i = 0;
            while i + 1 < n && T::holds(gt(u[s] * T::i(n as i64), T::i(i as i64 + 1))) {
                i += 1;
            }
            p[i]
        })
        .collect();
    let z = t.take_normals();
    if !rough {
        T::prove("copies of existing particles", same_cloud(&f, &at, &w));
        T::prove("no jitter", b(z.is_empty()));
        return;
    }
    let mut used = 0;
    for axis in 0..2 {
        let (mut lo, mut hi) = (at[0][axis], at[0][axis]);
        for x in &at {
            if T::holds(lt(x[axis], lo)) {
                lo = x[axis];
            }
            if T::holds(gt(x[axis], hi)) {
                hi = x[axis];
            }
        }
        if T::holds(eq(lo, hi)) {
            for i in 0..n {
                T::prove("no reach, no jitter", eq(f.particles()[i][axis], at[i][axis]));
            }
            continue;
        }
        for i in 0..n {
            T::prove("jitter in proportion to the reach", eq(f.particles()[i][axis], at[i][axis] + k * (hi - lo) * z[used + i]));
        }
        used += n;
    }
    T::prove("one draw per jittered coordinate", b(z.len() == used));
}
fn triggered<T: Scal>() {
    // an update resamples exactly when the effective sample size falls below the threshold
    let (f, t) = cloud::<T>(2);
    let default = T::choose("default threshold", 2) == 1;
    let th = if default { T::ONE } else { T::var("threshold") };
    let mut f = if default {
        let t2 = t.clone();
        match Pf::from_random(2, Vector::zeros(), Matrix::identity(), Matrix::identity(), t2) {
            Ok(f) => f,
            Err(_) => T::abandon(),
        }
    } else {
        f.with_resample_threshold(th)
    };
    let p = f.particles().to_vec();
    let s = T::var("s");
    let mut i = 0;
    let r = f.update_with_log_weights(|_| {
        i += 1;
        if i == 1 { s } else { T::ZERO }
    });
    T::prove("accepted", b(r.is_ok()));
    let e = s.exp();
    let w = [e / (e + T::ONE), T::ONE / (e + T::ONE)];
    let sq = w[0] * w[0] + w[1] * w[1];
    let drawn = !t.take_units().is_empty();
    T::prove("resampled exactly below the threshold", if drawn { lt(T::ONE, th * sq) } else { ge(T::ONE, th * sq) });
    if drawn {
        T::prove("equally likely again", weights_are(&f, &[T::HALF; 2]));
        T::prove("copies of existing particles", and(f.particles().iter().map(|x| or(p.iter().map(|y| veq(x, y.as_slice())).collect())).collect()));
    } else {
        T::prove("reweighted only", same_cloud(&f, &p, &w));
    }
}
// ---------------------------------------------------------------- localizer (floating point runs)
struct Corridor<T>(T);
impl<T: Scal> OccupancyMap<T> for Corridor<T> {
    fn columns(&self) -> usize {
        1
    }
    fn rows(&self) -> usize {
        1
    }
    fn resolution(&self) -> T {
        T::ONE
    }
    fn origin(&self) -> [T; 2] {
        [T::ZERO; 2]
    }
    fn is_occupied(&self, _: usize, _: usize) -> bool {
        false
    }
    fn cast_ray(&self, at: [T; 2], bearing: T, max: T) -> Option<T> {
        // any smooth stand-in for a world: distances depend on place and bearing
        let r = self.0 + at[0] / T::TWO - at[1] / T::i(3) + bearing.cos();
        if r < max && r > T::ZERO { Some(r) } else { None }
    }
}
fn localizer<T: Scal>() {
    let hint = [T::rnd(-2, 2, 8), T::rnd(-2, 2, 8), T::rnd(-3, 3, 8)];
    let n = 3 + T::rndi(20);
    let (pv, hv) = (T::rnd(1, 4, 8) / T::i(8), T::rnd(1, 4, 8) / T::i(8));
    let beam = BeamModel { range_deviation: T::rnd(1, 3, 4) * T::TWO, agreement_reward: T::rnd(0, 1, 4), mismatch_penalty: T::rnd(-1, 0, 8) };
    let Ok(mut m) = MonteCarloLocalizer::<4, T>::new(hint, InitialParticleCloud { particle_count: n, position_variance: pv, heading_variance: hv }, beam, 7 + n as u64) else {
        return T::prove("accepted", b(false));
    };
    T::prove("particle count", b(m.particle_count() == n && m.particles().len() == n));
    // motion with almost no noise: along the heading, then turned
    T::prove("noise accepted", b(m.set_motion_noise([T::q(1, 1_000_000_000) * T::q(1, 1_000_000_000); 3]).is_ok()));
    let before = m.particles().to_vec();
    let (ds, dh) = (T::rnd(-2, 2, 8), T::rnd(-3, 3, 8));
    T::prove("moved", b(m.predict(ds, dh).is_ok()));
    for (a, x) in before.iter().zip(m.particles()) {
        T::prove_close("x along the heading", x[0], a[0] + ds * a[2].cos(), 1e-6);
        T::prove_close("y along the heading", x[1], a[1] + ds * a[2].sin(), 1e-6);
        T::prove_close("turned", (x[2] - a[2] - dh).cos(), T::ONE, 1e-9);
        T::prove("heading wrapped", le(x[2].abs(), T::PI + T::q(1, 100_000_000)));
    }
    let at = m.particles().to_vec();
    let map = Corridor(T::rnd(1, 4, 8));
    let Ok(g) = ScanGeometry::<4, T>::try_new(T::i(3), T::q(7, 2)) else { return T::prove("geometry", b(false)) };
    let mut scan: [T; 4] = std::array::from_fn(|_| T::rnd(1, 5, 8));
    if T::rndi(3) == 0 {
        scan[T::rndi(4)] = [T::NAN, T::INFINITY, T::i(50)][T::rndi(3)];
    }
    T::prove("scored", b(m.update(&scan, &map, &g).is_ok()));
    let odds: Vec<T> = at
        .iter()
        .map(|x| {
            let mut s = T::ZERO;
            for i in 0..4 {
                let off = g.beam_angle(i).unwrap();
                let seen = map.cast_ray([x[0], x[1]], x[2] + off, g.maximum_range());
                s = s + match (seen, g.range_is_valid(scan[i])) {
                    (Some(r), true) => -(r - scan[i]) * (r - scan[i]) / (T::TWO * beam.range_deviation * beam.range_deviation),
                    (None, false) => beam.agreement_reward,
                    _ => beam.mismatch_penalty,
                };
            }
            s.exp()
        })
        .collect();
    let total = sum(&odds);
    let mut w: Vec<T> = odds.iter().map(|o| *o / total).collect();
    let ess = T::ONE / w.iter().fold(T::ZERO, |t, x| t + *x * *x);
    let nn = T::i(n as i64);
    if T::holds(lt(ess, nn / T::TWO)) {
        w = vec![T::ONE / nn; n];
        T::prove_close("equal again after resampling", m.effective_sample_size(), nn, 1e-6);
    } else {
        T::prove_close("effective sample size of the scores", m.effective_sample_size(), ess, 1e-6);
    }
    let p = m.particles();
    let mean = |f: &dyn Fn(&Vector<3, T>) -> T| (0..n).fold(T::ZERO, |t, i| t + w[i] * f(&p[i]));
    let (mx, my) = (mean(&|x| x[0]), mean(&|x| x[1]));
    let (sn, cs) = (mean(&|x| x[2].sin()), mean(&|x| x[2].cos()));
    let (e, s) = m.estimate();
    T::prove_close("mean x", e[0], mx, 1e-8);
    T::prove_close("mean y", e[1], my, 1e-8);
    T::prove_close("mean direction", e[2], sn.atan2(cs), 1e-8);
    let want = Matrix::<3, 3, T>::new([
        [mean(&|x| (x[0] - mx) * (x[0] - mx)), mean(&|x| (x[0] - mx) * (x[1] - my)), T::ZERO],
        [mean(&|x| (x[0] - mx) * (x[1] - my)), mean(&|x| (x[1] - my) * (x[1] - my)), T::ZERO],
        [T::ZERO, T::ZERO, (T::TWO * (T::ONE - (sn * sn + cs * cs).sqrt())).max(T::q(1, 1_000_000))],
    ]);
    mclose("spread", &s, &want);
    let (pl, hl) = (T::rnd(0, 2, 8), T::rnd(0, 2, 8));
    T::prove("converged exactly when both spreads are under their limits", b(m.is_converged(pl, hl) == (T::holds(lt(s[(0, 0)] + s[(1, 1)], pl)) && T::holds(lt(s[(2, 2)], hl)))));
}
fn localizer_refused<T: Scal>() {
    let mk = |n, pv, hv| MonteCarloLocalizer::<2, T>::new([T::ZERO; 3], InitialParticleCloud { particle_count: n, position_variance: pv, heading_variance: hv }, BeamModel::default(), 3).err();
    T::prove("no particles", b(mk(0, T::ONE, T::ONE) == Some(EstimationError::WeightsDegenerate)));
    T::prove("no spread", b(mk(3, T::ZERO, T::ONE) == Some(EstimationError::NotPositiveDefinite) && mk(3, T::ONE, T::rnd(-3, 0, 4)) == Some(EstimationError::NotPositiveDefinite)));
    let d = InitialParticleCloud::<T>::default();
    T::prove("documented starting cloud", and(vec![b(d.particle_count == 2000), eq(d.position_variance, T::from_f64(0.16)), eq(d.heading_variance, T::i(4))]));
    if let Ok(mut m) = MonteCarloLocalizer::<2, T>::new([T::ZERO; 3], InitialParticleCloud { particle_count: 3, position_variance: T::ONE, heading_variance: T::ONE }, BeamModel::default(), 3) {
        T::prove("motion noise must be positive", b(m.set_motion_noise([T::ONE, T::ZERO, T::ONE]) == Err(EstimationError::NotPositiveDefinite)));
        let p = m.particles().to_vec();
        T::prove("non-finite motion reported", b(m.predict(T::NAN, T::ZERO) == Err(EstimationError::NonFinite)));
        let _ = p;
    }
}

fn main() {
    run::main(
        run::Info { id: "C11", assumptions: &["clouds of one to four particles and every draw of the random source; larger clouds are sampled", "the localizer, which owns a concrete generator, is sampled"] },
        vec![
            proof!(scatter, "ParticleFilter::from_random, predict, set_process_noise"),
            proof!(build_refused, "ParticleFilter::from_random, set_process_noise, predict; GaussianLikelihood::new"),
            proof!(reweight, "ParticleFilter::update_with_log_weights, weights, effective_sample_size, mean, maximum_a_posteriori_state"),
            proof!(reweight_3, "ParticleFilter::update_with_log_weights, weights, effective_sample_size, mean, maximum_a_posteriori_state"),
            proof!(gaussian, "GaussianLikelihood, ParticleFilter::update"),
            proof!(reweight_refused, "ParticleFilter::update_with_log_weights"),
            sampled!(extreme, 300, "ParticleFilter::update_with_log_weights"),
            proof!(systematic, "ResamplingScheme::resample_indices"),
            proof!(systematic_4, "ResamplingScheme::resample_indices"),
            proof!(stratified, "ResamplingScheme::resample_indices"),
            proof!(multinomial, "ResamplingScheme::resample_indices"),
            proof!(residual, "ResamplingScheme::resample_indices"),
            proof!(empty_draw, "ResamplingScheme::resample_indices"),
            sampled!(many, 600, "ResamplingScheme::resample_indices"),
            proof!(short_total, "ResamplingScheme::resample_indices"),
            proof!(resample, "ParticleFilter::resample, with_roughening"),
            proof!(triggered, "ParticleFilter::update_with_log_weights, with_resample_threshold"),
            sampled!(localizer, 200, "MonteCarloLocalizer"),
            sampled!(localizer_refused, 10, "MonteCarloLocalizer"),
        ],
    );
}
