//! C28, bit-precise part: contracts of `random.rs` discharged by Kani for every seed, stream and word.
#![cfg(kani)]
use multicalc::random::{Pcg32, RandomSource};

const M: u64 = 6364136223846793005;
fn turn(stream: u64) -> u64 {
    (stream << 1) | 1
}
/// the state the PCG paper's seeding leaves
fn seeded(seed: u64, stream: u64) -> u64 {
    turn(stream).wrapping_add(seed).wrapping_mul(M).wrapping_add(turn(stream))
}
/// XSH-RR, as published
fn word(s: u64) -> u32 {
    let x = (((s >> 18) ^ s) >> 27) as u32;
    let r = (s >> 59) as u32;
    (x >> r) | (x << ((32 - r) & 31))
}
/// every seed and stream: the word published for that state
#[kani::proof]
#[kani::solver(z3)]
fn words() {
    let (seed, stream): (u64, u64) = (kani::any(), kani::any());
    let mut g = Pcg32::<f64>::with_stream(seed, stream);
    let got = RandomSource::<f64>::next_u32(&mut g);
    assert!(got == word(seeded(seed, stream)));
}
/// after a word the generator is the one whose seeding leaves the next state, so the law above
/// holds for every later word
#[kani::proof]
#[kani::solver(z3)]
fn next_state() {
    let (seed, stream): (u64, u64) = (kani::any(), kani::any());
    let mut g = Pcg32::<f64>::with_stream(seed, stream);
    let _ = RandomSource::<f64>::next_u32(&mut g);
    assert!(g == Pcg32::with_stream(turn(stream).wrapping_add(seed).wrapping_mul(M), stream));
}
/// a new generator is the one on the default stream
#[kani::proof]
#[kani::solver(z3)]
fn default_stream() {
    let seed: u64 = kani::any();
    assert!(Pcg32::<f64>::new(seed) == Pcg32::with_stream(seed, 0xda3e_39cb_94b9_5bdb));
}
struct Two(u32, u32, u8);
macro_rules! two {
    ($t:ty) => {
        impl RandomSource<$t> for Two {
            fn next_u32(&mut self) -> u32 {
                self.2 += 1;
                if self.2 == 1 { self.0 } else { self.1 }
            }
            fn get_cache(&mut self) -> Option<$t> {
                None
            }
            fn set_cache(&mut self, _: $t) {}
        }
    };
}
two!(f64);
two!(f32);
/// high word first
#[kani::proof]
#[kani::solver(z3)]
fn wide() {
    let (hi, lo): (u32, u32) = (kani::any(), kani::any());
    let mut s = Two(hi, lo, 0);
    let w = RandomSource::<f64>::next_u64(&mut s);
    assert!(w >> 32 == hi as u64 && w as u32 == lo && s.2 == 2);
}
/// the top 53 bits, exactly, and never one
#[kani::proof]
#[kani::solver(z3)]
fn unit64() {
    let (hi, lo): (u32, u32) = (kani::any(), kani::any());
    let mut s = Two(hi, lo, 0);
    let u: f64 = RandomSource::<f64>::next_unit(&mut s);
    assert!(u >= 0.0 && u < 1.0 && s.2 == 2);
    let top = ((hi as u64) << 21) | (lo >> 11) as u64;
    assert!(u * 9007199254740992.0 == top as f64);
}
/// the top 24 bits of one word, exactly, and never one
#[kani::proof]
#[kani::solver(z3)]
fn unit32() {
    let hi: u32 = kani::any();
    let mut s = Two(hi, 0, 0);
    let u: f32 = RandomSource::<f32>::next_unit(&mut s);
    assert!(u >= 0.0 && u < 1.0 && s.2 == 1);
    assert!(u * 16777216.0 == (hi >> 8) as f32);
}
