//! Verification-condition generator for code that is generic over `multicalc::Numeric`.
pub mod cx;
pub mod poly;
pub mod q;
pub mod run;
pub mod smt;
pub mod state;
pub mod sym;
pub use cx::*;
pub use run::*;
pub use sym::Sym;
