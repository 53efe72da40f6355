//! Deterministic simulation kit: seeded randomness, a cooperative scheduler that preempts
//! real threads at allocation points, interposed clock / entropy / futex seams, a
//! process-per-run harness with minimisation and replay, and evidence accounting.
pub mod ctx;
pub mod harness;
pub mod net;
pub mod rng;
pub mod sched;
pub mod seams;
pub mod shrink;

pub use ctx::Ctx;
pub use harness::{main_with, Info, Property};
pub use rng::Rng;
