//! Deterministic simulation runtime.
//!
//! One `World` is one simulated execution of the program under test: real OS threads, parked and
//! released one at a time by a seeded scheduler, a virtual clock, an in-memory file system with a
//! crash model, and a fault plan.  A run is a pure function of (code, workload, `Cfg`).

pub mod fs;
pub mod interpose;
pub mod lock;
pub mod rng;
pub mod world;

pub use rng::Rng;
pub use world::*;
