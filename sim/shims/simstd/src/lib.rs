//! Stands in for `std` in the members under simulation: everything is the real standard library
//! except threads, locks, channels, sleeping and the file system, which go through the simulator
//! when the calling thread is a simulated one (and to the real thing otherwise).
pub use ::std::*;

pub mod fs;
pub mod os;
pub mod sync;
pub mod thread;
