//! Stand-in for the private parquet2 fork; see the arrow2 shim.
pub use arrow2::pq::*;
