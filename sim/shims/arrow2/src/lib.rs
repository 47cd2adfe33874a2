//! Stand-in for the private arrow2 fork: the subset of the API the storage crate uses, backed by
//! plain vectors, plus a small page-based columnar file format in place of Parquet.  The code under
//! test (merge order, page and row-group handling, null columns, statistics pruning) runs on top of
//! it unchanged; the byte encoding of pages is the stub.
#![allow(clippy::all)]
pub mod array;
pub mod bitmap;
pub mod chunk;
pub mod compute;
pub mod datatypes;
pub mod error;
pub mod ffi;
pub mod io;
pub mod offset;
pub mod pq;
pub mod types;
