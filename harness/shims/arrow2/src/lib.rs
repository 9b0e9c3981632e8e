//! Stand-in for `arrow2`: the arrays, kernels and parquet entry points optiprism uses, with the same
//! signatures and observable behaviour, implemented simply.
pub mod array;
pub mod bitmap;
pub mod chunk;
pub mod compute;
pub mod datatypes;
pub mod error;
pub mod ffi;
pub mod io;
pub mod offset;
pub mod types;
pub mod convert {}
