//! Property-based testing machinery for the `chf` crate.
#![allow(clippy::all)]

pub mod engines;
pub mod props;
pub mod refimpl;
pub mod runner;
pub mod shrink;
pub mod src;
pub mod types;
#[cfg(not(any(miri, hashes_fuzz)))]
pub mod trace;
