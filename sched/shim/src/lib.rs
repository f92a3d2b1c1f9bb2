//! The standard library with its synchronisation replaced by one under a controlled scheduler.
//! /repo/binread is compiled with this crate in the place of `std`.
#![no_std]
extern crate std as real;
pub use real::*;
pub mod sched;
pub mod sync;
