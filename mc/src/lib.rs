//! Stateless model checker for binread: see /verif/DESIGN.md.
#![allow(warnings)]
extern crate self as mc;
pub mod schema;
pub mod universes;
pub mod render;
pub mod val;
pub mod sess;
pub mod refi;
pub mod explore;
pub mod alloc_cap;
pub mod report;
pub mod extra;
pub mod large;

pub use explore::{Entry, Ran};
pub use sess::McReader;
pub use val::{enter, enter_args, io_err, probe_fn, pw_add, pw_fail_after, pw_gen, pw_u16, tick, vs, PErr, Probe0, Probe1, Probe2, ToV, V};
