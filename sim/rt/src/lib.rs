//! Simulator run time. Compiled WITHOUT instrumentation.
#![allow(static_mut_refs)]
pub mod alloc;
pub mod hist;
pub mod interpose;
pub mod ledger;
pub mod race;
pub mod rng;
pub mod scn;
pub mod sched;
pub mod tsan;
