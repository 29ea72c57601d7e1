//! Deterministic simulator runtime.
//!
//! Real OS threads, exactly one of which runs at any time (the holder of the baton). Every
//! memory access and atomic operation of the instrumented crates, every futex wait/wake,
//! thread creation/join, yield, sleep, file open/read and entropy request of code running in a
//! simulated task comes through this crate, and one seeded decision source picks every
//! interleaving and every fault. A run is a pure function of (code, scenario, decisions).
#![allow(invalid_runtime_symbol_definitions, suspicious_runtime_symbol_definitions)]
pub mod heap;
pub mod interpose;
pub mod sched;
pub mod tsan;
pub use sched::*;
