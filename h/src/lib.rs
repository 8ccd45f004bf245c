//! Shared parts of the harnesses: interface to the executor, generators, independent reference semantics.
#[path = "../../rt/rt.rs"]
#[macro_use]
pub mod rt;
pub mod common;
