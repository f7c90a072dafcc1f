#![allow(dead_code, unused)]
//! The module of /repo/crates/metrics that builds without the git dependencies, at its own path.
#[path = "/repo/crates/metrics/src/timer.rs"]
pub mod timer;
