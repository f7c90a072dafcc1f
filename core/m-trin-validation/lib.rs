#![allow(dead_code, unused)]
//! The module of /repo/crates/validation that builds without the git dependencies, at its own path.
pub mod merkle {
    #[path = "/repo/crates/validation/src/merkle/safe_arith.rs"]
    pub mod safe_arith;
}
