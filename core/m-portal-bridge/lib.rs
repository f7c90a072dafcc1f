#![allow(dead_code, unused)]
//! The modules of /repo/bin/portal-bridge that build without the git dependencies, at their own paths.
pub mod types {
    #[path = "/repo/bin/portal-bridge/src/types/mode.rs"]
    pub mod mode;
    #[path = "/repo/bin/portal-bridge/src/types/range.rs"]
    pub mod range;
}
