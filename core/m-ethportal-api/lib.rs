#![allow(dead_code, unused)]
//! The modules of /repo/crates/ethportal-api that build without the git dependencies, at their own paths.
pub mod types {
    #[path = "/repo/crates/ethportal-api/src/types/client_type.rs"]
    pub mod client_type;
    pub mod consensus {
        #[path = "/repo/crates/ethportal-api/src/types/consensus/constants.rs"]
        pub mod constants;
        #[path = "/repo/crates/ethportal-api/src/types/consensus/fork.rs"]
        pub mod fork;
    }
    pub mod jsonrpc {
        #[path = "/repo/crates/ethportal-api/src/types/jsonrpc/params.rs"]
        pub mod params;
    }
}
pub mod utils {
    #[path = "/repo/crates/ethportal-api/src/utils/bytes.rs"]
    pub mod bytes;
}

pub use types::consensus;
