//! The parts of the `alloy` facade that the repository uses.
pub mod primitives {
    pub use alloy_primitives::*;
}
pub mod rlp {
    pub use alloy_rlp::*;
}
pub mod hex {
    pub use alloy_primitives::hex::*;
}
pub use alloy_primitives::hex as _hex;

pub mod consensus;
pub mod eips;
pub mod trie;
pub mod rpc {
    pub mod types {
        pub use crate::rpc_types::*;
    }
}
#[path = "rpc_types.rs"]
mod rpc_types;
pub mod transports {
    pub mod http {
        pub mod reqwest {
            pub use url::Url;
        }
    }
}
