pub use alloy::rpc::types::*;
