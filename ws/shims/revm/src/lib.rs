//! A small machine behind the parts of the `revm` interface that the repository uses.  It knows
//! accounts, fees, forks and the layered state of `revm`, but instead of bytecode it runs a short
//! list of operations taken from the call data; see [`ops`].
pub mod database;
mod machine;
pub mod state;

pub use database::{Database, DatabaseCommit, DatabaseRef};
pub use machine::{ops, Context, ExecuteEvm, InspectEvm, MainBuilder, MainnetEvm};

pub use revm_primitives as primitives;

pub mod handler {
    pub use crate::machine::{Context, MainBuilder, MainnetEvm};
    pub type MainnetContext<DB> = Context<DB>;
}
pub mod inspector {
    pub use crate::machine::InspectEvm;
    pub mod inspectors {
        pub use crate::machine::TracerEip3155;
    }
}
pub mod context_interface {
    pub mod block {
        /// What blobs cost in a block.
        #[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
        pub struct BlobExcessGasAndPrice {
            pub excess_blob_gas: u64,
            pub blob_gasprice: u128,
        }
        impl BlobExcessGasAndPrice {
            pub fn new(excess_blob_gas: u64, is_prague: bool) -> Self {
                let d: u128 = if is_prague { 5_007_716 } else { 3_338_477 };
                Self { excess_blob_gas, blob_gasprice: fake_exponential(1, excess_blob_gas as u128, d) }
            }
        }
        fn fake_exponential(factor: u128, numerator: u128, denominator: u128) -> u128 {
            let (mut i, mut output, mut acc) = (1, 0u128, factor * denominator);
            while acc > 0 {
                output += acc;
                acc = acc * numerator / (denominator * i);
                i += 1;
            }
            output / denominator
        }
    }
}
pub mod context {
    use alloy::eips::{eip2930::AccessList, eip7702::SignedAuthorization};
    use revm_primitives::{hardfork::SpecId, Address, Bytes, TxKind, B256, U256};

    pub use crate::{
        context_interface::block::BlobExcessGasAndPrice,
        machine::{Context, ContextTr},
    };
    pub type TransactTo = TxKind;
    pub trait DBErrorMarker {}
    impl DBErrorMarker for std::convert::Infallible {}
    #[derive(Clone, Debug, PartialEq, Eq)]
    pub struct BlockEnv {
        pub number: u64,
        pub beneficiary: Address,
        pub timestamp: u64,
        pub gas_limit: u64,
        pub basefee: u64,
        pub difficulty: U256,
        pub prevrandao: Option<B256>,
        pub blob_excess_gas_and_price: Option<BlobExcessGasAndPrice>,
    }
    impl Default for BlockEnv {
        fn default() -> Self {
            Self {
                number: 0,
                beneficiary: Address::ZERO,
                timestamp: 1,
                gas_limit: u64::MAX,
                basefee: 0,
                difficulty: U256::ZERO,
                prevrandao: Some(B256::ZERO),
                blob_excess_gas_and_price: Some(BlobExcessGasAndPrice::new(0, false)),
            }
        }
    }
    #[derive(Clone, Debug, PartialEq, Eq)]
    pub struct TxEnv {
        pub tx_type: u8,
        pub caller: Address,
        pub gas_limit: u64,
        pub gas_price: u128,
        pub kind: TxKind,
        pub value: U256,
        pub data: Bytes,
        pub nonce: u64,
        pub chain_id: Option<u64>,
        pub access_list: AccessList,
        pub gas_priority_fee: Option<u128>,
        pub blob_hashes: Vec<B256>,
        pub max_fee_per_blob_gas: u128,
        pub authorization_list: Vec<SignedAuthorization>,
    }
    impl Default for TxEnv {
        fn default() -> Self {
            Self {
                tx_type: 0,
                caller: Address::ZERO,
                gas_limit: 30_000_000,
                gas_price: 0,
                kind: TxKind::Call(Address::ZERO),
                value: U256::ZERO,
                data: Bytes::new(),
                nonce: 0,
                chain_id: Some(1),
                access_list: Default::default(),
                gas_priority_fee: None,
                blob_hashes: vec![],
                max_fee_per_blob_gas: 0,
                authorization_list: vec![],
            }
        }
    }
    #[derive(Clone, Debug, PartialEq, Eq)]
    pub struct CfgEnv {
        pub chain_id: u64,
        pub spec: SpecId,
        pub disable_nonce_check: bool,
    }
    pub mod result {
        use std::fmt;

        use revm_primitives::{Address, Bytes};

        use crate::state::EvmState;
        #[derive(Clone, Debug, PartialEq, Eq)]
        pub enum Output {
            Call(Bytes),
            Create(Bytes, Option<Address>),
        }
        impl Output {
            pub fn into_data(self) -> Bytes {
                match self {
                    Output::Call(b) | Output::Create(b, _) => b,
                }
            }
        }
        #[derive(Clone, Debug, PartialEq, Eq)]
        pub enum SuccessReason {
            Stop,
            Return,
            SelfDestruct,
        }
        #[derive(Clone, Debug, PartialEq, Eq)]
        pub enum HaltReason {
            OutOfGas,
            OpcodeNotFound,
        }
        #[derive(Clone, Debug, PartialEq, Eq)]
        pub enum ExecutionResult {
            Success { reason: SuccessReason, gas_used: u64, gas_refunded: u64, output: Output },
            Revert { gas_used: u64, output: Bytes },
            Halt { reason: HaltReason, gas_used: u64 },
        }
        impl ExecutionResult {
            pub fn gas_used(&self) -> u64 {
                match self {
                    Self::Success { gas_used, .. } | Self::Revert { gas_used, .. } | Self::Halt { gas_used, .. } => *gas_used,
                }
            }
            pub fn is_success(&self) -> bool {
                matches!(self, Self::Success { .. })
            }
        }
        #[derive(Clone, Debug, PartialEq, Eq)]
        pub struct ResultAndState {
            pub result: ExecutionResult,
            pub state: EvmState,
        }
        #[derive(Clone, Debug, PartialEq, Eq)]
        pub enum EVMError<E> {
            Transaction(String),
            Header(String),
            Database(E),
            Custom(String),
        }
        impl<E: fmt::Display> fmt::Display for EVMError<E> {
            fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
                match self {
                    Self::Transaction(e) => write!(f, "transaction validation error: {e}"),
                    Self::Header(e) => write!(f, "header validation error: {e}"),
                    Self::Database(e) => write!(f, "database error: {e}"),
                    Self::Custom(e) => f.write_str(e),
                }
            }
        }
        impl<E: fmt::Debug + fmt::Display> std::error::Error for EVMError<E> {}
    }
}
