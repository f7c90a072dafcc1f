use alloy_primitives::{Address, Bytes, TxKind, B256, U256};
use serde::{Deserialize, Serialize};

pub use crate::{
    consensus::{Receipt, ReceiptEnvelope, ReceiptWithBloom, Transaction as TransactionTrait},
    eips::{
        eip2930::AccessList,
        eip4895::{Withdrawal, Withdrawals},
        BlockId, BlockNumberOrTag,
    },
};

#[derive(Clone, Debug, Default, PartialEq, Eq, Serialize, Deserialize)]
pub struct TransactionInput {
    pub input: Option<Bytes>,
    pub data: Option<Bytes>,
}
impl TransactionInput {
    pub const fn new(data: Bytes) -> Self {
        Self { input: Some(data), data: None }
    }
    pub fn input(&self) -> Option<&Bytes> {
        self.input.as_ref().or(self.data.as_ref())
    }
}
impl From<Bytes> for TransactionInput {
    fn from(b: Bytes) -> Self {
        Self::new(b)
    }
}
#[derive(Clone, Debug, Default, PartialEq, Eq, Serialize, Deserialize)]
#[serde(rename_all = "camelCase")]
pub struct TransactionRequest {
    pub from: Option<Address>,
    pub to: Option<TxKind>,
    #[serde(default, with = "crate::consensus::quantity::opt")]
    pub gas_price: Option<u128>,
    #[serde(default, with = "crate::consensus::quantity::opt")]
    pub max_fee_per_gas: Option<u128>,
    #[serde(default, with = "crate::consensus::quantity::opt")]
    pub max_priority_fee_per_gas: Option<u128>,
    #[serde(default, with = "crate::consensus::quantity::opt")]
    pub max_fee_per_blob_gas: Option<u128>,
    #[serde(default, with = "crate::consensus::quantity::opt")]
    pub gas: Option<u64>,
    pub value: Option<U256>,
    #[serde(default, flatten)]
    pub input: TransactionInput,
    #[serde(default, with = "crate::consensus::quantity::opt")]
    pub nonce: Option<u64>,
    #[serde(default, with = "crate::consensus::quantity::opt")]
    pub chain_id: Option<u64>,
    pub access_list: Option<AccessList>,
    #[serde(default, rename = "type", with = "crate::consensus::quantity::opt")]
    pub transaction_type: Option<u8>,
    pub blob_versioned_hashes: Option<Vec<B256>>,
}
#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
#[serde(untagged)]
pub enum BlockTransactions {
    Hashes(Vec<B256>),
    Full(Vec<Transaction>),
    Uncle,
}
impl BlockTransactions {
    pub fn into_transactions(self) -> std::vec::IntoIter<Transaction> {
        match self {
            Self::Full(t) => t,
            _ => vec![],
        }
        .into_iter()
    }
    pub fn as_transactions(&self) -> Option<&[Transaction]> {
        match self {
            Self::Full(t) => Some(t),
            _ => None,
        }
    }
}
/// A transaction of a block, written as its bytes.
#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
#[serde(transparent)]
pub struct Transaction(crate::consensus::TxEnvelope);
impl Transaction {
    pub fn new(t: crate::consensus::TxEnvelope) -> Self {
        Self(t)
    }
    pub fn into_inner(self) -> crate::consensus::TxEnvelope {
        self.0
    }
}
impl Default for BlockTransactions {
    fn default() -> Self {
        Self::Hashes(vec![])
    }
}
#[derive(Clone, Debug, Default, PartialEq, Eq, Serialize, Deserialize)]
#[serde(rename_all = "camelCase")]
pub struct Header {
    pub hash: B256,
    #[serde(flatten)]
    pub inner: crate::consensus::Header,
    pub total_difficulty: Option<U256>,
    pub size: Option<U256>,
}
impl std::ops::Deref for Header {
    type Target = crate::consensus::Header;
    fn deref(&self) -> &Self::Target {
        &self.inner
    }
}
impl Header {
    pub fn into_consensus(self) -> crate::consensus::Header {
        self.inner
    }
    pub fn new(inner: crate::consensus::Header) -> Self {
        Self { hash: inner.hash_slow(), inner, total_difficulty: None, size: None }
    }
    pub const fn with_size(mut self, size: Option<U256>) -> Self {
        self.size = size;
        self
    }
    pub const fn with_total_difficulty(mut self, d: Option<U256>) -> Self {
        self.total_difficulty = d;
        self
    }
}
#[derive(Clone, Debug, Default, PartialEq, Eq, Serialize, Deserialize)]
#[serde(rename_all = "camelCase")]
pub struct Block {
    #[serde(flatten)]
    pub header: Header,
    pub uncles: Vec<B256>,
    #[serde(default)]
    pub transactions: BlockTransactions,
    pub withdrawals: Option<Withdrawals>,
}
#[derive(Clone, Debug, Default, PartialEq, Eq, Serialize, Deserialize)]
pub struct Filter;
#[derive(Clone, Debug, Default, PartialEq, Eq, Serialize, Deserialize)]
pub struct Log;
#[derive(Clone, Debug, Default, PartialEq, Eq, Serialize, Deserialize)]
pub struct SyncStatus;
/// What a beacon node announces.
pub mod beacon {
    pub mod events {
        use alloy_primitives::B256;
        use serde::{Deserialize, Serialize};

        use crate::consensus::quantity;

        #[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
        pub enum BeaconNodeEventTopic {
            PayloadAttributes,
            Head,
            Block,
            Attestation,
            VoluntaryExit,
            BlsToExecutionChange,
            FinalizedCheckpoint,
            ChainReorg,
            ContributionAndProof,
            LightClientFinalityUpdate,
            LightClientOptimisticUpdate,
            BlobSidecar,
        }
        impl BeaconNodeEventTopic {
            pub fn query_value(&self) -> &'static str {
                match self {
                    Self::PayloadAttributes => "payload_attributes",
                    Self::Head => "head",
                    Self::Block => "block",
                    Self::Attestation => "attestation",
                    Self::VoluntaryExit => "voluntary_exit",
                    Self::BlsToExecutionChange => "bls_to_execution_change",
                    Self::FinalizedCheckpoint => "finalized_checkpoint",
                    Self::ChainReorg => "chain_reorg",
                    Self::ContributionAndProof => "contribution_and_proof",
                    Self::LightClientFinalityUpdate => "light_client_finality_update",
                    Self::LightClientOptimisticUpdate => "light_client_optimistic_update",
                    Self::BlobSidecar => "blob_sidecar",
                }
            }
        }
        mod dec {
            use serde::{Deserialize, Deserializer, Serializer};
            pub fn serialize<S: Serializer>(n: &u64, s: S) -> Result<S::Ok, S::Error> {
                s.serialize_str(&n.to_string())
            }
            pub fn deserialize<'de, D: Deserializer<'de>>(d: D) -> Result<u64, D::Error> {
                super::quantity::parse(serde_json::Value::deserialize(d)?)
            }
        }
        #[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
        pub struct HeadEvent {
            #[serde(with = "dec")]
            pub slot: u64,
            pub block: B256,
            pub state: B256,
            pub epoch_transition: bool,
            pub previous_duty_dependent_root: B256,
            pub current_duty_dependent_root: B256,
            pub execution_optimistic: bool,
        }
        #[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
        pub struct ChainReorgEvent {
            #[serde(with = "dec")]
            pub slot: u64,
            #[serde(with = "dec")]
            pub depth: u64,
            pub old_head_block: B256,
            pub new_head_block: B256,
            pub old_head_state: B256,
            pub new_head_state: B256,
            #[serde(with = "dec")]
            pub epoch: u64,
            pub execution_optimistic: bool,
        }
        #[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
        pub struct FinalizedCheckpointEvent {
            pub block: B256,
            pub state: B256,
            #[serde(with = "dec")]
            pub epoch: u64,
            pub execution_optimistic: bool,
        }
        #[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
        pub struct BeaconBlockHeader {
            #[serde(with = "dec")]
            pub slot: u64,
            #[serde(with = "dec")]
            pub proposer_index: u64,
            pub parent_root: B256,
            pub state_root: B256,
            pub body_root: B256,
        }
        #[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
        pub struct AttestedHeader {
            pub beacon: BeaconBlockHeader,
        }
        #[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
        pub struct LightClientOptimisticUpdateData {
            pub attested_header: AttestedHeader,
            #[serde(with = "dec")]
            pub signature_slot: u64,
        }
        #[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
        pub struct LightClientOptimisticUpdateEvent {
            pub version: String,
            pub data: LightClientOptimisticUpdateData,
        }
    }
}
/// Nothing answers these calls.
pub mod engine {
    use serde::{Deserialize, Serialize};
    macro_rules! empty {
        ($($n:ident)*) => {$(
            #[derive(Clone, Debug, Default, PartialEq, Eq, Serialize, Deserialize)]
            pub struct $n;
        )*};
    }
    empty!(ExecutionPayloadBodiesV1 ExecutionPayloadInputV2 ExecutionPayloadV1 ExecutionPayloadV2
        ExecutionPayloadV3 ForkchoiceState ForkchoiceUpdated PayloadAttributes PayloadId
        PayloadStatus TransitionConfiguration);
}
