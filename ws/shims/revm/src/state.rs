use std::collections::HashMap;

use revm_primitives::{keccak256, Address, Bytes, B256, KECCAK_EMPTY, U256};

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Bytecode(Bytes);
impl Default for Bytecode {
    fn default() -> Self {
        Self::new()
    }
}
impl Bytecode {
    /// Code of nothing is stored as a single stop.
    pub fn new() -> Self {
        Self(Bytes::from_static(&[0]))
    }
    pub fn new_raw(b: Bytes) -> Self {
        Self(b)
    }
    pub fn new_legacy(b: Bytes) -> Self {
        Self(b)
    }
    pub fn bytes(&self) -> Bytes {
        self.0.clone()
    }
    pub fn bytes_ref(&self) -> &Bytes {
        &self.0
    }
    pub fn bytes_slice(&self) -> &[u8] {
        &self.0
    }
    pub fn original_bytes(&self) -> Bytes {
        self.0.clone()
    }
    pub fn original_byte_slice(&self) -> &[u8] {
        &self.0
    }
    pub fn len(&self) -> usize {
        self.0.len()
    }
    pub fn is_empty(&self) -> bool {
        self.0.is_empty()
    }
    pub fn hash_slow(&self) -> B256 {
        if self.0.is_empty() {
            KECCAK_EMPTY
        } else {
            keccak256(&self.0)
        }
    }
}
#[derive(Clone, Debug, Eq)]
pub struct AccountInfo {
    pub balance: U256,
    pub nonce: u64,
    pub code_hash: B256,
    pub code: Option<Bytecode>,
}
impl PartialEq for AccountInfo {
    fn eq(&self, o: &Self) -> bool {
        self.balance == o.balance && self.nonce == o.nonce && self.code_hash == o.code_hash
    }
}
impl Default for AccountInfo {
    fn default() -> Self {
        Self { balance: U256::ZERO, nonce: 0, code_hash: KECCAK_EMPTY, code: Some(Bytecode::default()) }
    }
}
impl AccountInfo {
    pub fn new(balance: U256, nonce: u64, code_hash: B256, code: Bytecode) -> Self {
        Self { balance, nonce, code_hash, code: Some(code) }
    }
    pub fn from_balance(balance: U256) -> Self {
        Self { balance, ..Default::default() }
    }
    pub fn without_code(mut self) -> Self {
        self.code = None;
        self
    }
    pub fn is_empty(&self) -> bool {
        self.is_empty_code_hash() && self.balance.is_zero() && self.nonce == 0
    }
    pub fn is_empty_code_hash(&self) -> bool {
        self.code_hash == KECCAK_EMPTY || self.code_hash.is_zero()
    }
    pub fn code_hash(&self) -> B256 {
        self.code_hash
    }
}
#[derive(Clone, Debug, Default, PartialEq, Eq)]
pub struct EvmStorageSlot {
    pub original_value: U256,
    pub present_value: U256,
}
impl EvmStorageSlot {
    pub fn is_changed(&self) -> bool {
        self.original_value != self.present_value
    }
}
#[derive(Clone, Debug, Default, PartialEq, Eq)]
pub struct Account {
    pub info: AccountInfo,
    pub storage: HashMap<U256, EvmStorageSlot>,
    pub touched: bool,
    pub created: bool,
    pub selfdestructed: bool,
    pub loaded_as_not_existing: bool,
}
impl Account {
    pub fn is_touched(&self) -> bool {
        self.touched
    }
    pub fn is_selfdestructed(&self) -> bool {
        self.selfdestructed
    }
    pub fn is_created(&self) -> bool {
        self.created
    }
    pub fn is_empty(&self) -> bool {
        self.info.is_empty()
    }
}
pub type EvmState = HashMap<Address, Account>;
