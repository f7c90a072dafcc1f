use alloy_primitives::{
    keccak256, Address, Bloom, Bytes, ChainId, Log, Signature, TxKind, B256, B64, U256,
};
use alloy_rlp::{BufMut, Decodable, Encodable, Header as RlpHeader};
use serde::{Deserialize, Deserializer, Serialize, Serializer};

use crate::eips::{
    eip2718::{Eip2718Error, Eip2718Result},
    eip2930::AccessList,
    eip4895::Withdrawals,
    eip7702::SignedAuthorization,
    Decodable2718, Encodable2718,
};
pub use crate::trie::EMPTY_ROOT_HASH;

pub mod constants {
    use alloy_primitives::{b256, B256};

    pub use crate::trie::{EMPTY_ROOT_HASH, KECCAK_EMPTY};
    pub const EMPTY_OMMER_ROOT_HASH: B256 =
        b256!("1dcc4de8dec75d7aab85b567b6ccd41ad312451b948a7413f0a142fd40d49347");
    pub const EMPTY_RECEIPTS: B256 = EMPTY_ROOT_HASH;
    pub const EMPTY_TRANSACTIONS: B256 = EMPTY_ROOT_HASH;
    pub const EMPTY_WITHDRAWALS: B256 = EMPTY_ROOT_HASH;
    pub const ETH_TO_WEI: u128 = 1_000_000_000_000_000_000;
    pub const GWEI_TO_WEI: u64 = 1_000_000_000;
}
pub use constants::EMPTY_OMMER_ROOT_HASH;

/// Hex quantities, as used in JSON-RPC.
pub mod quantity {
    use super::*;
    pub trait Q: Sized {
        fn to_u128(&self) -> u128;
        fn from_u128(v: u128) -> Option<Self>;
    }
    impl Q for u64 {
        fn to_u128(&self) -> u128 {
            *self as u128
        }
        fn from_u128(v: u128) -> Option<Self> {
            v.try_into().ok()
        }
    }
    impl Q for u8 {
        fn to_u128(&self) -> u128 {
            *self as u128
        }
        fn from_u128(v: u128) -> Option<Self> {
            v.try_into().ok()
        }
    }
    impl Q for u128 {
        fn to_u128(&self) -> u128 {
            *self
        }
        fn from_u128(v: u128) -> Option<Self> {
            Some(v)
        }
    }
    pub fn serialize<T: Q, S: Serializer>(v: &T, s: S) -> Result<S::Ok, S::Error> {
        s.serialize_str(&format!("0x{:x}", v.to_u128()))
    }
    pub fn parse<T: Q, E: serde::de::Error>(v: serde_json::Value) -> Result<T, E> {
        let n = match v {
            serde_json::Value::String(s) => match s.strip_prefix("0x") {
                Some(h) => u128::from_str_radix(if h.is_empty() { "0" } else { h }, 16)
                    .map_err(serde::de::Error::custom)?,
                None => s.parse().map_err(serde::de::Error::custom)?,
            },
            serde_json::Value::Number(n) => n
                .as_u64()
                .ok_or_else(|| serde::de::Error::custom("bad number"))? as u128,
            _ => return Err(serde::de::Error::custom("bad quantity")),
        };
        T::from_u128(n).ok_or_else(|| serde::de::Error::custom("quantity out of range"))
    }
    pub fn deserialize<'de, T: Q, D: Deserializer<'de>>(d: D) -> Result<T, D::Error> {
        parse(serde_json::Value::deserialize(d)?)
    }
    pub mod opt {
        use super::*;
        pub fn serialize<T: Q, S: Serializer>(v: &Option<T>, s: S) -> Result<S::Ok, S::Error> {
            match v {
                Some(v) => super::serialize(v, s),
                None => s.serialize_none(),
            }
        }
        pub fn deserialize<'de, T: Q, D: Deserializer<'de>>(d: D) -> Result<Option<T>, D::Error> {
            match Option::<serde_json::Value>::deserialize(d)? {
                None => Ok(None),
                Some(v) => super::parse(v).map(Some),
            }
        }
    }
}

#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
#[serde(rename_all = "camelCase")]
pub struct Header {
    pub parent_hash: B256,
    #[serde(rename = "sha3Uncles")]
    pub ommers_hash: B256,
    #[serde(rename = "miner")]
    pub beneficiary: Address,
    pub state_root: B256,
    pub transactions_root: B256,
    pub receipts_root: B256,
    pub logs_bloom: Bloom,
    pub difficulty: U256,
    #[serde(with = "quantity")]
    pub number: u64,
    #[serde(with = "quantity")]
    pub gas_limit: u64,
    #[serde(with = "quantity")]
    pub gas_used: u64,
    #[serde(with = "quantity")]
    pub timestamp: u64,
    pub extra_data: Bytes,
    pub mix_hash: B256,
    pub nonce: B64,
    #[serde(default, with = "quantity::opt", skip_serializing_if = "Option::is_none")]
    pub base_fee_per_gas: Option<u64>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub withdrawals_root: Option<B256>,
    #[serde(default, with = "quantity::opt", skip_serializing_if = "Option::is_none")]
    pub blob_gas_used: Option<u64>,
    #[serde(default, with = "quantity::opt", skip_serializing_if = "Option::is_none")]
    pub excess_blob_gas: Option<u64>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub parent_beacon_block_root: Option<B256>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub requests_hash: Option<B256>,
}
impl Default for Header {
    fn default() -> Self {
        Self {
            parent_hash: Default::default(),
            ommers_hash: EMPTY_OMMER_ROOT_HASH,
            beneficiary: Default::default(),
            state_root: EMPTY_ROOT_HASH,
            transactions_root: EMPTY_ROOT_HASH,
            receipts_root: EMPTY_ROOT_HASH,
            logs_bloom: Default::default(),
            difficulty: Default::default(),
            number: 0,
            gas_limit: 0,
            gas_used: 0,
            timestamp: 0,
            extra_data: Default::default(),
            mix_hash: Default::default(),
            nonce: B64::ZERO,
            base_fee_per_gas: None,
            withdrawals_root: None,
            blob_gas_used: None,
            excess_blob_gas: None,
            parent_beacon_block_root: None,
            requests_hash: None,
        }
    }
}
impl Header {
    pub fn hash_slow(&self) -> B256 {
        keccak256(alloy_rlp::encode(self))
    }
    fn fields(&self, out: &mut dyn BufMut) {
        self.parent_hash.encode(out);
        self.ommers_hash.encode(out);
        self.beneficiary.encode(out);
        self.state_root.encode(out);
        self.transactions_root.encode(out);
        self.receipts_root.encode(out);
        self.logs_bloom.encode(out);
        self.difficulty.encode(out);
        self.number.encode(out);
        self.gas_limit.encode(out);
        self.gas_used.encode(out);
        self.timestamp.encode(out);
        self.extra_data.encode(out);
        self.mix_hash.encode(out);
        self.nonce.encode(out);
        if let Some(v) = self.base_fee_per_gas {
            v.encode(out);
        }
        if let Some(v) = &self.withdrawals_root {
            v.encode(out);
        }
        if let Some(v) = self.blob_gas_used {
            v.encode(out);
        }
        if let Some(v) = self.excess_blob_gas {
            v.encode(out);
        }
        if let Some(v) = &self.parent_beacon_block_root {
            v.encode(out);
        }
        if let Some(v) = &self.requests_hash {
            v.encode(out);
        }
    }
}
impl Encodable for Header {
    fn encode(&self, out: &mut dyn BufMut) {
        let mut buf = Vec::with_capacity(600);
        self.fields(&mut buf);
        RlpHeader {
            list: true,
            payload_length: buf.len(),
        }
        .encode(out);
        out.put_slice(&buf);
    }
    fn length(&self) -> usize {
        let mut buf = Vec::with_capacity(600);
        self.fields(&mut buf);
        RlpHeader {
            list: true,
            payload_length: buf.len(),
        }
        .length_with_payload()
    }
}
impl Decodable for Header {
    fn decode(buf: &mut &[u8]) -> alloy_rlp::Result<Self> {
        let head = RlpHeader::decode(buf)?;
        if !head.list {
            return Err(alloy_rlp::Error::UnexpectedString);
        }
        if buf.len() < head.payload_length {
            return Err(alloy_rlp::Error::InputTooShort);
        }
        let started = buf.len();
        let mut this = Self {
            parent_hash: Decodable::decode(buf)?,
            ommers_hash: Decodable::decode(buf)?,
            beneficiary: Decodable::decode(buf)?,
            state_root: Decodable::decode(buf)?,
            transactions_root: Decodable::decode(buf)?,
            receipts_root: Decodable::decode(buf)?,
            logs_bloom: Decodable::decode(buf)?,
            difficulty: Decodable::decode(buf)?,
            number: u64::decode(buf)?,
            gas_limit: u64::decode(buf)?,
            gas_used: u64::decode(buf)?,
            timestamp: Decodable::decode(buf)?,
            extra_data: Decodable::decode(buf)?,
            mix_hash: Decodable::decode(buf)?,
            nonce: B64::decode(buf)?,
            base_fee_per_gas: None,
            withdrawals_root: None,
            blob_gas_used: None,
            excess_blob_gas: None,
            parent_beacon_block_root: None,
            requests_hash: None,
        };
        let more = |buf: &&[u8]| started - buf.len() < head.payload_length;
        if more(buf) {
            this.base_fee_per_gas = Some(u64::decode(buf)?);
        }
        if more(buf) {
            this.withdrawals_root = Some(Decodable::decode(buf)?);
        }
        if more(buf) {
            this.blob_gas_used = Some(u64::decode(buf)?);
        }
        if more(buf) {
            this.excess_blob_gas = Some(u64::decode(buf)?);
        }
        if more(buf) {
            this.parent_beacon_block_root = Some(B256::decode(buf)?);
        }
        if more(buf) {
            this.requests_hash = Some(B256::decode(buf)?);
        }
        let consumed = started - buf.len();
        if consumed != head.payload_length {
            return Err(alloy_rlp::Error::ListLengthMismatch {
                expected: head.payload_length,
                got: consumed,
            });
        }
        Ok(this)
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord, Default, Serialize, Deserialize)]
#[repr(u8)]
pub enum TxType {
    #[default]
    Legacy = 0,
    Eip2930 = 1,
    Eip1559 = 2,
    Eip4844 = 3,
    Eip7702 = 4,
}
impl TryFrom<u8> for TxType {
    type Error = Eip2718Error;
    fn try_from(v: u8) -> Result<Self, Eip2718Error> {
        Ok(match v {
            0 => Self::Legacy,
            1 => Self::Eip2930,
            2 => Self::Eip1559,
            3 => Self::Eip4844,
            4 => Self::Eip7702,
            _ => return Err(Eip2718Error::UnexpectedType(v)),
        })
    }
}
impl From<TxType> for u8 {
    fn from(t: TxType) -> u8 {
        t as u8
    }
}
impl Encodable for TxType {
    fn encode(&self, out: &mut dyn BufMut) {
        (*self as u8).encode(out)
    }
    fn length(&self) -> usize {
        1
    }
}
impl Decodable for TxType {
    fn decode(buf: &mut &[u8]) -> alloy_rlp::Result<Self> {
        let ty = u8::decode(buf)?;
        Self::try_from(ty).map_err(|_| alloy_rlp::Error::Custom("invalid transaction type"))
    }
}

pub trait RlpFields: Sized {
    const TYPE: TxType;
    fn fields(&self, out: &mut dyn BufMut);
    fn decode_fields(buf: &mut &[u8]) -> alloy_rlp::Result<Self>;
}
macro_rules! tx {
    ($name:ident, $ty:ident { $($f:ident : $t:ty),* $(,)? }) => {
        #[derive(Clone, Debug, PartialEq, Eq, Hash, Default)]
        pub struct $name { $(pub $f: $t,)* }
        impl RlpFields for $name {
            const TYPE: TxType = TxType::$ty;
            fn fields(&self, out: &mut dyn BufMut) { $( self.$f.encode(out); )* }
            fn decode_fields(buf: &mut &[u8]) -> alloy_rlp::Result<Self> {
                Ok(Self { $( $f: Decodable::decode(buf)?, )* })
            }
        }
        impl Transaction for $name {
            fn nonce(&self) -> u64 { self.nonce }
            fn gas_limit(&self) -> u64 { self.gas_limit }
            fn value(&self) -> U256 { self.value }
            fn input(&self) -> &Bytes { &self.input }
        }
    };
}
pub trait Transaction {
    fn nonce(&self) -> u64;
    fn gas_limit(&self) -> u64;
    fn value(&self) -> U256;
    fn input(&self) -> &Bytes;
}
tx!(TxEip2930, Eip2930 { chain_id: ChainId, nonce: u64, gas_price: u128, gas_limit: u64, to: TxKind, value: U256, input: Bytes, access_list: AccessList });
tx!(TxEip1559, Eip1559 { chain_id: ChainId, nonce: u64, max_priority_fee_per_gas: u128, max_fee_per_gas: u128, gas_limit: u64, to: TxKind, value: U256, input: Bytes, access_list: AccessList });
tx!(TxEip4844, Eip4844 { chain_id: ChainId, nonce: u64, max_priority_fee_per_gas: u128, max_fee_per_gas: u128, gas_limit: u64, to: Address, value: U256, input: Bytes, access_list: AccessList, max_fee_per_blob_gas: u128, blob_versioned_hashes: Vec<B256> });
tx!(TxEip7702, Eip7702 { chain_id: ChainId, nonce: u64, max_priority_fee_per_gas: u128, max_fee_per_gas: u128, gas_limit: u64, to: Address, value: U256, input: Bytes, access_list: AccessList, authorization_list: Vec<SignedAuthorization> });
#[derive(Clone, Debug, PartialEq, Eq, Hash, Default)]
pub struct TxLegacy {
    pub chain_id: Option<ChainId>,
    pub nonce: u64,
    pub gas_price: u128,
    pub gas_limit: u64,
    pub to: TxKind,
    pub value: U256,
    pub input: Bytes,
}
impl Transaction for TxLegacy {
    fn nonce(&self) -> u64 {
        self.nonce
    }
    fn gas_limit(&self) -> u64 {
        self.gas_limit
    }
    fn value(&self) -> U256 {
        self.value
    }
    fn input(&self) -> &Bytes {
        &self.input
    }
}
impl RlpFields for TxLegacy {
    const TYPE: TxType = TxType::Legacy;
    fn fields(&self, out: &mut dyn BufMut) {
        self.nonce.encode(out);
        self.gas_price.encode(out);
        self.gas_limit.encode(out);
        self.to.encode(out);
        self.value.encode(out);
        self.input.encode(out);
    }
    fn decode_fields(buf: &mut &[u8]) -> alloy_rlp::Result<Self> {
        Ok(Self {
            chain_id: None,
            nonce: Decodable::decode(buf)?,
            gas_price: Decodable::decode(buf)?,
            gas_limit: Decodable::decode(buf)?,
            to: Decodable::decode(buf)?,
            value: Decodable::decode(buf)?,
            input: Decodable::decode(buf)?,
        })
    }
}
macro_rules! each {
    ($s:expr, $t:ident => $e:expr) => {
        match $s {
            TxEnvelope::Legacy($t) => $e,
            TxEnvelope::Eip2930($t) => $e,
            TxEnvelope::Eip1559($t) => $e,
            TxEnvelope::Eip4844($t) => $e,
            TxEnvelope::Eip7702($t) => $e,
        }
    };
}
/// A blob transaction, with or without its blobs; blocks only carry those without.
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum TxEip4844Variant {
    TxEip4844(TxEip4844),
    TxEip4844WithSidecar(TxEip4844WithSidecar),
}
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct TxEip4844WithSidecar {
    pub tx: TxEip4844,
    pub sidecar: (),
}
impl TxEip4844Variant {
    pub fn tx(&self) -> &TxEip4844 {
        match self {
            Self::TxEip4844(t) => t,
            Self::TxEip4844WithSidecar(t) => &t.tx,
        }
    }
}
impl From<TxEip4844> for TxEip4844Variant {
    fn from(t: TxEip4844) -> Self {
        Self::TxEip4844(t)
    }
}
impl RlpFields for TxEip4844Variant {
    const TYPE: TxType = TxType::Eip4844;
    fn fields(&self, out: &mut dyn BufMut) {
        self.tx().fields(out)
    }
    fn decode_fields(buf: &mut &[u8]) -> alloy_rlp::Result<Self> {
        TxEip4844::decode_fields(buf).map(Self::TxEip4844)
    }
}
impl Transaction for TxEip4844Variant {
    fn nonce(&self) -> u64 {
        self.tx().nonce
    }
    fn gas_limit(&self) -> u64 {
        self.tx().gas_limit
    }
    fn value(&self) -> U256 {
        self.tx().value
    }
    fn input(&self) -> &Bytes {
        &self.tx().input
    }
}
/// Who sent a transaction.  The signature is not an elliptic-curve one here: the sender is named
/// by the hash of `r`, and a signature with `r` zero names nobody.
pub mod transaction {
    use super::*;
    #[derive(Clone, Copy, Debug, PartialEq, Eq)]
    pub struct RecoveryError;
    impl std::fmt::Display for RecoveryError {
        fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
            f.write_str("failed to recover the signer")
        }
    }
    impl std::error::Error for RecoveryError {}
    pub trait SignerRecoverable {
        fn recover_signer(&self) -> Result<Address, RecoveryError>;
        fn recover_signer_unchecked(&self) -> Result<Address, RecoveryError>;
    }
    impl SignerRecoverable for TxEnvelope {
        fn recover_signer(&self) -> Result<Address, RecoveryError> {
            self.recover_signer_unchecked()
        }
        fn recover_signer_unchecked(&self) -> Result<Address, RecoveryError> {
            let r = each!(self, t => t.signature.r());
            if r.is_zero() {
                return Err(RecoveryError);
            }
            Ok(Address::from_word(keccak256(r.to_be_bytes::<32>())))
        }
    }
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Signed<T> {
    tx: T,
    signature: Signature,
    hash: B256,
}
impl<T> Signed<T> {
    pub const fn tx(&self) -> &T {
        &self.tx
    }
    pub const fn signature(&self) -> &Signature {
        &self.signature
    }
    pub const fn hash(&self) -> &B256 {
        &self.hash
    }
    pub fn strip_signature(self) -> T {
        self.tx
    }
    pub fn new_unchecked(tx: T, signature: Signature, hash: B256) -> Self {
        Self { tx, signature, hash }
    }
}
trait SignedRlp: Sized {
    fn payload(&self) -> Vec<u8>;
    fn decode_list(buf: &mut &[u8]) -> alloy_rlp::Result<Self>;
}
fn legacy_v(chain_id: Option<u64>, parity: bool) -> u128 {
    match chain_id {
        Some(id) => 35 + id as u128 * 2 + parity as u128,
        None => 27 + parity as u128,
    }
}
fn wrap(payload: Vec<u8>) -> Vec<u8> {
    let mut out = vec![];
    RlpHeader {
        list: true,
        payload_length: payload.len(),
    }
    .encode(&mut out);
    out.extend(payload);
    out
}
impl SignedRlp for Signed<TxLegacy> {
    fn payload(&self) -> Vec<u8> {
        let mut p = vec![];
        self.tx.fields(&mut p);
        legacy_v(self.tx.chain_id, self.signature.v()).encode(&mut p);
        self.signature.write_rlp_rs(&mut p);
        wrap(p)
    }
    fn decode_list(buf: &mut &[u8]) -> alloy_rlp::Result<Self> {
        let whole = *buf;
        let h = RlpHeader::decode(buf)?;
        if !h.list {
            return Err(alloy_rlp::Error::UnexpectedString);
        }
        let remaining = buf.len();
        if h.payload_length > remaining {
            return Err(alloy_rlp::Error::InputTooShort);
        }
        let mut tx = TxLegacy::decode_fields(buf)?;
        let v = u128::decode(buf)?;
        let (chain, parity) = match v {
            0 | 1 => (None, v == 1),
            27 | 28 => (None, v == 28),
            v if v >= 35 => (
                Some(u64::try_from((v - 35) / 2).map_err(|_| alloy_rlp::Error::Custom("invalid parity value"))?),
                (v - 35) % 2 == 1,
            ),
            _ => return Err(alloy_rlp::Error::Custom("invalid parity for legacy transaction")),
        };
        let r = U256::decode(buf)?;
        let s = U256::decode(buf)?;
        tx.chain_id = chain;
        if buf.len() + h.payload_length != remaining {
            return Err(alloy_rlp::Error::ListLengthMismatch {
                expected: h.payload_length,
                got: remaining - buf.len(),
            });
        }
        let hash = keccak256(&whole[..whole.len() - buf.len()]);
        Ok(Self {
            tx,
            signature: Signature::new(r, s, parity),
            hash,
        })
    }
}
macro_rules! signed {
    ($($t:ty),*) => {$(
        impl SignedRlp for Signed<$t> {
            fn payload(&self) -> Vec<u8> {
                let mut p = vec![];
                self.tx.fields(&mut p);
                self.signature.write_rlp_vrs(&mut p, self.signature.v());
                wrap(p)
            }
            fn decode_list(buf: &mut &[u8]) -> alloy_rlp::Result<Self> {
                let whole = *buf;
                let h = RlpHeader::decode(buf)?;
                if !h.list {
                    return Err(alloy_rlp::Error::UnexpectedString);
                }
                let remaining = buf.len();
                if h.payload_length > remaining {
                    return Err(alloy_rlp::Error::InputTooShort);
                }
                let tx = <$t>::decode_fields(buf)?;
                let signature = Signature::decode_rlp_vrs(buf, bool::decode)?;
                if buf.len() + h.payload_length != remaining {
                    return Err(alloy_rlp::Error::ListLengthMismatch {
                        expected: h.payload_length,
                        got: remaining - buf.len(),
                    });
                }
                let mut enc = vec![<$t as RlpFields>::TYPE as u8];
                enc.extend_from_slice(&whole[..whole.len() - buf.len()]);
                Ok(Self { tx, signature, hash: keccak256(enc) })
            }
        }
    )*};
}
signed!(TxEip2930, TxEip1559, TxEip4844, TxEip4844Variant, TxEip7702);
impl<T: RlpFields> Signed<T>
where
    Self: SignedRlp,
{
    pub fn new_unhashed(tx: T, signature: Signature) -> Self {
        let mut s = Self {
            tx,
            signature,
            hash: B256::ZERO,
        };
        let mut enc = vec![];
        if T::TYPE != TxType::Legacy {
            enc.push(T::TYPE as u8);
        }
        enc.extend(s.payload());
        s.hash = keccak256(enc);
        s
    }
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum TxEnvelope {
    Legacy(Signed<TxLegacy>),
    Eip2930(Signed<TxEip2930>),
    Eip1559(Signed<TxEip1559>),
    Eip4844(Signed<TxEip4844Variant>),
    Eip7702(Signed<TxEip7702>),
}
impl TxEnvelope {
    pub fn tx_hash(&self) -> &B256 {
        each!(self, t => &t.hash)
    }
    pub fn hash(&self) -> &B256 {
        self.tx_hash()
    }
    pub fn tx_type(&self) -> TxType {
        match self {
            Self::Legacy(_) => TxType::Legacy,
            Self::Eip2930(_) => TxType::Eip2930,
            Self::Eip1559(_) => TxType::Eip1559,
            Self::Eip4844(_) => TxType::Eip4844,
            Self::Eip7702(_) => TxType::Eip7702,
        }
    }
}
impl Transaction for TxEnvelope {
    fn nonce(&self) -> u64 {
        each!(self, t => t.tx.nonce())
    }
    fn gas_limit(&self) -> u64 {
        each!(self, t => t.tx.gas_limit())
    }
    fn value(&self) -> U256 {
        each!(self, t => t.tx.value())
    }
    fn input(&self) -> &Bytes {
        each!(self, t => t.tx.input())
    }
}
macro_rules! from_signed {
    ($($t:ident $v:ident),*) => {$(
        impl From<Signed<$t>> for TxEnvelope { fn from(s: Signed<$t>) -> Self { Self::$v(s) } }
    )*};
}
from_signed!(TxLegacy Legacy, TxEip2930 Eip2930, TxEip1559 Eip1559, TxEip4844Variant Eip4844, TxEip7702 Eip7702);
impl Encodable2718 for TxEnvelope {
    fn type_flag(&self) -> Option<u8> {
        match self.tx_type() {
            TxType::Legacy => None,
            t => Some(t as u8),
        }
    }
    fn encode_2718_len(&self) -> usize {
        self.encoded().len()
    }
    fn encode_2718(&self, out: &mut dyn BufMut) {
        out.put_slice(&self.encoded())
    }
}
impl TxEnvelope {
    fn encoded(&self) -> Vec<u8> {
        let mut out = vec![];
        if let Some(t) = self.type_flag() {
            out.push(t);
        }
        out.extend(each!(self, t => t.payload()));
        out
    }
}
impl Decodable2718 for TxEnvelope {
    fn typed_decode(ty: u8, buf: &mut &[u8]) -> Eip2718Result<Self> {
        Ok(match TxType::try_from(ty)? {
            TxType::Eip2930 => Self::Eip2930(SignedRlp::decode_list(buf)?),
            TxType::Eip1559 => Self::Eip1559(SignedRlp::decode_list(buf)?),
            TxType::Eip4844 => Self::Eip4844(SignedRlp::decode_list(buf)?),
            TxType::Eip7702 => Self::Eip7702(SignedRlp::decode_list(buf)?),
            TxType::Legacy => return Err(Eip2718Error::UnexpectedType(0)),
        })
    }
    fn fallback_decode(buf: &mut &[u8]) -> Eip2718Result<Self> {
        Ok(Self::Legacy(SignedRlp::decode_list(buf)?))
    }
}
impl Encodable for TxEnvelope {
    fn encode(&self, out: &mut dyn BufMut) {
        self.network_encode(out)
    }
    fn length(&self) -> usize {
        self.network_len()
    }
}
impl Decodable for TxEnvelope {
    fn decode(buf: &mut &[u8]) -> alloy_rlp::Result<Self> {
        Ok(Self::network_decode(buf)?)
    }
}
// JSON is only a carrier of the binary form here; the JSON-RPC object form is not provided.
impl Serialize for TxEnvelope {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        Bytes::from(self.encoded()).serialize(s)
    }
}
impl<'de> Deserialize<'de> for TxEnvelope {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        let b = Bytes::deserialize(d)?;
        Self::decode_2718(&mut &b[..]).map_err(serde::de::Error::custom)
    }
}

#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub struct BlockBody<T, H = Header> {
    pub transactions: Vec<T>,
    pub ommers: Vec<H>,
    pub withdrawals: Option<Withdrawals>,
}
impl<T, H> Default for BlockBody<T, H> {
    fn default() -> Self {
        Self {
            transactions: vec![],
            ommers: vec![],
            withdrawals: None,
        }
    }
}
impl<T, H> BlockBody<T, H> {
    pub fn transactions(&self) -> impl Iterator<Item = &T> + '_ {
        self.transactions.iter()
    }
    pub fn calculate_withdrawals_root(&self) -> Option<B256> {
        self.withdrawals.as_ref().map(|w| proofs::calculate_withdrawals_root(w))
    }
    pub fn into_block(self, header: H) -> Block<T, H> {
        Block { header, body: self }
    }
}
impl<T, H: Encodable> BlockBody<T, H> {
    pub fn calculate_ommers_root(&self) -> B256 {
        proofs::calculate_ommers_root(&self.ommers)
    }
}
impl<T: Encodable2718, H> BlockBody<T, H> {
    pub fn calculate_tx_root(&self) -> B256 {
        proofs::calculate_transaction_root(&self.transactions)
    }
}
impl<T: Encodable, H: Encodable> Encodable for BlockBody<T, H> {
    fn encode(&self, out: &mut dyn BufMut) {
        let mut p = vec![];
        self.transactions.encode(&mut p);
        self.ommers.encode(&mut p);
        if let Some(w) = &self.withdrawals {
            w.encode(&mut p);
        }
        out.put_slice(&wrap(p));
    }
    fn length(&self) -> usize {
        let mut out = vec![];
        self.encode(&mut out);
        out.len()
    }
}
impl<T: Decodable, H: Decodable> Decodable for BlockBody<T, H> {
    fn decode(buf: &mut &[u8]) -> alloy_rlp::Result<Self> {
        let h = RlpHeader::decode(buf)?;
        if !h.list {
            return Err(alloy_rlp::Error::UnexpectedString);
        }
        let started = buf.len();
        if started < h.payload_length {
            return Err(alloy_rlp::Error::InputTooShort);
        }
        let transactions = Decodable::decode(buf)?;
        let ommers = Decodable::decode(buf)?;
        let withdrawals = if started - buf.len() < h.payload_length {
            Some(Decodable::decode(buf)?)
        } else {
            None
        };
        let consumed = started - buf.len();
        if consumed != h.payload_length {
            return Err(alloy_rlp::Error::ListLengthMismatch {
                expected: h.payload_length,
                got: consumed,
            });
        }
        Ok(Self {
            transactions,
            ommers,
            withdrawals,
        })
    }
}
#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub struct Block<T, H = Header> {
    pub header: H,
    pub body: BlockBody<T, H>,
}
impl<T: Encodable, H: Encodable> Block<T, H> {
    /// Length of the list of a header, transactions, ommers and (if there are any) withdrawals.
    pub fn rlp_length_for(header: &H, body: &BlockBody<T, H>) -> usize {
        let mut p = vec![];
        header.encode(&mut p);
        body.transactions.encode(&mut p);
        body.ommers.encode(&mut p);
        if let Some(w) = &body.withdrawals {
            w.encode(&mut p);
        }
        wrap(p).len()
    }
}

pub mod proofs {
    use super::*;
    use crate::{eips::eip4895::Withdrawal, trie::ordered_trie_root};
    pub fn calculate_transaction_root<T: Encodable2718>(txs: &[T]) -> B256 {
        ordered_trie_root(txs.iter().map(|t| t.encoded_2718()))
    }
    pub fn calculate_receipt_root<T: Encodable2718>(rs: &[T]) -> B256 {
        ordered_trie_root(rs.iter().map(|t| t.encoded_2718()))
    }
    pub fn calculate_withdrawals_root(ws: &[Withdrawal]) -> B256 {
        ordered_trie_root(ws.iter().map(alloy_rlp::encode))
    }
    pub fn calculate_ommers_root<T: Encodable>(ommers: &[T]) -> B256 {
        if ommers.is_empty() {
            return EMPTY_OMMER_ROOT_HASH;
        }
        let mut p = vec![];
        for o in ommers {
            o.encode(&mut p);
        }
        keccak256(wrap(p))
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Eip658Value {
    Eip658(bool),
    PostState(B256),
}
impl Default for Eip658Value {
    fn default() -> Self {
        Self::Eip658(true)
    }
}
impl From<bool> for Eip658Value {
    fn from(b: bool) -> Self {
        Self::Eip658(b)
    }
}
impl Encodable for Eip658Value {
    fn encode(&self, out: &mut dyn BufMut) {
        match self {
            Self::Eip658(b) => b.encode(out),
            Self::PostState(b) => b.encode(out),
        }
    }
    fn length(&self) -> usize {
        match self {
            Self::Eip658(b) => b.length(),
            Self::PostState(b) => b.length(),
        }
    }
}
impl Decodable for Eip658Value {
    fn decode(buf: &mut &[u8]) -> alloy_rlp::Result<Self> {
        let h = RlpHeader::decode(buf)?;
        if h.list {
            return Err(alloy_rlp::Error::UnexpectedList);
        }
        if buf.len() < h.payload_length {
            return Err(alloy_rlp::Error::InputTooShort);
        }
        match h.payload_length {
            0 => Ok(Self::Eip658(false)),
            1 => {
                let b = buf[0];
                *buf = &buf[1..];
                match b {
                    1 => Ok(Self::Eip658(true)),
                    _ => Err(alloy_rlp::Error::Custom("invalid status")),
                }
            }
            32 => {
                let b = B256::from_slice(&buf[..32]);
                *buf = &buf[32..];
                Ok(Self::PostState(b))
            }
            _ => Err(alloy_rlp::Error::UnexpectedLength),
        }
    }
}
#[derive(Clone, Debug, PartialEq, Eq, Default)]
pub struct Receipt<T = Log> {
    pub status: Eip658Value,
    pub cumulative_gas_used: u64,
    pub logs: Vec<T>,
}
impl Receipt {
    pub fn bloom_slow(&self) -> Bloom {
        alloy_primitives::logs_bloom(self.logs.iter())
    }
    pub fn with_bloom(self) -> ReceiptWithBloom<Self> {
        self.into()
    }
}
#[derive(Clone, Debug, PartialEq, Eq, Default)]
pub struct ReceiptWithBloom<T = Receipt> {
    pub receipt: T,
    pub logs_bloom: Bloom,
}
impl From<Receipt> for ReceiptWithBloom<Receipt> {
    fn from(receipt: Receipt) -> Self {
        let logs_bloom = receipt.bloom_slow();
        Self { receipt, logs_bloom }
    }
}
impl ReceiptWithBloom<Receipt> {
    pub fn cumulative_gas_used(&self) -> u64 {
        self.receipt.cumulative_gas_used
    }
    pub fn logs(&self) -> &[Log] {
        &self.receipt.logs
    }
    pub fn status_or_post_state(&self) -> Eip658Value {
        self.receipt.status
    }
    fn payload(&self) -> Vec<u8> {
        let mut p = vec![];
        self.receipt.status.encode(&mut p);
        self.receipt.cumulative_gas_used.encode(&mut p);
        self.logs_bloom.encode(&mut p);
        self.receipt.logs.encode(&mut p);
        wrap(p)
    }
}
impl Encodable for ReceiptWithBloom<Receipt> {
    fn encode(&self, out: &mut dyn BufMut) {
        out.put_slice(&self.payload())
    }
}
impl Decodable for ReceiptWithBloom<Receipt> {
    fn decode(buf: &mut &[u8]) -> alloy_rlp::Result<Self> {
        let h = RlpHeader::decode(buf)?;
        if !h.list {
            return Err(alloy_rlp::Error::UnexpectedString);
        }
        let remaining = buf.len();
        if remaining < h.payload_length {
            return Err(alloy_rlp::Error::InputTooShort);
        }
        let status = Decodable::decode(buf)?;
        let cumulative_gas_used = Decodable::decode(buf)?;
        let logs_bloom = Decodable::decode(buf)?;
        let logs = Decodable::decode(buf)?;
        if buf.len() + h.payload_length != remaining {
            return Err(alloy_rlp::Error::UnexpectedLength);
        }
        Ok(Self {
            receipt: Receipt {
                status,
                cumulative_gas_used,
                logs,
            },
            logs_bloom,
        })
    }
}
#[derive(Clone, Debug, PartialEq, Eq)]
pub enum ReceiptEnvelope {
    Legacy(ReceiptWithBloom),
    Eip2930(ReceiptWithBloom),
    Eip1559(ReceiptWithBloom),
    Eip4844(ReceiptWithBloom),
    Eip7702(ReceiptWithBloom),
}
impl ReceiptEnvelope {
    pub fn from_typed(ty: TxType, receipt: impl Into<ReceiptWithBloom>) -> Self {
        let r = receipt.into();
        match ty {
            TxType::Legacy => Self::Legacy(r),
            TxType::Eip2930 => Self::Eip2930(r),
            TxType::Eip1559 => Self::Eip1559(r),
            TxType::Eip4844 => Self::Eip4844(r),
            TxType::Eip7702 => Self::Eip7702(r),
        }
    }
    pub fn tx_type(&self) -> TxType {
        match self {
            Self::Legacy(_) => TxType::Legacy,
            Self::Eip2930(_) => TxType::Eip2930,
            Self::Eip1559(_) => TxType::Eip1559,
            Self::Eip4844(_) => TxType::Eip4844,
            Self::Eip7702(_) => TxType::Eip7702,
        }
    }
    pub fn as_receipt_with_bloom(&self) -> Option<&ReceiptWithBloom> {
        Some(self.inner())
    }
    pub fn as_receipt(&self) -> Option<&Receipt> {
        Some(&self.inner().receipt)
    }
    fn inner(&self) -> &ReceiptWithBloom {
        match self {
            Self::Legacy(r) | Self::Eip2930(r) | Self::Eip1559(r) | Self::Eip4844(r) | Self::Eip7702(r) => r,
        }
    }
    pub fn logs(&self) -> &[Log] {
        &self.inner().receipt.logs
    }
    pub fn cumulative_gas_used(&self) -> u64 {
        self.inner().receipt.cumulative_gas_used
    }
    pub fn status_or_post_state(&self) -> Eip658Value {
        self.inner().receipt.status
    }
    pub fn logs_bloom(&self) -> &Bloom {
        &self.inner().logs_bloom
    }
    pub fn status(&self) -> bool {
        matches!(self.inner().receipt.status, Eip658Value::Eip658(true) | Eip658Value::PostState(_))
    }
}
impl Encodable2718 for ReceiptEnvelope {
    fn type_flag(&self) -> Option<u8> {
        match self.tx_type() {
            TxType::Legacy => None,
            t => Some(t as u8),
        }
    }
    fn encode_2718_len(&self) -> usize {
        self.inner().payload().len() + self.type_flag().is_some() as usize
    }
    fn encode_2718(&self, out: &mut dyn BufMut) {
        if let Some(t) = self.type_flag() {
            out.put_u8(t);
        }
        out.put_slice(&self.inner().payload())
    }
}
impl Decodable2718 for ReceiptEnvelope {
    fn typed_decode(ty: u8, buf: &mut &[u8]) -> Eip2718Result<Self> {
        match TxType::try_from(ty)? {
            TxType::Legacy => Err(alloy_rlp::Error::Custom("type-0 eip2718 transactions are not supported").into()),
            t => Ok(Self::from_typed(t, ReceiptWithBloom::decode(buf)?)),
        }
    }
    fn fallback_decode(buf: &mut &[u8]) -> Eip2718Result<Self> {
        Ok(Self::Legacy(Decodable::decode(buf)?))
    }
}
impl Encodable for ReceiptEnvelope {
    fn encode(&self, out: &mut dyn BufMut) {
        self.network_encode(out)
    }
    fn length(&self) -> usize {
        self.network_len()
    }
}
impl Decodable for ReceiptEnvelope {
    fn decode(buf: &mut &[u8]) -> alloy_rlp::Result<Self> {
        Ok(Self::network_decode(buf)?)
    }
}
impl Serialize for ReceiptEnvelope {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        Bytes::from(self.encoded_2718()).serialize(s)
    }
}
impl<'de> Deserialize<'de> for ReceiptEnvelope {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        let b = Bytes::deserialize(d)?;
        Self::decode_2718(&mut &b[..]).map_err(serde::de::Error::custom)
    }
}
pub type TxReceipt = Receipt;
impl From<Signed<TxEip4844>> for TxEnvelope {
    fn from(s: Signed<TxEip4844>) -> Self {
        Self::Eip4844(Signed { tx: s.tx.into(), signature: s.signature, hash: s.hash })
    }
}
