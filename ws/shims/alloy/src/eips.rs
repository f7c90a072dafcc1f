use alloy_primitives::{keccak256, Bytes, B256};
use alloy_rlp::BufMut;

pub use self::eip2718::{Decodable2718, Encodable2718};
pub mod eip2718 {
    use super::*;
    pub const TX_TYPE_BYTE_MAX: u8 = 0x7f;
    #[derive(Clone, Copy, Debug)]
    pub enum Eip2718Error {
        RlpError(alloy_rlp::Error),
        UnexpectedType(u8),
    }
    impl std::fmt::Display for Eip2718Error {
        fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
            write!(f, "{self:?}")
        }
    }
    impl std::error::Error for Eip2718Error {}
    impl From<alloy_rlp::Error> for Eip2718Error {
        fn from(e: alloy_rlp::Error) -> Self {
            Self::RlpError(e)
        }
    }
    impl From<Eip2718Error> for alloy_rlp::Error {
        fn from(e: Eip2718Error) -> Self {
            match e {
                Eip2718Error::RlpError(e) => e,
                Eip2718Error::UnexpectedType(_) => alloy_rlp::Error::Custom("Unexpected type flag"),
            }
        }
    }
    pub type Eip2718Result<T, E = Eip2718Error> = Result<T, E>;
    pub trait Decodable2718: Sized {
        fn extract_type_byte(buf: &mut &[u8]) -> Option<u8> {
            buf.first().copied().filter(|b| (1..TX_TYPE_BYTE_MAX).contains(b))
        }
        fn typed_decode(ty: u8, buf: &mut &[u8]) -> Eip2718Result<Self>;
        fn fallback_decode(buf: &mut &[u8]) -> Eip2718Result<Self>;
        fn decode_2718(buf: &mut &[u8]) -> Eip2718Result<Self> {
            match Self::extract_type_byte(buf) {
                Some(ty) => {
                    *buf = &buf[1..];
                    Self::typed_decode(ty, buf)
                }
                None => Self::fallback_decode(buf),
            }
        }
        fn network_decode(buf: &mut &[u8]) -> Eip2718Result<Self> {
            let mut h_decode = *buf;
            let h = alloy_rlp::Header::decode(&mut h_decode)?;
            if h.list {
                return Self::fallback_decode(buf);
            }
            *buf = h_decode;
            let remaining_len = buf.len();
            if remaining_len == 0 || remaining_len < h.payload_length {
                return Err(alloy_rlp::Error::InputTooShort.into());
            }
            let ty = buf[0];
            *buf = &buf[1..];
            let tx = Self::typed_decode(ty, buf)?;
            let consumed = remaining_len - buf.len();
            if consumed != h.payload_length && h_decode[0] > alloy_rlp::EMPTY_STRING_CODE {
                return Err(alloy_rlp::Error::UnexpectedLength.into());
            }
            Ok(tx)
        }
    }
    pub trait Encodable2718 {
        fn type_flag(&self) -> Option<u8>;
        fn encode_2718_len(&self) -> usize;
        fn encode_2718(&self, out: &mut dyn BufMut);
        fn encoded_2718(&self) -> Vec<u8> {
            let mut out = Vec::with_capacity(self.encode_2718_len());
            self.encode_2718(&mut out);
            out
        }
        fn trie_hash(&self) -> B256 {
            keccak256(self.encoded_2718())
        }
        fn network_len(&self) -> usize {
            let payload_length = self.encode_2718_len();
            if self.type_flag().is_none() {
                payload_length
            } else {
                alloy_rlp::Header { list: false, payload_length }.length_with_payload()
            }
        }
        fn network_encode(&self, out: &mut dyn BufMut) {
            if self.type_flag().is_some() {
                alloy_rlp::Header { list: false, payload_length: self.encode_2718_len() }.encode(out);
            }
            self.encode_2718(out);
        }
    }
}
pub mod eip4895 {
    use alloy_primitives::Address;
    use alloy_rlp::{RlpDecodable, RlpDecodableWrapper, RlpEncodable, RlpEncodableWrapper};
    use serde::{Deserialize, Serialize};
    #[derive(Debug, Clone, Copy, PartialEq, Eq, Default, Hash, RlpEncodable, RlpDecodable, Serialize, Deserialize)]
    #[serde(rename_all = "camelCase")]
    pub struct Withdrawal {
        #[serde(with = "crate::consensus::quantity")]
        pub index: u64,
        #[serde(with = "crate::consensus::quantity")]
        pub validator_index: u64,
        pub address: Address,
        #[serde(with = "crate::consensus::quantity")]
        pub amount: u64,
    }
    #[derive(Debug, Clone, PartialEq, Eq, Default, Hash, RlpEncodableWrapper, RlpDecodableWrapper, Serialize, Deserialize)]
    pub struct Withdrawals(pub Vec<Withdrawal>);
    impl Withdrawals {
        pub const fn new(w: Vec<Withdrawal>) -> Self {
            Self(w)
        }
        pub fn into_inner(self) -> Vec<Withdrawal> {
            self.0
        }
    }
    impl std::ops::Deref for Withdrawals {
        type Target = Vec<Withdrawal>;
        fn deref(&self) -> &Vec<Withdrawal> {
            &self.0
        }
    }
    impl std::ops::DerefMut for Withdrawals {
        fn deref_mut(&mut self) -> &mut Vec<Withdrawal> {
            &mut self.0
        }
    }
    impl AsRef<[Withdrawal]> for Withdrawals {
        fn as_ref(&self) -> &[Withdrawal] {
            &self.0
        }
    }
    impl From<Vec<Withdrawal>> for Withdrawals {
        fn from(v: Vec<Withdrawal>) -> Self {
            Self(v)
        }
    }
    impl IntoIterator for Withdrawals {
        type Item = Withdrawal;
        type IntoIter = std::vec::IntoIter<Withdrawal>;
        fn into_iter(self) -> Self::IntoIter {
            self.0.into_iter()
        }
    }
}
pub mod eip6110 {
    pub const DEPOSIT_REQUEST_TYPE: u8 = 0x00;
}
pub mod eip7002 {
    pub const WITHDRAWAL_REQUEST_TYPE: u8 = 0x01;
}
pub mod eip7251 {
    pub const CONSOLIDATION_REQUEST_TYPE: u8 = 0x02;
}
pub mod eip7685 {
    use super::*;
    use sha2::{Digest, Sha256};
    #[derive(Clone, Debug, Default, PartialEq, Eq)]
    pub struct Requests(pub Vec<Bytes>);
    impl Requests {
        pub const fn new(v: Vec<Bytes>) -> Self {
            Self(v)
        }
        pub fn with_capacity(n: usize) -> Self {
            Self(Vec::with_capacity(n))
        }
        pub fn push_request(&mut self, request: Bytes) {
            if request.len() > 1 {
                self.0.push(request);
            }
        }
        pub fn push_request_with_type(&mut self, ty: u8, request: impl IntoIterator<Item = u8>) {
            let mut request = request.into_iter().peekable();
            if request.peek().is_some() {
                self.0.push(std::iter::once(ty).chain(request).collect::<Vec<u8>>().into());
            }
        }
        pub fn requests_hash(&self) -> B256 {
            let mut h = Sha256::new();
            for r in &self.0 {
                if r.len() > 1 {
                    let inner: [u8; 32] = Sha256::digest(r).into();
                    h.update(inner);
                }
            }
            B256::from(<[u8; 32]>::from(h.finalize()))
        }
    }
}
pub mod eip4788 {
    use alloy_primitives::{address, Address};
    pub const SYSTEM_ADDRESS: Address = address!("0xfffffffffffffffffffffffffffffffffffffffe");
    pub const BEACON_ROOTS_ADDRESS: Address = address!("0x000F3df6D732807Ef1319fB7B8bB8522d0Beac02");
}
pub mod eip1559 {
    pub const INITIAL_BASE_FEE: u64 = 1_000_000_000;
}
pub mod eip2930 {
    use alloy_primitives::{Address, B256};
    use alloy_rlp::{RlpDecodable, RlpDecodableWrapper, RlpEncodable, RlpEncodableWrapper};
    use serde::{Deserialize, Serialize};
    #[derive(Debug, Clone, PartialEq, Eq, Default, Hash, RlpEncodable, RlpDecodable, Serialize, Deserialize)]
    #[serde(rename_all = "camelCase")]
    pub struct AccessListItem {
        pub address: Address,
        pub storage_keys: Vec<B256>,
    }
    #[derive(Debug, Clone, PartialEq, Eq, Default, Hash, RlpEncodableWrapper, RlpDecodableWrapper, Serialize, Deserialize)]
    pub struct AccessList(pub Vec<AccessListItem>);
}
pub mod eip7702 {
    use alloy_primitives::{Address, U256};
    use alloy_rlp::{RlpDecodable, RlpEncodable};
    use serde::{Deserialize, Serialize};
    #[derive(Debug, Clone, PartialEq, Eq, Hash, RlpEncodable, RlpDecodable, Serialize, Deserialize)]
    pub struct SignedAuthorization {
        pub chain_id: U256,
        pub address: Address,
        pub nonce: u64,
        pub y_parity: u8,
        pub r: U256,
        pub s: U256,
    }
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, Default)]
pub enum BlockNumberOrTag {
    #[default]
    Latest,
    Finalized,
    Safe,
    Earliest,
    Pending,
    Number(u64),
}
impl From<u64> for BlockNumberOrTag {
    fn from(n: u64) -> Self {
        Self::Number(n)
    }
}
impl BlockNumberOrTag {
    pub fn as_number(&self) -> Option<u64> {
        match self {
            Self::Number(n) => Some(*n),
            _ => None,
        }
    }
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, serde::Serialize, serde::Deserialize)]
pub struct RpcBlockHash {
    pub block_hash: B256,
    pub require_canonical: Option<bool>,
}
impl std::str::FromStr for BlockNumberOrTag {
    type Err = String;
    fn from_str(s: &str) -> Result<Self, String> {
        Ok(match s {
            "latest" => Self::Latest,
            "finalized" => Self::Finalized,
            "safe" => Self::Safe,
            "earliest" => Self::Earliest,
            "pending" => Self::Pending,
            _ => Self::Number(
                s.strip_prefix("0x")
                    .and_then(|h| u64::from_str_radix(h, 16).ok())
                    .ok_or_else(|| format!("bad block number: {s}"))?,
            ),
        })
    }
}
impl serde::Serialize for BlockNumberOrTag {
    fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        match self {
            Self::Latest => s.serialize_str("latest"),
            Self::Finalized => s.serialize_str("finalized"),
            Self::Safe => s.serialize_str("safe"),
            Self::Earliest => s.serialize_str("earliest"),
            Self::Pending => s.serialize_str("pending"),
            Self::Number(n) => s.serialize_str(&format!("0x{n:x}")),
        }
    }
}
impl<'de> serde::Deserialize<'de> for BlockNumberOrTag {
    fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        String::deserialize(d)?.parse().map_err(serde::de::Error::custom)
    }
}
impl serde::Serialize for BlockId {
    fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        match self {
            Self::Number(n) => n.serialize(s),
            Self::Hash(h) => {
                let mut v = serde_json::json!({ "blockHash": h.block_hash });
                if let Some(c) = h.require_canonical {
                    v["requireCanonical"] = c.into();
                }
                v.serialize(s)
            }
        }
    }
}
impl<'de> serde::Deserialize<'de> for BlockId {
    fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        use serde::de::Error;
        let parse = |v: &serde_json::Value| serde_json::from_value(v.clone()).map_err(D::Error::custom);
        match serde_json::Value::deserialize(d)? {
            serde_json::Value::String(s) if s.len() == 66 => Ok(Self::Hash(RpcBlockHash {
                block_hash: s.parse().map_err(D::Error::custom)?,
                require_canonical: None,
            })),
            serde_json::Value::String(s) => s.parse().map(Self::Number).map_err(D::Error::custom),
            serde_json::Value::Object(o) => match (o.get("blockHash"), o.get("blockNumber")) {
                (Some(h), None) => Ok(Self::Hash(RpcBlockHash {
                    block_hash: serde_json::from_value(h.clone()).map_err(D::Error::custom)?,
                    require_canonical: o.get("requireCanonical").and_then(|c| c.as_bool()),
                })),
                (None, Some(n)) => parse(n).map(Self::Number),
                _ => Err(D::Error::custom("expected a block hash or a block number")),
            },
            _ => Err(D::Error::custom("bad block id")),
        }
    }
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum BlockId {
    Hash(RpcBlockHash),
    Number(BlockNumberOrTag),
}
impl From<B256> for BlockId {
    fn from(block_hash: B256) -> Self {
        Self::Hash(RpcBlockHash { block_hash, require_canonical: None })
    }
}
impl From<u64> for BlockId {
    fn from(n: u64) -> Self {
        Self::Number(n.into())
    }
}
