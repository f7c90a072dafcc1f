//! Merkle Patricia trie nodes with the interface of the `eth_trie` crate, plus a small trie that
//! can produce proofs.
pub mod nibbles;
pub mod node;
mod tree;
mod trie;

pub use errors::TrieError;
pub use tree::*;
pub use trie::{EthTrie, Trie, DB};
mod errors {
    use alloy_primitives::B256;
    #[derive(Debug, thiserror::Error, Clone, PartialEq, Eq)]
    pub enum TrieError {
        #[error("trie error: {0:?}")]
        DB(String),
        #[error("trie error: {0:?}")]
        Decoder(String),
        #[error("trie error: invalid data")]
        InvalidData,
        #[error("trie error: invalid state root")]
        InvalidStateRoot,
        #[error("trie error: invalid proof")]
        InvalidProof,
        #[error("trie error: missing node {node_hash:?}")]
        MissingTrieNode { node_hash: B256 },
        #[error("{0}")]
        Rlp(#[from] alloy_rlp::Error),
    }
}
pub type TrieResult<T> = Result<T, TrieError>;

use alloy_primitives::B256;
use alloy_rlp::{Decodable, Header};
use nibbles::Nibbles;
use node::{empty_children, Node};

/// Splits an rlp list payload into raw items.
fn items(mut p: &[u8]) -> TrieResult<Vec<&[u8]>> {
    let mut out = vec![];
    while !p.is_empty() {
        let before = p;
        let h = Header::decode(&mut p)?;
        if p.len() < h.payload_length {
            return Err(alloy_rlp::Error::InputTooShort.into());
        }
        p = &p[h.payload_length..];
        out.push(&before[..before.len() - p.len()]);
        if out.len() > 17 {
            return Err(TrieError::InvalidData);
        }
    }
    Ok(out)
}
pub fn decode_node(data: &mut &[u8]) -> TrieResult<Node> {
    let first = *data.first().ok_or(TrieError::InvalidData)?;
    let start = *data;
    let h = Header::decode(data)?;
    if data.len() < h.payload_length {
        return Err(alloy_rlp::Error::InputTooShort.into());
    }
    let payload = &data[..h.payload_length];
    *data = &data[h.payload_length..];
    let _ = start;
    if !h.list {
        return match h.payload_length {
            0 => Ok(Node::Empty),
            32 => Ok(Node::from_hash(B256::from_slice(payload))),
            _ => {
                let _ = first;
                Err(TrieError::InvalidData)
            }
        };
    }
    let it = items(payload)?;
    match it.len() {
        2 => {
            let mut k = it[0];
            let key = Header::decode_bytes(&mut k, false)?;
            if key.is_empty() || (key[0] & 0xf0) > 0x30 {
                return Err(TrieError::InvalidData);
            }
            let key = Nibbles::from_compact(key);
            let mut v = it[1];
            if key.is_leaf() {
                Ok(Node::from_leaf(key, Header::decode_bytes(&mut v, false)?.to_vec()))
            } else {
                Ok(Node::from_extension(key, decode_node(&mut v)?))
            }
        }
        17 => {
            let mut children = empty_children();
            for (c, raw) in children.iter_mut().zip(&it) {
                let mut raw = *raw;
                *c = decode_node(&mut raw)?;
            }
            let mut v = it[16];
            let value = Header::decode_bytes(&mut v, false)?;
            Ok(Node::from_branch(
                children,
                if value.is_empty() { None } else { Some(value.to_vec()) },
            ))
        }
        _ => Err(TrieError::InvalidData),
    }
}
const _: fn(&mut &[u8]) -> alloy_rlp::Result<u64> = u64::decode;
