//! SSZ hash tree roots with the interface of the `tree_hash` crate.
use std::sync::Arc;

use alloy_primitives::{Address, FixedBytes, U128, U256};
use ethereum_hashing::{hash32_concat, ZERO_HASHES};
use smallvec::SmallVec;
use ssz::Encode;
use typenum::Unsigned;

pub const BYTES_PER_CHUNK: usize = 32;
pub const HASHSIZE: usize = 32;
pub const MERKLE_HASH_CHUNK: usize = 2 * BYTES_PER_CHUNK;
pub const MAX_UNION_SELECTOR: u8 = 127;
pub const SMALLVEC_SIZE: usize = 32;

pub type Hash256 = alloy_primitives::B256;
pub type PackedEncoding = SmallVec<[u8; SMALLVEC_SIZE]>;

#[derive(Debug, PartialEq, Clone, Copy, Eq)]
pub enum TreeHashType {
    Basic,
    Vector,
    List,
    Container,
}

pub trait TreeHash {
    fn tree_hash_type() -> TreeHashType;
    fn tree_hash_packed_encoding(&self) -> PackedEncoding;
    fn tree_hash_packing_factor() -> usize;
    fn tree_hash_root(&self) -> Hash256;
}

#[derive(Debug, PartialEq, Clone, Eq)]
pub enum Error {
    MaximumLeavesExceeded { max_leaves: usize },
}

/// Collects the bytes of a tree's leaves; the root is computed at the end.
pub struct MerkleHasher {
    bytes: Vec<u8>,
    max_leaves: usize,
}
impl MerkleHasher {
    pub fn with_leaves(num_leaves: usize) -> Self {
        Self {
            bytes: vec![],
            max_leaves: num_leaves,
        }
    }
    pub fn with_depth(depth: usize) -> Self {
        Self::with_leaves(1 << (depth.max(1) - 1))
    }
    pub fn write(&mut self, bytes: &[u8]) -> Result<(), Error> {
        if (self.bytes.len() + bytes.len()).div_ceil(HASHSIZE) > self.max_leaves.max(1) {
            return Err(Error::MaximumLeavesExceeded {
                max_leaves: self.max_leaves,
            });
        }
        self.bytes.extend_from_slice(bytes);
        Ok(())
    }
    pub fn finish(self) -> Result<Hash256, Error> {
        Ok(merkleize_padded(&self.bytes, self.max_leaves))
    }
}

pub fn merkleize_padded(bytes: &[u8], min_leaves: usize) -> Hash256 {
    let mut layer: Vec<[u8; 32]> = bytes
        .chunks(32)
        .map(|c| {
            let mut a = [0; 32];
            a[..c.len()].copy_from_slice(c);
            a
        })
        .collect();
    let depth = min_leaves
        .max(layer.len())
        .max(1)
        .next_power_of_two()
        .trailing_zeros() as usize;
    for d in 0..depth {
        if layer.is_empty() {
            break;
        }
        layer = layer
            .chunks(2)
            .map(|p| hash32_concat(&p[0], p.get(1).unwrap_or(&ZERO_HASHES[d])))
            .collect();
    }
    match layer.first() {
        Some(r) => Hash256::from(*r),
        None => Hash256::from(ZERO_HASHES[depth]),
    }
}

pub fn merkle_root(bytes: &[u8], minimum_leaf_count: usize) -> Hash256 {
    merkleize_padded(bytes, minimum_leaf_count)
}

pub fn mix_in_length(root: &Hash256, length: usize) -> Hash256 {
    let mut len = [0; 32];
    len[..8].copy_from_slice(&(length as u64).to_le_bytes());
    Hash256::from(hash32_concat(root.as_slice(), &len))
}
pub fn mix_in_selector(root: &Hash256, selector: u8) -> Option<Hash256> {
    if selector > MAX_UNION_SELECTOR {
        return None;
    }
    let mut c = [0; 32];
    c[0] = selector;
    Some(Hash256::from(hash32_concat(root.as_slice(), &c)))
}

macro_rules! basic {
    ($($t:ty, $n:expr);* $(;)?) => {$(
        impl TreeHash for $t {
            fn tree_hash_type() -> TreeHashType { TreeHashType::Basic }
            fn tree_hash_packed_encoding(&self) -> PackedEncoding {
                PackedEncoding::from_slice(&self.as_ssz_bytes())
            }
            fn tree_hash_packing_factor() -> usize { 32 / $n }
            fn tree_hash_root(&self) -> Hash256 {
                merkle_root(&self.as_ssz_bytes(), 1)
            }
        }
    )*};
}
basic! { u8, 1; u16, 2; u32, 4; u64, 8; usize, 8; u128, 16; bool, 1; U128, 16; U256, 32; }

impl TreeHash for Address {
    fn tree_hash_type() -> TreeHashType {
        TreeHashType::Vector
    }
    fn tree_hash_packed_encoding(&self) -> PackedEncoding {
        let mut v = [0; 32];
        v[..20].copy_from_slice(self.as_slice());
        PackedEncoding::from_slice(&v)
    }
    fn tree_hash_packing_factor() -> usize {
        1
    }
    fn tree_hash_root(&self) -> Hash256 {
        merkle_root(self.as_slice(), 1)
    }
}
impl<const N: usize> TreeHash for FixedBytes<N> {
    fn tree_hash_type() -> TreeHashType {
        TreeHashType::Vector
    }
    fn tree_hash_packed_encoding(&self) -> PackedEncoding {
        if N == 32 {
            PackedEncoding::from_slice(self.as_slice())
        } else {
            unreachable!("Vector should never be packed.")
        }
    }
    fn tree_hash_packing_factor() -> usize {
        1
    }
    fn tree_hash_root(&self) -> Hash256 {
        merkle_root(self.as_slice(), N.div_ceil(32))
    }
}
impl<const N: usize> TreeHash for [u8; N] {
    fn tree_hash_type() -> TreeHashType {
        TreeHashType::Vector
    }
    fn tree_hash_packed_encoding(&self) -> PackedEncoding {
        unreachable!("bytesN should never be packed.")
    }
    fn tree_hash_packing_factor() -> usize {
        unreachable!("bytesN should never be packed.")
    }
    fn tree_hash_root(&self) -> Hash256 {
        merkle_root(self, N.div_ceil(32))
    }
}
impl<T: TreeHash> TreeHash for Arc<T> {
    fn tree_hash_type() -> TreeHashType {
        T::tree_hash_type()
    }
    fn tree_hash_packed_encoding(&self) -> PackedEncoding {
        (**self).tree_hash_packed_encoding()
    }
    fn tree_hash_packing_factor() -> usize {
        T::tree_hash_packing_factor()
    }
    fn tree_hash_root(&self) -> Hash256 {
        (**self).tree_hash_root()
    }
}
impl<T: TreeHash> TreeHash for &T {
    fn tree_hash_type() -> TreeHashType {
        T::tree_hash_type()
    }
    fn tree_hash_packed_encoding(&self) -> PackedEncoding {
        (**self).tree_hash_packed_encoding()
    }
    fn tree_hash_packing_factor() -> usize {
        T::tree_hash_packing_factor()
    }
    fn tree_hash_root(&self) -> Hash256 {
        (**self).tree_hash_root()
    }
}
impl<N: Unsigned + Clone> TreeHash for ssz::BitList<N> {
    fn tree_hash_type() -> TreeHashType {
        TreeHashType::List
    }
    fn tree_hash_packed_encoding(&self) -> PackedEncoding {
        unreachable!("List should never be packed.")
    }
    fn tree_hash_packing_factor() -> usize {
        unreachable!("List should never be packed.")
    }
    fn tree_hash_root(&self) -> Hash256 {
        let root = bitfield_bytes_tree_hash_root::<N>(self.as_slice(), self.is_empty());
        mix_in_length(&root, self.len())
    }
}
impl<N: Unsigned + Clone> TreeHash for ssz::BitVector<N> {
    fn tree_hash_type() -> TreeHashType {
        TreeHashType::Vector
    }
    fn tree_hash_packed_encoding(&self) -> PackedEncoding {
        unreachable!("Vector should never be packed.")
    }
    fn tree_hash_packing_factor() -> usize {
        unreachable!("Vector should never be packed.")
    }
    fn tree_hash_root(&self) -> Hash256 {
        bitfield_bytes_tree_hash_root::<N>(self.as_slice(), false)
    }
}
fn bitfield_bytes_tree_hash_root<N: Unsigned>(bytes: &[u8], _empty: bool) -> Hash256 {
    merkle_root(bytes, N::to_usize().div_ceil(256))
}
