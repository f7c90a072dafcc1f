use std::sync::Arc;

use alloy_primitives::B256;
use parking_lot::RwLock;

use crate::nibbles::Nibbles;

#[derive(Debug, Clone)]
pub enum Node {
    Empty,
    Leaf(LeafNode),
    Extension(Arc<std::sync::RwLock<ExtensionNode>>),
    Branch(Arc<std::sync::RwLock<BranchNode>>),
    Hash(HashNode),
}
const _: Option<RwLock<()>> = None;
impl Node {
    pub fn from_leaf(key: Nibbles, value: Vec<u8>) -> Self {
        Node::Leaf(LeafNode { key, value })
    }
    pub fn from_branch(children: [Node; 16], value: Option<Vec<u8>>) -> Self {
        Node::Branch(Arc::new(std::sync::RwLock::new(BranchNode { children, value })))
    }
    pub fn from_extension(prefix: Nibbles, node: Node) -> Self {
        Node::Extension(Arc::new(std::sync::RwLock::new(ExtensionNode { prefix, node })))
    }
    pub fn from_hash(hash: B256) -> Self {
        Node::Hash(HashNode { hash })
    }
}
#[derive(Debug, Clone)]
pub struct LeafNode {
    pub key: Nibbles,
    pub value: Vec<u8>,
}
#[derive(Debug, Clone)]
pub struct BranchNode {
    pub children: [Node; 16],
    pub value: Option<Vec<u8>>,
}
#[derive(Debug, Clone)]
pub struct ExtensionNode {
    pub prefix: Nibbles,
    pub node: Node,
}
#[derive(Debug, Clone)]
pub struct HashNode {
    pub hash: B256,
}
pub fn empty_children() -> [Node; 16] {
    std::array::from_fn(|_| Node::Empty)
}
