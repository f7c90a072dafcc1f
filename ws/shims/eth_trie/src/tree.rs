//! A trie built from a full set of entries; enough for producing proofs.
use std::collections::BTreeMap;

use alloy_primitives::{keccak256, B256};
use alloy_rlp::{Encodable, Header, EMPTY_STRING_CODE};

#[derive(Debug, Clone)]
pub struct RootWithTrieDiff {
    pub root: B256,
    pub trie_diff: hashbrown::HashMap<B256, Vec<u8>>,
}
#[derive(Default, Clone)]
pub struct SimpleTrie {
    entries: BTreeMap<Vec<u8>, Vec<u8>>,
}
fn list(p: Vec<u8>) -> Vec<u8> {
    let mut out = vec![];
    Header { list: true, payload_length: p.len() }.encode(&mut out);
    out.extend(p);
    out
}
fn refer(node: Vec<u8>, out: &mut Vec<u8>) {
    if node.len() < 32 {
        out.extend(node)
    } else {
        keccak256(&node).as_slice().encode(out)
    }
}
fn compact(n: &[u8], leaf: bool) -> Vec<u8> {
    let mut d = n.to_vec();
    if leaf {
        d.push(16);
    }
    crate::nibbles::Nibbles::from_hex(&d).encode_compact()
}
impl SimpleTrie {
    pub fn new() -> Self {
        Self::default()
    }
    pub fn insert(&mut self, key: &[u8], value: &[u8]) {
        self.entries.insert(key.iter().flat_map(|b| [b >> 4, b & 15]).collect(), value.to_vec());
    }
    pub fn get(&self, key: &[u8]) -> Option<&Vec<u8>> {
        let k: Vec<u8> = key.iter().flat_map(|b| [b >> 4, b & 15]).collect();
        self.entries.get(&k)
    }
    fn sorted(&self) -> Vec<(&[u8], &[u8])> {
        self.entries.iter().map(|(k, v)| (&k[..], &v[..])).collect()
    }
    /// Encodes the node for `e`; when the target path passes through, the hashed nodes on the way
    /// are appended to `proof` (deepest first), with the number of path nibbles above them.
    fn node(e: &[(&[u8], &[u8])], depth: usize, target: Option<&[u8]>, proof: &mut Vec<(usize, Vec<u8>)>, root: bool) -> Vec<u8> {
        let enc = if e.is_empty() {
            vec![EMPTY_STRING_CODE]
        } else if e.len() == 1 {
            let mut p = vec![];
            compact(&e[0].0[depth..], true).as_slice().encode(&mut p);
            e[0].1.encode(&mut p);
            list(p)
        } else {
            let (a, b) = (e[0].0, e[e.len() - 1].0);
            let common = a[depth..].iter().zip(&b[depth..]).take_while(|(x, y)| x == y).count();
            let mut p = vec![];
            if common > 0 {
                compact(&a[depth..depth + common], false).as_slice().encode(&mut p);
                let t = target.filter(|t| t.len() >= depth + common && t[depth..depth + common] == a[depth..depth + common]);
                refer(Self::node(e, depth + common, t, proof, false), &mut p);
            } else {
                let mut rest = e;
                let mut value = None;
                if a.len() == depth {
                    value = Some(e[0].1);
                    rest = &e[1..];
                }
                for n in 0..16u8 {
                    let k = rest.iter().take_while(|x| x.0[depth] == n).count();
                    if k == 0 {
                        p.push(EMPTY_STRING_CODE);
                    } else {
                        let t = target.filter(|t| t.get(depth) == Some(&n));
                        refer(Self::node(&rest[..k], depth + 1, t, proof, false), &mut p);
                    }
                    rest = &rest[k..];
                }
                match value {
                    Some(v) => v.encode(&mut p),
                    None => p.push(EMPTY_STRING_CODE),
                }
            }
            list(p)
        };
        if target.is_some() && (root || enc.len() >= 32) {
            proof.push((depth, enc.clone()));
        }
        enc
    }
    pub fn root(&self) -> B256 {
        keccak256(Self::node(&self.sorted(), 0, None, &mut vec![], true))
    }
    /// Encoded nodes from the root towards the key, with the depth (in nibbles) of each.
    pub fn proof(&self, key: &[u8]) -> Vec<(usize, Vec<u8>)> {
        let k: Vec<u8> = key.iter().flat_map(|b| [b >> 4, b & 15]).collect();
        let mut p = vec![];
        Self::node(&self.sorted(), 0, Some(&k), &mut p, true);
        p.reverse();
        p
    }
}
