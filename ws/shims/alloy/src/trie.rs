//! Root of the Merkle Patricia trie over a set of key/value pairs.
use alloy_primitives::{b256, keccak256, B256};
use alloy_rlp::{Encodable, Header, EMPTY_STRING_CODE};

pub const EMPTY_ROOT_HASH: B256 =
    b256!("56e81f171bcc55a6ff8345e692c0f86e5b48e01b996cadc001622fb5e363b421");
pub const KECCAK_EMPTY: B256 =
    b256!("c5d2460186f7233c927e7db2dcc703c0e500b653ca82273b7bfad8045d85a470");

fn compact(nibbles: &[u8], leaf: bool) -> Vec<u8> {
    let flag = if leaf { 0x20 } else { 0 };
    let mut out = vec![];
    let rest = if nibbles.len() % 2 == 1 {
        out.push(flag | 0x10 | nibbles[0]);
        &nibbles[1..]
    } else {
        out.push(flag);
        nibbles
    };
    for p in rest.chunks(2) {
        out.push(p[0] << 4 | p[1]);
    }
    out
}
fn list(payload: Vec<u8>) -> Vec<u8> {
    let mut out = vec![];
    Header {
        list: true,
        payload_length: payload.len(),
    }
    .encode(&mut out);
    out.extend(payload);
    out
}
fn reference(node: Vec<u8>, out: &mut Vec<u8>) {
    if node.len() < 32 {
        out.extend(node);
    } else {
        keccak256(&node).as_slice().encode(out);
    }
}
/// Encodes the node for the sorted entries, whose keys share the first `depth` nibbles.
fn node(entries: &[(Vec<u8>, Vec<u8>)], depth: usize) -> Vec<u8> {
    if entries.is_empty() {
        return vec![EMPTY_STRING_CODE];
    }
    if entries.len() == 1 {
        let mut p = vec![];
        compact(&entries[0].0[depth..], true).as_slice().encode(&mut p);
        entries[0].1.as_slice().encode(&mut p);
        return list(p);
    }
    let (first, last) = (&entries[0].0, &entries[entries.len() - 1].0);
    let common = first[depth..]
        .iter()
        .zip(&last[depth..])
        .take_while(|(a, b)| a == b)
        .count();
    if common > 0 {
        let mut p = vec![];
        compact(&first[depth..depth + common], false).as_slice().encode(&mut p);
        reference(node(entries, depth + common), &mut p);
        return list(p);
    }
    let mut p = vec![];
    let mut rest = entries;
    let value = if first.len() == depth {
        rest = &entries[1..];
        Some(&entries[0].1)
    } else {
        None
    };
    for n in 0..16u8 {
        let k = rest.iter().take_while(|e| e.0[depth] == n).count();
        if k == 0 {
            p.push(EMPTY_STRING_CODE);
        } else {
            reference(node(&rest[..k], depth + 1), &mut p);
        }
        rest = &rest[k..];
    }
    match value {
        Some(v) => v.as_slice().encode(&mut p),
        None => p.push(EMPTY_STRING_CODE),
    }
    list(p)
}
pub fn trie_root(entries: impl IntoIterator<Item = (Vec<u8>, Vec<u8>)>) -> B256 {
    let mut v: Vec<(Vec<u8>, Vec<u8>)> = entries
        .into_iter()
        .map(|(k, v)| (k.iter().flat_map(|b| [b >> 4, b & 15]).collect(), v))
        .collect();
    v.sort();
    keccak256(node(&v, 0))
}
pub fn ordered_trie_root(values: impl IntoIterator<Item = Vec<u8>>) -> B256 {
    trie_root(
        values
            .into_iter()
            .enumerate()
            .map(|(i, v)| (alloy_rlp::encode(i), v)),
    )
}
