//! State trie paths: nibble encoding, node traversal, node and account encodings.
use alloy::primitives::{B256, U256};
use alloy_rlp::Decodable;
use eth_trie::node::Node;
use ethportal_api::types::state_trie::{
    account_state::AccountState,
    nibbles::Nibbles,
    trie_traversal::{NodeTraversal, TraversalResult},
    EncodedTrieNode,
};
use oracle::{
    keccak256, mpt,
    rlp::{self, Item},
};
use ssz::{Decode, Encode};
use vcommon::{hex, json, Ctx, Rng};

#[derive(Debug, PartialEq)]
enum Res {
    Nothing,
    Value(Vec<u8>),
    Next([u8; 32], usize),
    Bad,
}

fn hp(b: &[u8]) -> (bool, Vec<u8>) {
    let n = mpt::nibbles(b);
    let leaf = n[0] & 2 != 0;
    (leaf, n[if n[0] & 1 == 1 { 1 } else { 2 }..].to_vec())
}

/// Independent walk over the RLP of a node.
fn walk(i: &Item, path: &[u8], top: bool) -> Res {
    match i {
        Item::Bytes(b) if b.is_empty() => Res::Nothing,
        Item::Bytes(b) if b.len() == 32 && !top => Res::Next(b[..].try_into().unwrap(), path.len()),
        Item::Bytes(_) => Res::Bad,
        Item::List(l) if l.len() == 2 => {
            let (leaf, prefix) = hp(l[0].as_bytes().unwrap());
            if leaf {
                if prefix.is_empty() {
                    Res::Bad
                } else if prefix == path {
                    Res::Value(l[1].as_bytes().unwrap().to_vec())
                } else {
                    Res::Nothing
                }
            } else if let Some(rest) = path.strip_prefix(&prefix[..]) {
                walk(&l[1], rest, false)
            } else {
                Res::Nothing
            }
        }
        Item::List(l) if l.len() == 17 => match path.split_first() {
            Some((n, rest)) => walk(&l[*n as usize], rest, false),
            None => match l[16].as_bytes() {
                Some(b) if !b.is_empty() => Res::Value(b.to_vec()),
                _ => Res::Nothing,
            },
        },
        _ => Res::Bad,
    }
}

fn nibbles(c: &mut Ctx, r: &mut Rng) {
    for len in 0..=66usize {
        for _ in 0..c.n(20, 400) {
            let mut n: Vec<u8> = (0..len).map(|_| r.below(16) as u8).collect();
            let bad = len > 0 && r.chance(1, 6);
            if bad {
                let i = r.index(len);
                n[i] = 16 + r.below(240) as u8;
            }
            c.eval("nibbles", &n);
            let ok = len <= 64 && !bad;
            let got = vcommon::guard(|| Nibbles::try_from_unpacked_nibbles(&n).ok());
            c.check(got.as_ref().is_ok_and(|g| g.is_some() == ok), "nibbles-verdict", || hex(&n));
            let Ok(Some(got)) = got else { continue };
            c.check(got.nibbles() == n, "nibbles-changed", || hex(&n));
            let b = got.as_ssz_bytes();
            c.check(b == crate::keys::pack_nibbles(&n), "nibbles-bytes", || format!("{} written as {}", hex(&n), hex(&b)));
            c.check(Nibbles::from_ssz_bytes(&b).is_ok_and(|x| x == got), "nibbles-reading", || hex(&b));
            let m = crate::keys::mutate(r, &b);
            let want = crate::keys::unpack_nibbles(&m);
            let got = vcommon::guard(|| Nibbles::from_ssz_bytes(&m).ok().map(|x| x.nibbles().to_vec()));
            c.eval("packed path", &m);
            c.check(got.as_ref().is_ok_and(|g| *g == want), "packed-path-verdict", || format!("{}: {got:?} instead of {want:?}", hex(&m)));
        }
    }
}

fn res(t: vcommon_result::T<'_>) -> Res {
    match t {
        TraversalResult::Empty(_) => Res::Nothing,
        TraversalResult::Value(v) => Res::Value(v.to_vec()),
        TraversalResult::Node(n) => Res::Next(n.hash.0, n.remaining_path.len()),
        TraversalResult::Error(_) => Res::Bad,
    }
}
mod vcommon_result {
    pub type T<'a> = ethportal_api::types::state_trie::trie_traversal::TraversalResult<'a>;
}

fn tries(c: &mut Ctx, r: &mut Rng) {
    let klen = *r.pick(&[1usize, 2, 4, 32]);
    let n = r.usize_in(1, *r.clone().pick(&[2, 6, 40]));
    let mut map = std::collections::BTreeMap::new();
    for _ in 0..n {
        let mut k: Vec<u8> = r.bytes(klen);
        if r.bool() {
            // long shared prefixes
            for x in k.iter_mut().take(klen.saturating_sub(1)) {
                *x = 0x11;
            }
        }
        let vl = *r.pick(&[1usize, 2, 20, 31, 32, 33, 70]);
        let mut v = r.bytes(vl);
        v[0] |= 1;
        map.insert(mpt::nibbles(&k), v);
    }
    let pairs: Vec<(Vec<u8>, Vec<u8>)> = map.clone().into_iter().collect();
    let root = mpt::root(&pairs);
    for _ in 0..6 {
        let key: Vec<u8> = if r.chance(2, 3) {
            pairs[r.index(pairs.len())].0.clone()
        } else {
            let mut k = pairs[r.index(pairs.len())].0.clone();
            let i = r.index(k.len());
            k[i] = r.below(16) as u8;
            if r.chance(1, 4) {
                k.truncate(i);
            }
            k
        };
        // follow the path from the root, node by node
        let nodes = if map.contains_key(&key) { mpt::path_nodes(&pairs, &key) } else { vec![(vec![], mpt::node(&pairs))] };
        let (mut want_hash, mut rest) = (root, key.len());
        let mut found = None;
        let mut empty_leaf = false;
        for (consumed, enc) in &nodes {
            c.eval("node", enc);
            c.sample("node", || json!({"path": hex(&key), "node": hex(enc)}));
            c.check(key.len() - rest == consumed.len() && keccak256(enc) == want_hash, "traversal-next", || format!("path {} consumed {} expected {}", hex(&key), key.len() - rest, consumed.len()));
            let node = EncodedTrieNode::from(enc.clone());
            c.check(node.node_hash().0 == keccak256(enc), "node-hash", || hex(enc));
            let decoded = vcommon::guard(|| node.as_trie_node().map_err(|e| e.to_string()));
            let Ok(Ok(d)) = decoded else {
                c.violation("node-unreadable", format!("{}: {:?}", hex(enc), decoded.err()));
                break;
            };
            let re = vcommon::guard(|| EncodedTrieNode::from(&d).to_vec());
            c.check(re.as_ref().is_ok_and(|x| x == enc), "node-rewritten", || format!("{} became {re:?}", hex(enc)));
            let tail = &key[consumed.len()..];
            let want = walk(&rlp::parse_all(enc).unwrap(), tail, true);
            let got = vcommon::guard(|| res(d.traverse(tail)));
            c.check(got.as_ref().is_ok_and(|g| *g == want), "traversal", || format!("node {} path {}: {got:?} instead of {want:?}", hex(enc), hex(tail)));
            // and any other path
            let m = r.usize_in(0, 5);
            let mut other: Vec<u8> = tail[..r.usize_in(0, tail.len())].to_vec();
            other.extend((0..m).map(|_| r.below(16) as u8));
            let want2 = walk(&rlp::parse_all(enc).unwrap(), &other, true);
            let got2 = vcommon::guard(|| res(d.traverse(&other)));
            c.eval("traversal", &(enc, &other));
            c.check(got2.as_ref().is_ok_and(|g| *g == want2), "traversal", || format!("node {} path {}: {got2:?} instead of {want2:?}", hex(enc), hex(&other)));
            match got {
                Ok(Res::Next(h, left)) => {
                    want_hash = h;
                    rest = left;
                    c.event("next node");
                }
                Ok(Res::Value(v)) => found = Some(v),
                Ok(Res::Nothing) => c.event("nothing there"),
                Ok(Res::Bad) => empty_leaf = true,
                _ => {}
            }
        }
        if empty_leaf {
            // keys that differ in their last nibble only; hashed keys never do
            c.event("leaf without path");
        } else if let Some(v) = map.get(&key) {
            c.check(found.as_ref() == Some(v), "value-not-found", || format!("path {}: {found:?}", hex(&key)));
            c.event("value reached");
        } else {
            c.check(found.is_none(), "value-invented", || format!("path {}: {found:?}", hex(&key)));
        }
    }
    // damaged nodes never crash
    let enc = mpt::node(&pairs);
    let m = crate::keys::mutate(r, &enc);
    if m.len() <= 1024 {
        c.eval("damaged node", &m);
        let p = &pairs[0].0;
        c.no_panic("damaged-node-panics", || hex(&m), || {
            if let Ok(n) = EncodedTrieNode::from(m.clone()).as_trie_node() {
                let _ = res(n.traverse(p));
                if !matches!(n, Node::Hash(_)) {
                    let _ = EncodedTrieNode::from(&n);
                }
            }
        });
    }
}

pub fn trie_paths(c: &mut Ctx) {
    c.rule("paths, nodes and accounts are compared with the checker's own packing, trie builder and walker: following a path from the root reaches exactly the stored value or nothing");
    c.assume("the trie node type and its decoder are a stand-in for the external library; traversal, re-encoding and hashing are the repository's");
    let mut r = c.rng.fork("trie");
    nibbles(c, &mut r);
    for _ in 0..c.n(8_000, 200_000) {
        if c.saturated() {
            break;
        }
        tries(c, &mut r);
    }
    c.check(AccountState::default() == AccountState { nonce: 0, balance: U256::ZERO, storage_root: B256::from(oracle::exec::empty_trie()), code_hash: B256::from(keccak256(&[])) }, "empty-account", || "default account".into());
    for _ in 0..c.n(3_000, 100_000) {
        if c.saturated() {
            break;
        }
        let nonce = r.edgy_u64();
        let bal: [u8; 32] = {
            let mut b: [u8; 32] = r.array();
            let k = r.usize_in(0, 32);
            b[..k].fill(0);
            b
        };
        let (s, h): ([u8; 32], [u8; 32]) = (r.array(), r.array());
        let raw = rlp::list(&[rlp::uint(nonce as u128), rlp::uint_be(&bal), rlp::bytes(&s), rlp::bytes(&h)]);
        c.eval("account", &raw);
        let want = AccountState { nonce, balance: U256::from_be_bytes(bal), storage_root: s.into(), code_hash: h.into() };
        c.check(alloy_rlp::encode(&want) == raw, "account-bytes", || hex(&raw));
        c.check(AccountState::decode(&mut raw.as_slice()).is_ok_and(|a| a == want), "account-reading", || hex(&raw));
        let m = crate::keys::mutate(&mut r, &raw);
        if let Some(Ok(a)) = c.no_panic("account-panics", || hex(&m), || AccountState::decode(&mut m.as_slice())) {
            let again = alloy_rlp::encode(&a);
            c.check(m.starts_with(&again), "account-malleable", || format!("{} read, written {}", hex(&m), hex(&again)));
        }
    }
    for k in ["nibbles", "packed path", "node", "traversal", "next node", "value reached", "nothing there", "damaged node", "account"] {
        c.require(k, 100);
    }
}
