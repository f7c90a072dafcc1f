//! Walking over tries, and the content made from changes.
use std::{
    collections::{BTreeMap, BTreeSet},
    sync::Arc,
};

use alloy::{
    consensus::Header,
    primitives::{keccak256, B256, U256},
};
use eth_trie::Trie;
use ethportal_api::{ContentValue, OverlayContentKey, StateContentKey, StateContentValue};
use revm::state::Bytecode;
use trin_execution::{
    config::StateConfig,
    content::*,
    storage::{account_db::AccountDB, trie_db::TrieRocksDB},
    trie_walker::{filter::Filter, TrieWalker},
    types::trie_proof::TrieProof,
};
use trin_state::validation::StateValidator;
use trin_validation::{
    oracle::HeaderOracle,
    validator::{ValidationResult, Validator},
};
use vcommon::{hex, json, Ctx, Rng};

use super::{
    chain::{address, value},
    keep::{change, keys},
    node::{bundle, forget, hash, open, place, seeded, Node},
    world::*,
};

type Nodes = Vec<(Vec<u8>, Vec<Vec<u8>>)>;
fn plain(p: &TrieProof) -> (Vec<u8>, Vec<Vec<u8>>) {
    (p.path.clone(), p.proof.iter().map(|b| b.to_vec()).collect())
}
fn some_world(r: &mut Rng) -> World {
    let mut w = World::default();
    for _ in 0..*r.pick(&[1usize, 2, 3, 20, 60, 250]) {
        let mut x = Acc { nonce: r.below(300), balance: value(r), ..Default::default() };
        if r.chance(1, 6) {
            x.code = r.bytes(10);
            for k in 0..*r.pick(&[0usize, 1, 2, 5, 40, 120]) {
                x.slots.insert(U256::from(k), value(r));
            }
            x.slots.retain(|_, v| !v.is_zero());
        }
        w.accs.insert(address(r), x);
    }
    w
}
/// The numbers that start with a path: first and last.
fn span(path: &[u8]) -> (U256, U256) {
    let mut b = [0u8; 32];
    let mut e = [0xffu8; 32];
    for (i, n) in path.iter().enumerate() {
        let s = 4 * (1 - i % 2);
        b[i / 2] |= n << s;
        e[i / 2] = (e[i / 2] & !(15 << s)) | n << s;
    }
    (U256::from_be_bytes(b), U256::from_be_bytes(e))
}
/// Compares a walk with all there is.  In a slice, nodes that lie in the second range only may be
/// there, and those in the first must be.
fn judge(ctx: &mut Ctx, got: Vec<TrieProof>, all: &Nodes, slice: Option<[(U256, U256); 2]>, what: &str) {
    let want: BTreeMap<&Vec<u8>, &Vec<Vec<u8>>> = all.iter().map(|(p, n)| (p, n)).collect();
    let mut visited = BTreeSet::new();
    let meets = |path: &[u8], (lo, hi): (U256, U256)| {
        let (a, b) = span(path);
        lo <= hi && a <= hi && b >= lo
    };
    for g in &got {
        let (path, proof) = plain(g);
        ctx.event("node visited");
        ctx.check(want.get(&path) == Some(&&proof), "wrong-node-visited", || j!({"walk": what, "path": format!("{path:?}"), "nodes": proof.len()}));
        if let Some([_, may]) = slice {
            ctx.check(meets(&path, may), "node-outside-slice", || j!({"walk": what, "path": format!("{path:?}")}));
        }
        ctx.check(visited.insert(path.clone()), "node-visited-twice", || j!({"walk": what, "path": format!("{path:?}")}));
    }
    for (path, _) in all {
        if slice.is_none_or(|[must, _]| meets(path, must)) {
            ctx.check(visited.contains(path), "node-left-out", || j!({"walk": what, "path": format!("{path:?}")}));
        }
    }
}
pub fn walks(ctx: &mut Ctx) {
    ctx.level("tries and slices drawn at random");
    let mut rng = ctx.rng.fork("walks");
    for i in 0..ctx.n(60, 1500) {
        if ctx.saturated() {
            break;
        }
        let mut r = rng.fork(&format!("trie {i}"));
        let _ = rng.u64();
        walk_one(ctx, &mut r);
    }
    ctx.require("whole walk", 50);
    ctx.require("sliced walk", 300);
    ctx.require("random slice", 30);
    ctx.require("storage walk", 50);
    ctx.require("missing node noticed", 10);
    ctx.require("node visited", 5000);
}
fn walk_one(ctx: &mut Ctx, r: &mut Rng) {
    let w = some_world(r);
    let n = match seeded(&w, 1, StateConfig::default()) {
        Ok(n) => n,
        Err(e) => return ctx.violation("state-refused", j!({"error": format!("{e:#}")})),
    };
    let root = w.root();
    let all = all_nodes(&w.pairs());
    let start = |f: Option<Filter>| TrieWalker::new(root, Arc::new(TrieRocksDB::new(false, n.db.db.clone())), f);
    let what = format!("{} accounts, root {root}", w.accs.len());
    ctx.eval("trie", &root.0);
    ctx.event("whole walk");
    let Some(got) = ctx.no_panic("panic-while-walking", || what.clone(), || start(None).map(|x| x.collect::<Vec<_>>())) else { return forget(&n.dir) };
    match got {
        Ok(g) => judge(ctx, g, &all, None, &what),
        Err(e) => ctx.violation("walk-refused", j!({"walk": what, "error": format!("{e:#}")})),
    }
    // slices: together they hold everything, each what lies in it
    let count = *r.pick(&[1u16, 2, 3, 4, 5, 7, 16, 17, 255, 256, 1000, 65535]);
    let mut chosen: Vec<u16> = if count <= 20 { (0..count).collect() } else { vec![0, count - 1, count / 2, r.below(count as u64) as u16, r.below(count as u64) as u16] };
    chosen.sort();
    chosen.dedup();
    let mut together: BTreeSet<Vec<u8>> = BTreeSet::new();
    for i in &chosen {
        let what = format!("{what}, slice {i} of {count}");
        ctx.eval("slice", &(root.0, i, count));
        ctx.event("sliced walk");
        let Some(Ok(got)) = ctx.no_panic("panic-while-walking", || what.clone(), || start(Some(Filter::new(*i, count))).map(|x| x.collect::<Vec<_>>())) else {
            ctx.violation("walk-refused", j!({"walk": what}));
            continue;
        };
        together.extend(got.iter().map(|p| p.path.clone()));
        // slices are equal parts of all hashes; what is within one unit of an edge belongs to either
        let size = U256::MAX / U256::from(count);
        let (lo, hi) = (U256::from(*i) * size, if *i + 1 == count { U256::MAX } else { U256::from(*i + 1) * size });
        let slack = U256::from(count);
        judge(ctx, got, &all, Some([(lo.saturating_add(slack), hi.saturating_sub(slack)), (lo.saturating_sub(slack), hi.saturating_add(slack))]), &what);
    }
    if chosen.len() == count as usize {
        for (path, _) in &all {
            ctx.check(together.contains(path), "slices-leave-node-out", || j!({"walk": what, "slices": count, "path": format!("{path:?}")}));
        }
    }
    // a slice taken at random is one of them
    let count = *r.pick(&[0u16, 1, 2, 3, 5]);
    let visited = |f: Filter| start(Some(f)).ok().map(|x| x.map(|p| p.path).collect::<BTreeSet<_>>());
    let got = ctx.no_panic("panic-while-walking", || what.clone(), || visited(Filter::random(count)));
    let any = (0..count.max(1)).any(|i| got == Some(visited(Filter::new(i, count))));
    ctx.event("random slice");
    ctx.check(any && got.is_some_and(|g| g.is_some()), "random-slice-is-none", || j!({"walk": what, "slices": count}));
    // storage
    for (a, x) in w.accs.iter().filter(|(_, x)| !x.slots.is_empty()) {
        let what = format!("storage of {a}, {} slots", x.slots.len());
        let nodes = all_nodes(&x.storage_pairs());
        ctx.event("storage walk");
        ctx.eval("storage trie", &x.storage_root());
        let db = AccountDB::new(keccak256(a), n.db.db.clone());
        match ctx.no_panic("panic-while-walking", || what.clone(), || TrieWalker::new(x.storage_root().into(), Arc::new(db), None).map(|x| x.collect::<Vec<_>>())) {
            Some(Ok(g)) => judge(ctx, g, &nodes, None, &what),
            Some(Err(e)) => ctx.violation("walk-refused", j!({"walk": what, "error": format!("{e:#}")})),
            None => {}
        }
    }
    // part of a trie: what can be reached through the nodes that are there
    let mut some = hashbrown::HashMap::new();
    let keep = *r.pick(&[0u64, 3, 7, 10]);
    for (_, proof) in &all {
        let node = &proof[proof.len() - 1];
        if r.below(10) < keep {
            some.insert(hash(node), node.clone());
        }
    }
    let reach: Nodes = all.iter().filter(|(_, p)| p.iter().all(|n| some.contains_key(&hash(n)))).cloned().collect();
    ctx.event("partial walk");
    match ctx.no_panic("panic-while-walking", || what.clone(), || TrieWalker::new_partial_trie(root, some).map(|x| x.collect::<Vec<_>>())) {
        Some(Ok(g)) => judge(ctx, g, &reach, None, &format!("part of {what}")),
        Some(Err(e)) => ctx.violation("walk-refused", j!({"walk": what, "error": format!("{e:#}")})),
        None => {}
    }
    // a whole walk over a trie with a hole does not end as if it were complete
    if all.len() > 1 {
        let (_, proof) = r.pick(&all);
        let gone = hash(&proof[proof.len() - 1]);
        let _ = n.db.db.delete(gone);
        let ended = vcommon::guard(|| start(None).map(|x| x.count()));
        ctx.event("missing node noticed");
        ctx.check(!matches!(ended, Ok(Ok(_))), "incomplete-walk-ends-normally", || j!({"walk": what, "missing": gone.to_string()}));
    }
    ctx.sample("trie", || json!({"accounts": w.accs.len(), "nodes": all.len(), "slices": count}));
    forget(&n.dir);
}

pub fn contents(ctx: &mut Ctx) {
    ctx.level("states and changes drawn at random");
    let mut rng = ctx.rng.fork("contents");
    for i in 0..ctx.n(60, 1500) {
        if ctx.saturated() {
            break;
        }
        let mut r = rng.fork(&format!("change {i}"));
        let _ = rng.u64();
        content_one(ctx, &mut r);
    }
    ctx.require("account node offered", 1000);
    ctx.require("storage node offered", 300);
    ctx.require("code offered", 50);
}
/// The form of a content name.
fn name(kind: u8, path: &[u8], node: B256, owner: Option<B256>) -> Vec<u8> {
    let mut p = vec![];
    if path.len() % 2 == 1 {
        p.push(0x10 | path[0]);
        p.extend(path[1..].chunks(2).map(|c| c[0] << 4 | c[1]));
    } else {
        p.push(0);
        p.extend(path.chunks(2).map(|c| c[0] << 4 | c[1]));
    }
    let mut out = vec![kind];
    if let Some(o) = owner {
        out.extend(o.0);
    }
    if kind == 0x22 {
        out.extend(node.0);
        return out;
    }
    out.extend((if owner.is_some() { 68u32 } else { 36 }).to_le_bytes());
    out.extend(node.0);
    out.extend(p);
    out
}
fn content_one(ctx: &mut Ctx, r: &mut Rng) {
    let rt = tokio::runtime::Builder::new_current_thread().build().expect("runtime");
    let v = StateValidator { header_oracle: Arc::new(tokio::sync::RwLock::new(HeaderOracle::default())) };
    let keys = keys(r);
    let dir = place();
    let mut n: Node = match open(&dir, StateConfig { cache_contract_changes: true, ..Default::default() }) {
        Ok(n) => n,
        Err(e) => return ctx.violation("state-refused", j!({"error": format!("{e:#}")})),
    };
    let mut w = if r.bool() { World::default() } else { some_world(r) };
    if n.db.commit_bundle(bundle(&World::default(), &w, &BTreeSet::new())).is_err() || n.db.trie.lock().root_hash().is_err() {
        ctx.violation("commit-failed", "the first state");
        return forget(&dir);
    }
    n.db.clear_contract_cache();
    let mut seen: BTreeSet<_> = w.accs.keys().copied().collect();
    for number in 0..r.range(2, 6) {
        let (next, again) = change(r, &w, &keys, &seen, 12);
        seen.extend(next.accs.keys().copied());
        let b = bundle(&w, &next, &again);
        let new_codes: BTreeSet<B256> = b.contracts.keys().copied().collect();
        let what = || j!({"number": number, "changed": b.state.len()});
        let what = what();
        let header = Header { number, state_root: next.root(), ..Default::default() };
        let block = header.hash_slow();
        ctx.eval("change", &(w.root().0, next.root().0));
        if n.db.commit_bundle(b).is_err() {
            ctx.violation("commit-failed", what);
            break;
        }
        let Ok(diff) = n.db.trie.lock().root_hash_with_changed_nodes() else {
            ctx.violation("commit-failed", what);
            break;
        };
        // what others need after this block: everything that was not in the state before
        let last = |p: &Vec<Vec<u8>>| p[p.len() - 1].clone();
        let old: BTreeSet<Vec<u8>> = all_nodes(&w.pairs()).iter().map(|(_, p)| last(p)).collect();
        let mut need: BTreeMap<Vec<u8>, Vec<u8>> = BTreeMap::new();
        for (path, p) in all_nodes(&next.pairs()).iter().filter(|(_, p)| !old.contains(&last(p))) {
            need.insert(name(0x20, path, hash(&last(p)), None), last(p));
        }
        for (a, x) in &next.accs {
            let owner = hash(a.as_slice());
            if w.accs.get(a) == Some(x) && !again.contains(a) {
                continue;
            }
            let had: BTreeSet<Vec<u8>> = all_nodes(&w.get(a).storage_pairs()).iter().map(|(_, p)| last(p)).collect();
            for (path, p) in all_nodes(&x.storage_pairs()).iter().filter(|(_, p)| !had.contains(&last(p))) {
                need.insert(name(0x21, path, hash(&last(p)), Some(owner)), last(p));
            }
            if !x.code.is_empty() && new_codes.contains(&hash(&x.code)) && w.get(a).code != x.code {
                need.insert(name(0x22, &[], hash(&x.code), Some(owner)), x.code.clone());
            }
        }
        let Some(made) = ctx.no_panic("panic-while-making-content", || what.clone(), || make(&n, diff, block)) else { break };
        let made = match made {
            Ok(m) => m,
            Err(e) => {
                ctx.violation("content-not-made", j!({"error": format!("{e:#}"), "change": what}));
                break;
            }
        };
        let mut have = BTreeSet::new();
        for (k, val) in &made {
            let bytes = val.encode();
            let kb = k.to_bytes();
            ctx.event(match kb[0] {
                0x20 => "account node offered",
                0x21 => "storage node offered",
                _ => "code offered",
            });
            let ok = matches!(rt.block_on(v.validate_content(k, &bytes)), ValidationResult::CanonicallyValid);
            ctx.check(ok, "content-refused-by-network", || j!({"key": hex(&kb), "value": hex(&bytes), "change": what}));
            let (first, of) = match val {
                StateContentValue::AccountTrieNodeWithProof(p) => (p.proof.first().map(|n| n.node_hash()), p.block_hash),
                StateContentValue::ContractStorageTrieNodeWithProof(p) => (p.account_proof.first().map(|n| n.node_hash()), p.block_hash),
                StateContentValue::ContractBytecodeWithProof(p) => (p.account_proof.first().map(|n| n.node_hash()), p.block_hash),
                _ => (None, B256::ZERO),
            };
            ctx.check(first == Some(header.state_root) && of == block, "proof-for-another-block", || j!({"key": hex(&kb), "change": what}));
            if let Some(x) = need.get(kb.as_ref()) {
                let holds = match val {
                    StateContentValue::AccountTrieNodeWithProof(p) => p.proof.last().map(|n| n.to_vec()),
                    StateContentValue::ContractStorageTrieNodeWithProof(p) => p.storage_proof.last().map(|n| n.to_vec()),
                    StateContentValue::ContractBytecodeWithProof(p) => Some(p.code.to_vec()),
                    _ => None,
                };
                ctx.check(holds.as_ref() == Some(x), "content-under-wrong-name", || j!({"key": hex(&kb), "change": what}));
            }
            ctx.check(have.insert(kb.to_vec()), "content-made-twice", || j!({"key": hex(&kb), "change": what}));
        }
        for k in need.keys() {
            ctx.check(have.contains(k), "content-left-out", || j!({"key": hex(k), "change": what}));
        }
        ctx.sample("change", || json!({"needed": need.len(), "made": made.len()}));
        n.db.clear_contract_cache();
        w = next;
    }
    forget(&dir);
}
/// All content for a change, as whoever gossips it makes it.
fn make(n: &Node, diff: eth_trie::RootWithTrieDiff, block: B256) -> anyhow::Result<Vec<(StateContentKey, StateContentValue)>> {
    let mut out = vec![];
    for account in TrieWalker::new_partial_trie(diff.root, diff.trie_diff)? {
        out.push((create_account_content_key(&account)?, create_account_content_value(block, &account)?));
        // leaves tell about an account
        let node = account.proof.last().expect("a node").to_vec();
        let Some(rlp) = oracle::rlp::parse_all(&node) else { continue };
        let items = match rlp {
            oracle::rlp::Item::List(l) if l.len() == 2 => l,
            _ => continue,
        };
        let (oracle::rlp::Item::Bytes(path), oracle::rlp::Item::Bytes(val)) = (&items[0], &items[1]) else { continue };
        if path[0] >> 4 < 2 {
            continue;
        }
        let mut rest: Vec<u8> = path.iter().flat_map(|b| [b >> 4, b & 15]).collect();
        rest.drain(..if path[0] >> 4 == 3 { 1 } else { 2 });
        let owner = trin_execution::utils::full_nibble_path_to_address_hash(&[account.path.clone(), rest].concat());
        let Some(oracle::rlp::Item::List(state)) = oracle::rlp::parse_all(val) else { continue };
        let word = |i: &oracle::rlp::Item| match i {
            oracle::rlp::Item::Bytes(s) => B256::from_slice(s),
            _ => B256::ZERO,
        };
        let (storage_root, code_hash) = (word(&state[2]), word(&state[3]));
        if code_hash != keccak256([]) {
            if let Some(code) = n.db.get_newly_created_contract(code_hash) {
                let code: Bytecode = code;
                out.push((create_contract_content_key(owner, code_hash)?, create_contract_content_value(block, &account, code)?));
            }
        }
        for storage in TrieWalker::new_partial_trie(storage_root, n.db.get_storage_trie_diff(owner))? {
            out.push((create_storage_content_key(&storage, owner)?, create_storage_content_value(block, &account, &storage)?));
        }
    }
    Ok(out)
}
