//! Committing changes to a database of states.
use std::collections::BTreeSet;

use alloy::{
    consensus::Header,
    primitives::{keccak256, Address, B256, U256},
};
use eth_trie::Trie;
use trin_execution::config::StateConfig;
use vcommon::{json, Ctx, Rng};

use super::{
    chain::{address, value},
    node::{bundle, compare, forget, hash, open, place},
    world::*,
};

/// A world with a few of its accounts changed; also which accounts were destroyed on the way.
pub fn change(r: &mut Rng, old: &World, keys: &[U256], seen: &BTreeSet<Address>, most: usize) -> (World, BTreeSet<Address>) {
    let mut w = old.clone();
    let mut again = BTreeSet::new();
    let seen: Vec<_> = seen.iter().copied().collect();
    for _ in 0..r.usize_in(0, most) {
        let a = if seen.is_empty() || r.chance(1, 3) { address(r) } else { *r.pick(&seen) };
        let x = w.accs.entry(a).or_default();
        match r.below(10) {
            0 => {
                w.accs.remove(&a);
            }
            1 => {
                // destroyed and made again
                *x = Acc { nonce: 1, balance: value(r), code: code(r), slots: Default::default() };
                for _ in 0..r.index(6) {
                    x.slots.insert(*r.pick(keys), value(r));
                }
                if old.accs.contains_key(&a) {
                    again.insert(a);
                }
            }
            2 => x.balance = value(r),
            3 => x.nonce = *r.pick(&[0, 1, 127, 128, 255, 256, u64::MAX]),
            4 if x.code.is_empty() => x.code = code(r),
            5 => {
                for v in x.slots.values_mut() {
                    *v = U256::ZERO;
                }
            }
            6 => {
                for i in 0..r.usize_in(1, 60) {
                    x.slots.insert(U256::from(i), value(r));
                }
            }
            _ => {
                for _ in 0..r.usize_in(1, 5) {
                    x.slots.insert(*r.pick(keys), value(r));
                }
            }
        }
    }
    for x in w.accs.values_mut() {
        x.slots.retain(|_, v| !v.is_zero());
    }
    (w, again)
}
fn code(r: &mut Rng) -> Vec<u8> {
    match r.below(4) {
        0 => vec![0x60],
        1 => vec![7; 40],
        _ => {
            let n = r.usize_in(1, 200);
            r.bytes(n)
        }
    }
}
pub fn keys(r: &mut Rng) -> Vec<U256> {
    let mut k: Vec<U256> = (0..r.range(3, 12)).map(U256::from).collect();
    k.push(U256::MAX);
    k.push(U256::from_be_bytes(r.array::<32>()));
    k
}
pub fn changes(ctx: &mut Ctx) {
    ctx.level("changes, restarts and lookups drawn at random");
    let mut rng = ctx.rng.fork("changes");
    for i in 0..ctx.n(90, 2500) {
        if ctx.saturated() {
            break;
        }
        let mut r = rng.fork(&format!("history {i}"));
        let _ = rng.u64();
        history(ctx, &mut r);
    }
    ctx.require("commit", 400);
    ctx.require("restart", 50);
    ctx.require("account gone", 50);
    ctx.require("account made again", 30);
    ctx.require("storage changed", 200);
    ctx.require("code added", 100);
}
fn history(ctx: &mut Ctx, r: &mut Rng) {
    let dir = place();
    let config = StateConfig { cache_contract_changes: r.chance(2, 3), ..Default::default() };
    let keys = keys(r);
    let mut w = World::default();
    let mut seen = BTreeSet::new();
    let mut n = match open(&dir, config.clone()) {
        Ok(n) => n,
        Err(e) => return ctx.violation("state-refused", j!({"error": format!("{e:#}")})),
    };
    // what the caches have collected since they were emptied
    let mut base = w.clone();
    let mut codes: BTreeSet<Vec<u8>> = BTreeSet::new();
    let steps = r.usize_in(4, 12);
    let most = *r.pick(&[3, 8, 40]);
    let mut log = vec![];
    for step in 0..steps {
        let (next, again) = change(r, &w, &keys, &seen, most);
        seen.extend(next.accs.keys().copied());
        let b = bundle(&w, &next, &again);
        for c in b.contracts.values() {
            codes.insert(c.original_bytes().to_vec());
            ctx.event("code added");
        }
        for (a, x) in &b.state {
            if x.info.is_none() {
                ctx.event("account gone");
            } else if again.contains(a) {
                ctx.event("account made again");
            } else if !x.storage.is_empty() {
                ctx.event("storage changed");
            }
        }
        log.push(format!("{} accounts changed, {} made again", b.state.len(), again.len()));
        let what = || j!({"steps": log});
        if b.state.is_empty() {
            ctx.eval_trivial("commit");
        } else {
            ctx.eval("commit", &(w.root().0, next.root().0));
        }
        ctx.event("commit");
        let mut db = n.db.clone();
        match ctx.no_panic("panic-while-committing", what, || db.commit_bundle(b)) {
            Some(Ok(())) => {}
            Some(Err(e)) => {
                ctx.violation("commit-failed", j!({"error": format!("{e:#}"), "steps": log}));
                break;
            }
            None => break,
        }
        let want = next.root();
        let got = n.db.trie.lock().root_hash_with_changed_nodes();
        let Ok(got) = got else {
            ctx.violation("commit-failed", j!({"error": format!("{:?}", got.err()), "steps": log}));
            break;
        };
        if !ctx.check(got.root == want, "state-root-wrong", || j!({"got": got.root.to_string(), "want": want.to_string(), "steps": log})) {
            break;
        }
        // every node that is new is among those reported as changed
        let old: BTreeSet<Vec<u8>> = all_nodes(&w.pairs()).into_iter().map(|(_, p)| p[p.len() - 1].clone()).collect();
        for (path, proof) in all_nodes(&next.pairs()) {
            let node = &proof[proof.len() - 1];
            if !old.contains(node) {
                ctx.event("new node");
                ctx.check(got.trie_diff.get(&hash(node)) == Some(node), "new-node-not-reported", || j!({"path": format!("{path:?}"), "steps": log}));
            }
        }
        w = next;
        if !compare(ctx, &n.db, &w, &seen, &keys, &j!({"steps": log})) {
            break;
        }
        // what is said about storage and code that changed
        let judged: Vec<_> = w.accs.iter().filter(|(_, x)| !x.slots.is_empty()).map(|(a, _)| *a).collect();
        for a in judged.iter().filter(|_| r.chance(1, 3)) {
            let diff = n.db.get_storage_trie_diff(keccak256(a));
            if !config.cache_contract_changes {
                ctx.check(diff.is_empty(), "changes-kept-though-off", || j!({"account": a.to_string()}));
                continue;
            }
            let before: BTreeSet<Vec<u8>> = all_nodes(&base.get(a).storage_pairs()).into_iter().map(|(_, p)| p[p.len() - 1].clone()).collect();
            for (path, proof) in all_nodes(&w.get(a).storage_pairs()) {
                let node = &proof[proof.len() - 1];
                if !before.contains(node) {
                    ctx.event("new storage node");
                    ctx.check(diff.get(&hash(node)) == Some(node), "new-storage-node-not-reported", || j!({"account": a.to_string(), "path": format!("{path:?}"), "steps": log}));
                }
            }
            for (h, node) in &diff {
                ctx.check(hash(node) == *h, "node-under-wrong-hash", || j!({"account": a.to_string(), "hash": h.to_string()}));
            }
        }
        for c in &codes {
            let got = n.db.get_newly_created_contract(keccak256(c)).map(|b| b.original_bytes().to_vec());
            let want = config.cache_contract_changes.then(|| c.clone());
            ctx.check(got == want, "new-code-not-reported", || j!({"code": vcommon::hex(c), "on": config.cache_contract_changes, "steps": log}));
        }
        if r.chance(1, 3) {
            log.push("caches emptied".into());
            n.db.clear_contract_cache();
            base = w.clone();
            for c in &codes {
                ctx.check(n.db.get_newly_created_contract(keccak256(c)).is_none(), "cache-not-emptied", || j!({"steps": log}));
            }
            for a in &judged {
                ctx.check(n.db.get_storage_trie_diff(keccak256(a)).is_empty(), "cache-not-emptied", || j!({"steps": log}));
            }
            codes.clear();
        }
        let header = Header { number: step as u64, state_root: w.root(), ..Default::default() };
        let moved = n.at.update_position(n.db.db.clone(), &header);
        ctx.check(moved.is_ok() && n.at.next_block_number() == step as u64 + 1 && n.at.state_root() == w.root(), "position-wrong", || j!({"steps": log}));
        if r.chance(1, 4) {
            ctx.event("restart");
            log.push("restart".into());
            drop(db);
            drop(n);
            n = match open(&dir, config.clone()) {
                Ok(n) => n,
                Err(e) => return ctx.violation("state-refused", j!({"error": format!("{e:#}"), "steps": log})),
            };
            base = w.clone();
            codes.clear();
            ctx.check(n.at.next_block_number() == step as u64 + 1 && n.at.state_root() == w.root(), "position-wrong", || j!({"steps": log}));
            let got: Option<B256> = n.db.trie.lock().root_hash().ok();
            ctx.check(got == Some(w.root()), "state-root-wrong", || j!({"got": format!("{got:?}"), "steps": log}));
            if !compare(ctx, &n.db, &w, &seen, &keys, &j!({"steps": log})) {
                return forget(&dir);
            }
        }
        ctx.sample("commit", || json!({"accounts": w.accs.len(), "slots": w.accs.values().map(|a| a.slots.len()).sum::<usize>(), "root": w.root().to_string()}));
    }
    forget(&dir);
}
