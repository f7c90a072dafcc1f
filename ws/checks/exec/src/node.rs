//! A database of states, and comparing what it says with what is true.
use std::{
    collections::BTreeSet,
    path::{Path, PathBuf},
    sync::{
        atomic::{AtomicU64, Ordering},
        Arc,
    },
};

use alloy::{
    consensus::Header,
    primitives::{keccak256, Address, B256, U256},
};
use eth_trie::Trie;
use revm::{
    database::{BundleAccount, BundleState},
    state::{AccountInfo, Bytecode},
    DatabaseRef,
};
use trin_execution::{
    config::StateConfig,
    storage::{evm_db::EvmDB, execution_position::ExecutionPosition, utils::setup_rocksdb},
};
use vcommon::Ctx;

use super::world::{Acc, World};

static NUMBER: AtomicU64 = AtomicU64::new(0);
/// A place for a database.  Stores live in memory, so nothing is written there.
pub fn place() -> PathBuf {
    PathBuf::from(format!("/nowhere/{}", NUMBER.fetch_add(1, Ordering::SeqCst)))
}
pub struct Node {
    pub dir: PathBuf,
    pub db: EvmDB,
    pub at: ExecutionPosition,
}
pub fn open(dir: &Path, config: StateConfig) -> anyhow::Result<Node> {
    let store = Arc::new(setup_rocksdb(dir)?);
    let at = ExecutionPosition::initialize_from_db(store.clone())?;
    let db = EvmDB::new(config, store, &at)?;
    Ok(Node { dir: dir.to_path_buf(), db, at })
}
pub fn forget(dir: &Path) {
    rocksdb::forget(&dir.join("rocksdb"));
}
pub fn info(a: &Acc) -> AccountInfo {
    AccountInfo { balance: a.balance, nonce: a.nonce, code_hash: keccak256(&a.code), code: Some(Bytecode::new_raw(a.code.clone().into())) }
}
/// The changes that lead from one world to another; accounts in `again` are gone in between.
pub fn bundle(old: &World, new: &World, again: &BTreeSet<Address>) -> BundleState {
    let mut b = BundleState::default();
    let all: BTreeSet<_> = old.accs.keys().chain(new.accs.keys()).copied().collect();
    for a in all {
        let (o, n) = (old.accs.get(&a), new.accs.get(&a));
        if o == n && !again.contains(&a) {
            continue;
        }
        let destroyed = o.is_some() && (n.is_none() || again.contains(&a));
        let mut x = BundleAccount { info: n.map(info), original_info: o.map(info), was_destroyed: destroyed, ..Default::default() };
        let before = |k: &U256| if destroyed { U256::ZERO } else { o.and_then(|o| o.slots.get(k)).copied().unwrap_or_default() };
        let mut keys: BTreeSet<U256> = n.iter().flat_map(|n| n.slots.keys().copied()).collect();
        if !destroyed {
            keys.extend(o.iter().flat_map(|o| o.slots.keys().copied()));
        }
        for k in keys {
            x.storage.insert(k, (before(&k), n.and_then(|n| n.slots.get(&k)).copied().unwrap_or_default()));
        }
        if let Some(n) = n {
            if !n.code.is_empty() && (destroyed || o.map(|o| &o.code) != Some(&n.code)) {
                b.contracts.insert(keccak256(&n.code), Bytecode::new_raw(n.code.clone().into()));
            }
        }
        b.state.insert(a, x);
    }
    b
}
/// A database that holds a world, with `next` as the block to be executed next.
pub fn seeded(w: &World, next: u64, config: StateConfig) -> anyhow::Result<Node> {
    let mut n = open(&place(), config)?;
    n.db.commit_bundle(bundle(&World::default(), w, &BTreeSet::new()))?;
    let root = n.db.trie.lock().root_hash()?;
    n.db.clear_contract_cache();
    n.at.update_position(n.db.db.clone(), &Header { number: next - 1, state_root: root, ..Default::default() })?;
    Ok(n)
}
/// Whether accounts, code and slots read as they should.
pub fn compare(ctx: &mut Ctx, db: &EvmDB, w: &World, seen: &BTreeSet<Address>, keys: &[U256], what: &str) -> bool {
    let mut ok = true;
    for a in seen.iter().chain(w.accs.keys().filter(|a| !seen.contains(*a))) {
        let got = match db.basic_ref(*a) {
            Ok(g) => g,
            Err(e) => {
                ctx.violation("account-unreadable", j!({"after": what, "account": a.to_string(), "error": e.to_string()}));
                return false;
            }
        };
        let want = w.accs.get(a);
        ctx.event(if want.is_some() { "account read" } else { "absent account read" });
        ok &= ctx.check(
            got.as_ref().map(|g| (g.balance, g.nonce, g.code_hash)) == want.map(|x| (x.balance, x.nonce, keccak256(&x.code))),
            "account-wrong",
            || j!({"after": what, "account": a.to_string(), "got": format!("{got:?}"), "want": format!("{want:?}")}),
        );
        let Some(x) = want else { continue };
        if !x.code.is_empty() {
            let code = db.code_by_hash_ref(keccak256(&x.code)).map(|c| c.original_bytes().to_vec()).ok();
            ok &= ctx.check(code.as_ref() == Some(&x.code), "code-wrong", || j!({"after": what, "account": a.to_string()}));
        }
        if !x.code.is_empty() || !x.slots.is_empty() {
            for k in keys.iter().chain(x.slots.keys().filter(|k| !keys.contains(k))) {
                let v = x.slots.get(k).copied().unwrap_or_default();
                let got = db.storage_ref(*a, *k);
                ctx.event("slot read");
                ok &= ctx.check(got.as_ref().ok() == Some(&v), "slot-wrong", || j!({"after": what, "account": a.to_string(), "slot": k.to_string(), "want": v.to_string(), "got": format!("{got:?}")}));
            }
        }
        if !ok {
            return false;
        }
    }
    ok
}
pub fn hash(b: &[u8]) -> B256 {
    oracle::keccak256(b).into()
}
