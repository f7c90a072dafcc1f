//! Going on with execution after it was stopped in any way.
use std::{
    collections::{BTreeMap, BTreeSet},
    path::Path,
    sync::{
        atomic::{AtomicU64, Ordering},
        Arc, Mutex,
    },
};

use alloy::{
    consensus::Header,
    primitives::{keccak256, Address, B256, U256},
};
use trin_execution::{config::StateConfig, e2hs::types::ProcessedBlock, execution::TrinExecution, types::block_to_trace::BlockToTrace};
use vcommon::{json, Ctx, Rng};

use super::{
    chain::{time, Chain, Made},
    node::{compare, forget, seeded},
    serve::{Archive, Fault, Site, PER_FILE},
    world::*,
};

pub fn runtime() -> tokio::runtime::Runtime {
    tokio::runtime::Builder::new_current_thread().enable_all().start_paused(true).build().expect("runtime")
}
fn hash_key(n: u64) -> Vec<u8> {
    keccak256(B256::from(U256::from(n))).to_vec()
}
/// The writes of a run: how many are allowed, and what was seen of them.
#[derive(Default)]
struct Writes {
    count: AtomicU64,
    /// Whether something else than block hashes was written since the position was.
    dirty: Mutex<bool>,
    /// The writes before which nothing of the kind had happened.
    clean: Mutex<Vec<u64>>,
}
/// From now on writes are counted; from number `end` on they fail.  Blocks in `early` are
/// followed by a commit.
fn watch(numbers: (u64, u64), end: Option<u64>, early: &BTreeSet<u64>) -> Arc<Writes> {
    let w = Arc::new(Writes::default());
    let me = w.clone();
    let hashes: BTreeMap<Vec<u8>, u64> = (numbers.0.saturating_sub(300)..=numbers.1).map(|n| (hash_key(n), n)).collect();
    let early = early.clone();
    revm::database::size_bias(0);
    rocksdb::on_write(Some(Arc::new(move |_: &Path, k: &[u8], v: Option<&[u8]>| {
        let at = me.count.fetch_add(1, Ordering::SeqCst);
        if end.is_some_and(|e| at >= e) {
            return false;
        }
        if !*me.dirty.lock().unwrap() {
            me.clean.lock().unwrap().push(at);
        }
        if k == b"EXECUTION_POSITION" {
            *me.dirty.lock().unwrap() = false;
        } else if let Some(n) = hashes.get(k) {
            if v.is_some() {
                revm::database::size_bias(if early.contains(n) { 10_000_000 } else { 0 });
            }
        } else {
            *me.dirty.lock().unwrap() = true;
        }
        true
    })));
    w
}
fn unwatch() {
    rocksdb::on_write(None);
    revm::database::size_bias(0);
}
struct Story {
    start: u64,
    last: u64,
    made: Vec<Made>,
    chain: Chain,
    site: Site,
}
fn story(r: &mut Rng, i: usize) -> (Story, World) {
    let window = i % 6 == 2;
    let file = *r.pick(&[1, 3, 100, 230, 900, 1500, 1700, 1950, 2300, 2400]);
    let start = if i % 6 == 4 {
        (file + 1) * PER_FILE - r.range(1, 3)
    } else {
        file * PER_FILE + r.below(30)
    };
    let contracts = r.usize_in(1, 3);
    let mut chain = Chain::start(r, start, contracts);
    chain.far = window;
    let first = chain.world.clone();
    let mut made = vec![];
    if window {
        for _ in 0..256 {
            made.push(chain.block(r, 0));
        }
    }
    for _ in 0..r.usize_in(3, 9) {
        made.push(chain.block(r, 4));
    }
    let mut a = Archive::default();
    for m in &made {
        a.put(&m.block);
    }
    (Story { start, last: chain.next - 1, made, chain, site: a.done() }, first)
}
/// How a run ended.
enum Ended {
    At(u64, B256),
    Failed(String),
}
fn drive(dir: &Path, config: &StateConfig, last: u64, stop_at_once: bool) -> Ended {
    let rt = runtime();
    let got = vcommon::guard(|| {
        rt.block_on(async {
            let mut t = TrinExecution::new(dir, config.clone()).await?;
            let signal = stop_at_once.then(|| {
                let (tx, rx) = tokio::sync::oneshot::channel();
                let _ = tx.send(());
                rx
            });
            let root = t.process_range_of_blocks(last, signal).await?.root;
            anyhow::Ok((t.next_block_number(), root, t.get_root()?))
        })
    });
    match got {
        Ok(Ok((n, root, again))) if root == again => Ended::At(n, root),
        Ok(Ok((n, root, again))) => Ended::Failed(format!("next {n}, reported root {root}, root {again}")),
        Ok(Err(e)) => Ended::Failed(format!("{e:#}")),
        Err(p) => Ended::Failed(format!("{p:?}")),
    }
}
/// Whether the database tells the truth about the state after all blocks.
fn finish(ctx: &mut Ctx, dir: &Path, s: &Story, what: &str) -> bool {
    match super::node::open(dir, StateConfig::default()) {
        Ok(n) => {
            ctx.check(n.at.next_block_number() == s.last + 1 && n.at.state_root() == s.chain.world.root(), "position-wrong", || j!({"run": what, "next": n.at.next_block_number(), "want": s.last + 1}))
                && compare(ctx, &n.db, &s.chain.world, &s.chain.seen, &s.chain.keys, what)
        }
        Err(e) => {
            ctx.violation("state-refused", j!({"run": what, "error": format!("{e:#}")}));
            false
        }
    }
}
pub fn going_on(ctx: &mut Ctx) {
    ctx.level("chains, points of commit and stops drawn at random; stops at any write to the database");
    let mut rng = ctx.rng.fork("going on");
    for i in 0..ctx.n(24, 90) as usize {
        if ctx.saturated() {
            break;
        }
        let mut r = rng.fork(&format!("story {i}"));
        let _ = rng.u64();
        one(ctx, &mut r, i);
        unwatch();
    }
    genesis(ctx, &mut rng);
    unwatch();
    reqwest::answered_by(None);
    ctx.require("whole run", 20);
    ctx.require("stopped while executing", 30);
    ctx.require("stopped on demand", 10);
    ctx.require("failed download", 3);
    ctx.require("genesis", 1);
    ctx.require("wrong block", 10);
    ctx.require("trace file", 3);
}
fn one(ctx: &mut Ctx, r: &mut Rng, i: usize) {
    let (s, first) = story(r, i);
    let node = match seeded(&first, s.start, StateConfig::default()) {
        Ok(n) => n,
        Err(e) => return ctx.violation("state-refused", j!({"error": format!("{e:#}")})),
    };
    // traces go to real files
    let tmp = tempfile::tempdir().expect("scratch");
    let base = rocksdb::dump(&node.dir.join("rocksdb"));
    let old = node.dir.clone();
    drop(node);
    forget(&old);
    let dir = tmp.path().to_path_buf();
    let store = dir.join("rocksdb");
    s.site.open();
    let early: BTreeSet<u64> = if s.last - s.start > 200 {
        let some = s.start + 254 + r.below(3);
        (s.last - 12..=s.last).filter(|_| r.chance(1, 5)).chain([some]).collect()
    } else {
        (s.start..=s.last).filter(|_| r.chance(1, 3)).collect()
    };
    let traced = if r.bool() { Some(r.range(s.start, s.last)) } else { None };
    let config = StateConfig { block_to_trace: traced.map(BlockToTrace::Block).unwrap_or_default(), ..Default::default() };
    let what = |how: &str| j!({"from": s.start, "to": s.last, "commits after": early, "how": how, "blocks": s.made.iter().filter(|m| !m.txs.is_empty()).map(|m| (m.block.header.number, m.txs.len())).collect::<Vec<_>>()});
    // without any disturbance
    rocksdb::restore(&store, base.clone());
    let w = watch((s.start, s.last), None, &early);
    ctx.event("whole run");
    ctx.eval("run", &(s.start, s.last, s.chain.world.root().0));
    let end = drive(&dir, &config, s.last, false);
    unwatch();
    let total = w.count.load(Ordering::SeqCst);
    let clean = w.clean.lock().unwrap().clone();
    match end {
        Ended::At(n, root) => {
            ctx.check(n == s.last + 1 && root == s.chain.world.root(), "run-ends-wrong", || what(&format!("next {n}, root {root}")));
        }
        Ended::Failed(e) => return ctx.violation("run-failed", what(&e)),
    }
    if !finish(ctx, &dir, &s, &what("undisturbed")) {
        return;
    }
    if let Some(t) = traced {
        let m = s.made.iter().find(|m| m.block.header.number == t).expect("made");
        let mut files: Vec<String> = vec![];
        for e in std::fs::read_dir(dir.join("evm_traces").join(format!("block_{t}"))).into_iter().flatten().flatten() {
            files.push(e.file_name().to_string_lossy().into_owned());
        }
        files.sort();
        let mut want: Vec<String> = m.block.transactions.iter().map(|t| format!("tx_{}.json", t.transaction.hash())).collect();
        want.sort();
        let all = std::fs::read_dir(dir.join("evm_traces")).map(|d| d.count()).unwrap_or(0);
        ctx.event("trace file");
        ctx.check(files == want && all == !want.is_empty() as usize, "wrong-files-of-traces", || j!({"block": t, "got": files, "want": want, "blocks traced": all}));
    }
    // with stops
    for k in 0..ctx.n(8, 16) {
        rocksdb::restore(&store, base.clone());
        let mut log: Vec<String> = vec![];
        let mut inside = false;
        let rounds = r.range(1, 3);
        for _ in 0..rounds {
            match r.below(6) {
                0 => {
                    ctx.event("stopped on demand");
                    let before = super::node::open(&dir, StateConfig::default()).map(|n| n.at.next_block_number()).unwrap_or(0);
                    if before > s.last {
                        break;
                    }
                    log.push(format!("stopped on demand before {before}"));
                    match drive(&dir, &config, s.last, true) {
                        Ended::At(n, root) => {
                            let want = &s.made[(before - s.start) as usize].block.header;
                            ctx.check(n == before + 1 && root == want.state_root, "stop-ends-wrong", || what(&format!("{log:?}: next {n}, root {root}")));
                        }
                        Ended::Failed(e) => {
                            report(ctx, inside, &what(&format!("{log:?}: {e}")));
                            return;
                        }
                    }
                }
                1 => {
                    let file = s.last / PER_FILE;
                    let f = *r.pick(&[Fault::NoConnection, Fault::ServerError, Fault::Cut, Fault::Garbled, Fault::Empty]);
                    let of = if r.chance(1, 4) { None } else { Some(file) };
                    s.site.fault(of, &[f]);
                    log.push(format!("{f:?} for {of:?}"));
                    ctx.event("failed download");
                    // it may be that the file is not needed any more
                    let _ = drive(&dir, &config, s.last, false);
                    s.site.fault(of, &[]);
                }
                _ => {
                    let at = match r.below(4) {
                        0 => r.below(total + 1),
                        1 => clean[clean.len() - 1 - r.index(clean.len().min(8))],
                        _ => *r.pick(&clean),
                    };
                    log.push(format!("ends at write {at} of {total}"));
                    let w = watch((s.start, s.last), Some(at), &early);
                    let _ = drive(&dir, &config, s.last, false);
                    unwatch();
                    let dirty = *w.dirty.lock().unwrap();
                    inside |= dirty;
                    ctx.event(if dirty { "stopped while committing" } else { "stopped while executing" });
                }
            }
        }
        let how = format!("{log:?}");
        ctx.eval("stopped run", &(s.start, k, how.clone()));
        let done = super::node::open(&dir, StateConfig::default()).is_ok_and(|n| n.at.next_block_number() == s.last + 1);
        let end = if done { Ended::At(s.last + 1, s.chain.world.root()) } else { drive(&dir, &config, s.last, false) };
        match end {
            Ended::At(n, root) => {
                ctx.check(n == s.last + 1 && root == s.chain.world.root(), "run-ends-wrong", || what(&how));
                if !finish(ctx, &dir, &s, &what(&how)) {
                    return;
                }
                ctx.event(if inside { "went on after a stop while committing" } else { "went on" });
            }
            Ended::Failed(e) => report(ctx, inside, &what(&format!("{how}: {e}"))),
        }
        ctx.sample("stopped run", || json!({"from": s.start, "to": s.last, "stops": log}));
    }
    // with a block that is wrong
    if s.last - s.start < 200 {
        let b = r.index(s.made.len());
        let at = s.start + b as u64;
        let (gas, mut a) = (r.bool(), Archive::default());
        let early: BTreeSet<u64> = early.iter().copied().chain([at]).collect();
        for (i, m) in s.made.iter().enumerate() {
            let mut m = m.block.clone();
            if i == b && gas {
                m.header.gas_used += 1;
            } else if i == b {
                m.header.state_root = r.array::<32>().into();
            }
            a.put(&m);
        }
        let site = a.done();
        site.open();
        rocksdb::restore(&store, base.clone());
        let _w = watch((s.start, s.last), None, &early);
        let end = drive(&dir, &config, s.last, false);
        unwatch();
        let what = || what(&format!("block {at} with wrong {}", if gas { "gas" } else { "root" }));
        ctx.event("wrong block");
        ctx.eval("wrong block", &(at, gas, s.chain.world.root().0));
        ctx.check(matches!(end, Ended::Failed(_)), "wrong-block-executed", what);
        match super::node::open(&dir, StateConfig::default()) {
            Ok(n) => {
                let next = n.at.next_block_number();
                let root = if next <= s.start { first.root() } else { s.made[((next - s.start) as usize).min(s.made.len()) - 1].block.header.state_root };
                ctx.check(next <= at && n.at.state_root() == root, "position-past-wrong-block", || j!({"next": next, "run": what()}));
            }
            Err(e) => ctx.violation("state-refused", j!({"run": what(), "error": format!("{e:#}")})),
        }
        s.site.open();
    }
    rocksdb::forget(&store);
}
fn report(ctx: &mut Ctx, inside: bool, what: &str) {
    ctx.violation(if inside { "cannot-go-on-after-stop-while-committing" } else { "cannot-go-on" }, what);
}
/// From the very first block, with a stop on the way.
fn genesis(ctx: &mut Ctx, r: &mut Rng) {
    let mut world = World::default();
    for l in include_str!("genesis.txt").lines() {
        let (a, b) = l.split_once(' ').expect("two parts");
        world.accs.insert(Address::from_slice(&vcommon::unhex(a)), Acc { balance: U256::from_str_radix(b, 16).expect("a number"), ..Default::default() });
    }
    // the root everybody knows
    let known: B256 = B256::from_slice(&vcommon::unhex("d7f8974fb5ac78d9ac099b9ad5018bedc2ce0a72dad1827a1709da30580f0544"));
    ctx.check(world.root() == known, "first-state-wrong", || world.root().to_string());
    let mut chain = Chain::start(r, 1, 0);
    chain.world = world.clone();
    chain.seen = world.accs.keys().take(20).copied().collect();
    let zero = ProcessedBlock { header: Header { number: 0, state_root: known, timestamp: time(0), ..Default::default() }, uncles: Some(vec![]), withdrawals: None, transactions: vec![] };
    let mut a = Archive::default();
    a.put(&zero);
    let mut made = vec![];
    for _ in 0..2 {
        let m = chain.block(r, 0);
        a.put(&m.block);
        made.push(m);
    }
    let s = Story { start: 0, last: 2, made, chain, site: a.done() };
    s.site.open();
    let dir = super::node::place();
    ctx.event("genesis");
    ctx.eval("genesis", &0);
    if r.bool() {
        let at = r.below(8893);
        let _w = watch((0, 2), Some(at), &BTreeSet::new());
        let _ = drive(&dir, &StateConfig::default(), 2, false);
        unwatch();
    }
    let one = drive(&dir, &StateConfig::default(), 0, false);
    match one {
        Ended::At(n, root) => {
            ctx.check(n == 1 && root == known, "first-state-wrong", || j!({"next": n, "root": root.to_string()}));
        }
        Ended::Failed(e) => return ctx.violation("first-state-wrong", e),
    }
    match drive(&dir, &StateConfig::default(), 2, false) {
        Ended::At(n, root) => {
            ctx.check(n == 3 && root == s.chain.world.root(), "run-ends-wrong", || j!({"next": n, "root": root.to_string()}));
        }
        Ended::Failed(e) => return ctx.violation("run-failed", j!({"from": 0, "error": e})),
    }
    finish(ctx, &dir, &s, "from the first block");
    forget(&dir);
}
