//! A bridge that gossips state: what blocks change, or everything at one block.
use std::{
    collections::{BTreeMap, BTreeSet, HashMap},
    path::{Path, PathBuf},
    sync::Arc,
    time::Duration,
};

use alloy::{
    consensus::Header,
    primitives::{Address, B256, U256},
};
use ethportal_api::types::{distance::Distance, network::Subnetwork};
use oracle::ssz as ossz;
use portal_bridge::{bridge::state::StateBridge, census::Census};
use trin_execution::{cli::ExportStateConfig, config::StateConfig, e2hs::types::ProcessedBlock, subcommands::e2ss::export::StateExporter};
use vcommon::{hex, unhex, Ctx, Rng};

use crate::{
    census::end,
    exec::{
        chain::{time, Chain},
        keep::change,
        node::{forget, hash, seeded},
        serve::{Archive, Site, PER_FILE},
        world::{all_nodes, Acc, World, SPURIOUS},
    },
    town::{Taste, Town, STATE},
};

/// The form of a content name.
fn name(kind: u8, path: &[u8], node: B256, owner: Option<B256>) -> Vec<u8> {
    let mut p = vec![];
    if path.len() % 2 == 1 {
        p.push(0x10 | path[0]);
        p.extend(path[1..].chunks(2).map(|c| c[0] << 4 | c[1]));
    } else {
        p.push(0);
        p.extend(path.chunks(2).map(|c| c[0] << 4 | c[1]));
    }
    let mut out = vec![kind];
    if let Some(o) = owner {
        out.extend(o.0);
    }
    if kind == 0x22 {
        out.extend(node.0);
        return out;
    }
    out.extend((if owner.is_some() { 68u32 } else { 36 }).to_le_bytes());
    out.extend(node.0);
    out.extend(p);
    out
}
/// Parts of variable size and the block.
fn offer(parts: &[Vec<u8>], block: B256) -> Vec<u8> {
    let mut at = parts.len() as u32 * 4 + 32;
    let mut out = vec![];
    for p in parts {
        out.extend(at.to_le_bytes());
        at += p.len() as u32;
    }
    out.extend(block.0);
    for p in parts {
        out.extend(p);
    }
    out
}
type Items = BTreeMap<Vec<u8>, Vec<u8>>;
/// Everything others can know about a state, as it is offered with proofs.
fn everything(w: &World, block: B256) -> Items {
    let mut out = Items::new();
    let nodes = all_nodes(&w.pairs());
    let mut leaf: HashMap<Vec<u8>, &Vec<Vec<u8>>> = HashMap::new();
    for (path, proof) in &nodes {
        let last = proof.last().expect("a node");
        out.insert(name(0x20, path, hash(last), None), offer(&[ossz::var_list(proof)], block));
        leaf.insert(last.clone(), proof);
    }
    for (a, x) in &w.accs {
        if x.code.is_empty() && x.slots.is_empty() {
            continue;
        }
        let owner = hash(a.as_slice());
        // the leaf is the one with the longest common path
        let path = oracle::mpt::nibbles(&owner.0);
        let (_, account) = nodes.iter().filter(|(p, _)| path.starts_with(p)).max_by_key(|(p, _)| p.len()).expect("the root at least");
        let account = ossz::var_list(account);
        if !x.code.is_empty() {
            out.insert(name(0x22, &[], hash(&x.code), Some(owner)), offer(&[x.code.clone(), account.clone()], block));
        }
        for (path, proof) in all_nodes(&x.storage_pairs()) {
            out.insert(name(0x21, &path, hash(proof.last().expect("a node")), Some(owner)), offer(&[ossz::var_list(&proof), account.clone()], block));
        }
    }
    out
}
pub fn gossip(ctx: &mut Ctx) {
    ctx.rule("a state bridge offers, for each block of its range, everything of the new state that was not in the state before, or for a snapshot everything in it: every node of the account and storage tries and all code, each with the proof from the state root of its block; nothing else is offered; bridges that share the work together offer everything, in even shares and nothing twice; a snapshot imported before is not fetched again; every item goes to exactly the known peers that cover it up to the limit; nothing is under way any more when the bridge is done");
    let mut r = ctx.rng.fork("states");
    for case in 0..ctx.n(16, 200) {
        if ctx.saturated() {
            break;
        }
        let mut r = r.fork(&format!("case{case}"));
        if case % 8 == 5 {
            let p = blocks(&mut r);
            crate::clock::simulate(one(ctx, &mut r, case, p));
        } else if let Some(p) = snapshot(ctx, &mut r, case) {
            crate::clock::simulate(one(ctx, &mut r, case, p));
        }
        reqwest::answered_by(None);
    }
    for (k, n) in [("account node", 500), ("storage node", 300), ("code", 20), ("item received", 1500), ("shared work", 3), ("shares compared", 3), ("imported before", 3), ("downloaded", 3), ("over another state", 2), ("some peers fail", 3), ("limited", 200), ("block gossiped", 4), ("item of a block", 20)] {
        ctx.require(k, n);
    }
}
/// What is to be gossiped.
struct Plan {
    mode: String,
    dir: Option<PathBuf>,
    /// what may be offered, and what of it must be, for each block
    all: Vec<(Items, BTreeSet<Vec<u8>>)>,
    what: String,
    _keep: Option<tempfile::TempDir>,
}
fn export(dir: &Path, to: &Path) -> anyhow::Result<PathBuf> {
    let rt = tokio::runtime::Builder::new_current_thread().enable_all().build()?;
    rt.block_on(async { StateExporter::new(ExportStateConfig { path_to_e2ss: to.to_path_buf() }, dir).await?.export() })
}
fn snapshot(ctx: &mut Ctx, r: &mut Rng, case: u64) -> Option<Plan> {
    let few = r.bool();
    let start = if few { r.range(1, 100) } else { *r.pick(&[1u64, 200, 1000, 1800, 2300, 2400]) * PER_FILE + r.below(100) };
    let contracts = r.usize_in(1, 4);
    let mut c = Chain::start(r, start, contracts);
    let mut a = Archive::default();
    let before = if few { r.range(2, 140) } else { 256 };
    for _ in 0..before {
        a.put(&c.block(r, 0).block);
    }
    let (extra, _) = change(r, &c.world, &c.keys, &BTreeSet::new(), 30);
    c.world = extra;
    if c.next >= SPURIOUS {
        c.world.accs.retain(|_, x| !(x.nonce == 0 && x.balance.is_zero() && x.code.is_empty() && x.slots.is_empty()));
    }
    for x in c.world.accs.values_mut() {
        x.balance = x.balance % (U256::from(1) << 200);
    }
    let m = c.block(r, 4);
    a.put(&m.block);
    let at = c.next - 1;
    let site = a.done();
    let tmp = tempfile::tempdir().expect("scratch");
    let dir = tmp.path().join("data");
    // the file everybody can fetch
    let listed = site.clone();
    let how = case % 3;
    let what = format!("snapshot {at}, {} accounts, {}", c.world.accs.len(), ["imported before", "downloaded", "over another state"][how as usize]);
    let mut bytes = vec![];
    {
        site.open();
        let made = seeded(&c.world, at + 1, StateConfig::default()).and_then(|n| {
            let d = n.dir.clone();
            drop(n);
            let p = export(&d, tmp.path())?;
            forget(&d);
            Ok(std::fs::read(p)?)
        });
        match made {
            Ok(b) => bytes.extend(b),
            Err(e) => {
                ctx.violation("export-failed", format!("{e:#}: {what}"));
                return None;
            }
        }
    }
    // what was imported before is not fetched again
    open_both(&listed, at, (how != 0).then_some(bytes));
    if how != 1 {
        // a state is there already
        std::fs::create_dir_all(&dir).expect("scratch");
        let rt = tokio::runtime::Builder::new_current_thread().enable_all().build().expect("runtime");
        let old = rt.block_on(async {
            use trin_execution::{cli::ImportStateConfig, subcommands::e2ss::import::StateImporter};
            let f = std::fs::read_dir(tmp.path())?.flatten().map(|e| e.path()).find(|p| p.extension().is_some_and(|x| x == "e2ss"));
            StateImporter::new(ImportStateConfig { path_to_e2ss: f.unwrap_or_default() }, &dir).await?.import().await
        });
        if let Err(e) = old {
            ctx.violation("import-failed", format!("{e:#}: {what}"));
            return None;
        }
        if how == 2 {
            // but of another block
            let (next, _) = change(r, &c.world, &c.keys, &BTreeSet::new(), 12);
            let n = crate::exec::node::open(&dir, StateConfig::default()).and_then(|mut n| {
                n.db.commit_bundle(crate::exec::node::bundle(&c.world, &next, &BTreeSet::new()))?;
                let root = eth_trie::Trie::root_hash(&mut *n.db.trie.lock())?;
                let number = *r.pick(&[at + 1, at - 1, at - 2]);
                n.at.update_position(n.db.db.clone(), &Header { number, state_root: root, ..Default::default() })
            });
            if let Err(e) = n {
                ctx.violation("import-failed", format!("{e:#}: {what}"));
                return None;
            }
        }
    }
    ctx.event(["imported before", "downloaded", "over another state"][how as usize]);
    let items = everything(&c.world, c.parent);
    let all = items.keys().cloned().collect();
    Some(Plan { mode: format!("snapshot:{at}"), dir: Some(dir), all: vec![(items, all)], what, _keep: Some(tmp) })
}
/// Answers for archives of blocks and for files of states.
fn open_both(site: &Site, at: u64, bytes: Option<Vec<u8>>) {
    let site = site.clone();
    reqwest::answered_by(Some(Arc::new(move |_: &str, url: &str, _: &[u8]| {
        if !url.contains("e2ss") {
            return site.answer(url);
        }
        let Some(bytes) = &bytes else { return Some((404, vec![])) };
        if url.contains(&format!("mainnet-{at:010}-")) {
            return Some((200, bytes.clone()));
        }
        if url.contains("mainnet-") {
            return Some((404, vec![]));
        }
        Some((200, [at - 1, at, at + 7].map(|n| format!("<li><a href=\"mainnet-{n:010}-abcdef01.e2ss\">x</a></li>\n")).concat().into_bytes()))
    })));
}
/// The first blocks of all, and what they change.
fn blocks(r: &mut Rng) -> Plan {
    let mut world = World::default();
    for l in include_str!("../../exec/src/genesis.txt").lines() {
        let (a, b) = l.split_once(' ').expect("two parts");
        world.accs.insert(Address::from_slice(&unhex(a)), Acc { balance: U256::from_str_radix(b, 16).expect("a number"), ..Default::default() });
    }
    let zero = ProcessedBlock { header: Header { number: 0, state_root: world.root(), timestamp: time(0), ..Default::default() }, uncles: Some(vec![]), withdrawals: None, transactions: vec![] };
    let mut c = Chain::start(r, 1, 0);
    c.seen = world.accs.keys().take(20).copied().collect();
    c.world = world;
    c.parent = zero.header.hash_slow();
    let mut a = Archive::default();
    a.put(&zero);
    let start = if r.chance(1, 3) { 1 } else { r.range(1, 9) };
    let end = start.max(2) + r.range(1, 5);
    let mut all = vec![];
    // the senders earn something first
    let senders: Vec<Address> = c.senders.iter().map(|s| s.1).collect();
    while c.next <= end {
        let n = c.next;
        c.miner = Some(*r.pick(&senders));
        let old = c.world.clone();
        let m = c.block(r, if n > 2 { 8 } else { 0 });
        a.put(&m.block);
        if n < start {
            continue;
        }
        let items = everything(&c.world, c.parent);
        let had = everything(&old, c.parent);
        let need = items.keys().filter(|k| !had.contains_key(*k)).cloned().collect();
        all.push((items, need));
    }
    a.done().open();
    Plan { mode: format!("single:r{start}-{end}"), dir: None, what: format!("blocks {start} to {end}"), all, _keep: None }
}
async fn one(ctx: &mut Ctx, r: &mut Rng, case: u64, plan: Plan) {
    let mut town = Town::found(r, STATE);
    // every kind of case comes up in turn
    let failing = case % 4 == 1 || r.chance(1, 6);
    let limited = case % 4 == 3;
    let total = if case % 4 == 2 || r.chance(1, 6) { r.range(2, 3) } else { 1 };
    // a peer that takes its time keeps the last offers of a range under way
    let slow = case % 16 == 13;
    let n = r.usize_in(if failing || limited { 2 } else { 1 }, 5);
    for i in 0..n {
        let d = if (limited && i < 2) || (total > 1 && i == 0) || (slow && i < 2) || r.chance(2, 3) { Distance::MAX } else { Distance::from(U256::MAX >> r.below(4)) };
        town.join(r, d, true).await;
    }
    if failing {
        for i in 1..n {
            if i == 1 || r.bool() {
                town.people[i].mood.lock().taste = *r.pick(&[Taste::Decline(1), Taste::Decline(2), Taste::Decline(5), Taste::Silent, Taste::Ghost]);
            }
        }
        if slow {
            town.people[1].mood.lock().taste = Taste::Slow;
        }
    }
    let tastes: Vec<Taste> = town.people.iter().map(|p| p.mood.lock().taste).collect();
    let per_item = if limited { 1 } else if slow { 40 } else { *r.pick(&[1usize, 2, 4, 40]) };
    let at_once = *r.pick(&[1usize, 2, 3, 8, 32]);
    let what = format!("{}, {n} peers {tastes:?}, {per_item} per item, {at_once} at once, {total} bridges", plan.what);
    let boot: Vec<usize> = (0..n).collect();
    // all items any of the bridges offered, to whom, and what arrived
    let mut offered: Vec<Vec<(u64, Vec<u8>)>> = vec![vec![]; n];
    let mut took: Vec<Vec<(u64, Vec<u8>, Vec<u8>)>> = vec![vec![]; n];
    let (mut limit, mut per, mut id) = (vec![], vec![], vec![]);
    for k in 1..=total {
        limit.push(at_once.to_string());
        per.push(per_item.to_string());
        id.push(format!("{k}/{total}"));
    }
    let config = |k: usize| {
        let mut args = vec!["--mode", &plan.mode, "--enr-offer-limit", &per[k], "--offer-limit", &limit[k], "--bridge-id", &id[k]];
        let d = plan.dir.as_ref().map(|d| d.to_string_lossy().into_owned());
        if let Some(d) = &d {
            args.extend(["--data-dir", d]);
        }
        town.config(&boot, &args)
    };
    let first = config(0);
    let overlays = town.open(&first).await;
    town.wait(30).await;
    let state = overlays.state.clone().expect("the network runs");
    for k in 0..total {
        let c = config(k as usize);
        let mut census = Census::new(overlays.clone(), &c);
        let Some((census, Ok(watch))) = end(async move {
            let h = census.init([Subnetwork::State]).await;
            (census, h)
        })
        .await
        else {
            ctx.inconclusive("the first look around failed");
            return;
        };
        town.wait(120).await;
        for p in &town.people {
            p.forget();
        }
        let state = state.clone();
        let done = end(async move {
            let b = StateBridge::new(c.mode.clone(), state, c.offer_limit, census, c.bridge_id, c.data_dir).await?;
            b.launch().await;
            anyhow::Ok(())
        })
        .await;
        if !ctx.check(matches!(done, Some(Ok(()))), if done.is_none() { "never-done" } else { "did-not-start" }, || format!("{:?}: {what}", done.map(|d| d.is_ok()))) {
            return;
        }
        let now: Vec<_> = town.people.iter().map(|p| (p.offered(), p.took())).collect();
        town.wait(200).await;
        for (i, p) in town.people.iter().enumerate() {
            ctx.check(p.offered().len() == now[i].0.len() && p.took().len() == now[i].1.len(), "still-offering-when-done", || {
                format!("peer {i} was offered {} and took {}, in the end {} and {}: {what}", now[i].0.len(), now[i].1.len(), p.offered().len(), p.took().len())
            });
        }
        // never more under way than allowed
        let mut waiting: Vec<Duration> = (0..n).filter(|i| tastes[*i] == Taste::Silent).flat_map(|i| now[i].0.iter().map(|(t, _)| *t)).collect();
        waiting.sort();
        for w in waiting.windows(at_once + 1) {
            ctx.check(w[at_once] - w[0] >= Duration::from_secs(1), "more-at-once-than-allowed", || format!("{w:?}: {what}"));
        }
        for (i, p) in town.people.iter().enumerate() {
            offered[i].extend(p.offered().into_iter().map(|(_, key)| (k, key)));
            took[i].extend(p.took().into_iter().map(|(_, key, v)| (k, key, v)));
        }
        watch.abort();
    }
    if total > 1 {
        ctx.event("shared work");
    }
    if tastes.iter().any(|t| *t != Taste::Take) {
        ctx.event("some peers fail");
    }
    // what arrived
    for (i, t) in took.iter().enumerate() {
        for (_, k, v) in t {
            ctx.event("item received");
            let known = plan.all.iter().any(|(items, _)| items.get(k).is_some_and(|x| x == v));
            let named = plan.all.iter().any(|(items, _)| items.contains_key(k));
            ctx.check(known, if named { "wrong-content" } else { "something-else-offered" }, || format!("peer {i}: {} {}: {what}", hex(k), hex(v)));
        }
    }
    for (i, o) in offered.iter().enumerate() {
        for (_, k) in o {
            ctx.check(plan.all.iter().any(|(items, _)| items.contains_key(k)), "something-else-offered", || format!("peer {i}: {}: {what}", hex(k)));
        }
    }
    let single = plan.all.len() > 1 || plan.dir.is_none();
    if total > 1 && !single {
        let shares: Vec<usize> = (0..total).map(|k| offered.iter().flatten().filter(|(b, _)| *b == k).map(|(_, x)| x).collect::<BTreeSet<_>>().len()).collect();
        let (least, most) = (shares.iter().min().copied().unwrap_or(0), shares.iter().max().copied().unwrap_or(0));
        ctx.event("shares compared");
        ctx.check(most - least <= 1, "uneven-shares", || format!("{shares:?}: {what}"));
    }
    for (b, (items, need)) in plan.all.iter().enumerate() {
        if single {
            ctx.event("block gossiped");
        }
        for k in need {
            let id = oracle::sha256(k);
            let value = &items[k];
            ctx.eval("item", &(case, b, k));
            ctx.event(if single {
                "item of a block"
            } else {
                match k[0] {
                    0x20 => "account node",
                    0x21 => "storage node",
                    _ => "code",
                }
            });
            let cover: Vec<usize> = (0..n).filter(|i| town.people[*i].covers(&id)).collect();
            let got: Vec<usize> = (0..n).filter(|i| offered[*i].iter().any(|(_, x)| x == k)).collect();
            let detail = || format!("block {b} {}, offered to {got:?} of {cover:?}: {what}", hex(k));
            ctx.check(got.iter().all(|i| cover.contains(i)), "offered-beyond-radius", detail);
            let good: Vec<usize> = cover.iter().copied().filter(|i| matches!(tastes[*i], Taste::Take | Taste::Slow)).collect();
            if !single {
                for i in 0..n {
                    let times = offered[i].iter().filter(|(_, x)| x == k).count();
                    ctx.check(times <= 1, "offered-twice", || format!("peer {i} {times} times: {}", detail()));
                }
                let bridges: BTreeSet<u64> = offered.iter().flatten().filter(|(_, x)| x == k).map(|(b, _)| *b).collect();
                ctx.check(bridges.len() <= 1, "offered-by-two-bridges", detail);
                ctx.check(got.len() <= per_item, "more-than-limit", detail);
            }
            if cover.len() <= per_item {
                ctx.check(good.iter().all(|i| got.contains(i)), if got.is_empty() { "content-left-out" } else { "peer-not-offered" }, detail);
            } else {
                ctx.event("limited");
                let least = if failing { good.len().min(1) } else { per_item };
                ctx.check(got.len() >= least, if got.is_empty() { "content-left-out" } else { "too-few-offered" }, detail);
            }
            // each block of a range has its own proof
            if !failing && !got.is_empty() {
                let whole = took.iter().flatten().filter(|(_, x, v)| x == k && v == value).count();
                ctx.check(whole == cover.len().min(per_item), "not-handed-over", || format!("{whole} got it: {}", detail()));
            }
        }
    }
}
