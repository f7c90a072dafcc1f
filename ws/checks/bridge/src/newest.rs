//! A bridge that gossips the newest blocks, and their headers with proofs once they can be proven.
use std::{
    collections::{BTreeSet, HashMap},
    sync::Arc,
    time::Duration,
};

use alloy::primitives::U256;
use ethportal_api::types::{distance::Distance, network::Subnetwork};
use eventsource_client::{Event, SSE};
use oracle::{
    exec::{Block, Era},
    keccak256, sha2,
    schema::{self, Fork, T, V},
    ssz as ossz, H,
};
use parking_lot::Mutex;
use portal_bridge::{bridge::ephemeral_history::EphemeralHistoryBridge, census::Census};
use vcommon::{hex, json, Ctx, Rng, Value};

use crate::{
    census::end,
    clock,
    light::{num, put, PERIOD},
    providers::{about, consensus, execution, not_found, serve, spoil, told, Bad, Log, JSON, SSZ},
    town::{Town, HISTORY},
};

/// How many blocks travel together.
const TOGETHER: usize = 13;

struct Made {
    parent: Option<usize>,
    slot: u64,
    root: H,
    parent_root: H,
    signed: V,
    block: Block,
    rlp: Vec<u8>,
    hash: H,
}
#[derive(Default)]
struct World {
    made: Vec<Made>,
    by_root: HashMap<String, usize>,
    /// where the execution side thinks the chain ends
    head: usize,
    states: HashMap<String, Vec<u8>>,
    outage: Option<(bool, Bad)>,
    first_only: bool,
    nulls: u32,
}
fn requests_hash(t: &T, v: &V) -> H {
    let V::Items(lists) = v else { panic!("three lists") };
    let mut all = vec![];
    for (i, name) in ["deposits", "withdrawals", "consolidations"].iter().enumerate() {
        let b = t.ty(name).ser(&lists[i]);
        if !b.is_empty() {
            all.extend(oracle::sha256(&[vec![i as u8], b].concat()));
        }
    }
    oracle::sha256(&all)
}
impl World {
    fn make(&mut self, r: &mut Rng, parent: Option<usize>, slot: u64) -> usize {
        let t = schema::signed_beacon_block(Fork::Electra);
        let mut v = t.gen(r, 1);
        let mut b = Block::random(r, Era::Prague, 2);
        let parent_root = parent.map_or_else(|| r.array(), |p| self.made[p].root);
        put(&mut v, &t, &["message", "slot"], num(slot));
        put(&mut v, &t, &["message", "parent_root"], V::Raw(parent_root.to_vec()));
        let h = &mut b.header;
        h.beacon_root = parent_root;
        h.difficulty = vec![];
        h.nonce = [0; 8];
        if let Some(p) = parent {
            h.number = self.made[p].block.header.number + 1;
            h.parent = self.made[p].hash;
        }
        h.timestamp = crate::light::GENESIS + slot * 12;
        let bt = t.ty("message").ty("body");
        let V::Items(top) = &v else { panic!("composite") };
        h.requests_hash = requests_hash(bt.ty("execution_requests"), top[t.field("message")].item(t.ty("message").field("body")).item(bt.field("execution_requests")));
        let rlp = h.rlp();
        let hash = keccak256(&rlp);
        let mut set = |name: &'static str, to: V| put(&mut v, &t, &["message", "body", "execution_payload", name], to);
        let raw = |b: &[u8]| V::Raw(b.to_vec());
        set("parent_hash", raw(&h.parent));
        set("fee_recipient", raw(&h.beneficiary));
        set("state_root", raw(&h.state_root));
        set("receipts_root", raw(&h.receipts_root));
        set("logs_bloom", raw(&h.bloom));
        set("prev_randao", raw(&h.mix));
        set("block_number", num(h.number));
        set("gas_limit", num(h.gas_limit));
        set("gas_used", num(h.gas_used));
        set("timestamp", num(h.timestamp));
        set("extra_data", raw(&h.extra));
        let mut fee = h.base_fee.to_le_bytes().to_vec();
        fee.resize(32, 0);
        set("base_fee_per_gas", V::Raw(fee));
        set("block_hash", raw(&hash));
        set("transactions", V::Items(b.txs.iter().map(|t| V::Raw(t.clone())).collect()));
        let ws = b.withdrawals.iter().flatten().map(|w| {
            let w = <alloy::rpc::types::Withdrawal as alloy_rlp::Decodable>::decode(&mut &w[..]).expect("harness withdrawal");
            V::Items(vec![num(w.index), num(w.validator_index), raw(w.address.as_slice()), num(w.amount)])
        });
        set("withdrawals", V::Items(ws.collect()));
        set("blob_gas_used", num(h.blob_gas));
        set("excess_blob_gas", num(h.excess_blob));
        let V::Items(top) = &v else { panic!("composite") };
        let root = t.ty("message").root(&top[t.field("message")]);
        let i = self.made.len();
        self.by_root.insert(hex(&root), i);
        self.made.push(Made { parent, slot, root, parent_root, signed: v, block: b, rlp, hash });
        i
    }
    /// The block and those before it, newest first.
    fn back(&self, from: usize) -> impl Iterator<Item = usize> + '_ {
        std::iter::successors(Some(from), |i| self.made[*i].parent)
    }
    /// Whether the execution side has these receipts for the block's number.
    fn same_receipts(&self, i: usize) -> bool {
        let b = &self.made[i].block;
        self.back(self.head).any(|k| self.made[k].block.header.number == b.header.number && self.made[k].block.receipts == b.receipts)
    }
    fn answer(&mut self, first: bool, path: &str, body: &[u8], binary: bool) -> Option<reqwest::Told> {
        let bad = |consensus: bool| match self.outage {
            Some((c, b)) if c == consensus && (first || !self.first_only) => Some(b),
            _ => None,
        };
        if body.is_empty() {
            if path == "/eth/v1/node/version" {
                return Some(told(JSON, b"{\"data\":{\"version\":\"x/1\"}}".to_vec()));
            }
            let id = path.rsplit("0x").next().unwrap_or("");
            let good = if path.starts_with("/eth/v2/beacon/blocks/0x") {
                match self.by_root.get(id) {
                    Some(i) => about(&schema::signed_beacon_block(Fork::Electra), &self.made[*i].signed, binary),
                    None => not_found(),
                }
            } else if path.starts_with("/eth/v2/debug/beacon/states/0x") {
                return Some(self.states.get(id).map_or_else(not_found, |s| told(SSZ, s.clone())));
            } else {
                not_found()
            };
            return match bad(true) {
                Some(b) => spoil(b, good),
                None => Some(good),
            };
        }
        let q: Value = serde_json::from_slice(body).ok()?;
        if q["method"] != "eth_getBlockReceipts" {
            return Some(told(JSON, b"{\"result\":\"x/1\",\"id\":1}".to_vec()));
        }
        let n = u64::from_str_radix(q["params"][0].as_str()?.strip_prefix("0x")?, 16).ok()?;
        let found = self.back(self.head).find(|i| self.made[*i].block.header.number == n);
        let result = match found {
            Some(i) if self.nulls == 0 => self.made[i].block.receipts.iter().map(|x| format!("0x{}", hex(x))).collect(),
            _ => Value::Null,
        };
        let good = told(JSON, json!({"jsonrpc": "2.0", "id": q["id"], "result": result}).to_string().into_bytes());
        let bad = bad(false);
        self.nulls = self.nulls.saturating_sub(1);
        match bad {
            Some(b) => spoil(b, good),
            None => Some(good),
        }
    }
}
pub fn gossip(ctx: &mut Ctx) {
    ctx.rule("once a block is known to be attested, it and the twelve before it are gossiped: first their headers together and newest first, then their bodies and receipts to the peers that store them, each item belonging to its block whatever reorganisations came before; once the last block of a period is final, every block of the chain in that period that the bridge saw is gossiped with a proof that leads from it to the roots of the period; nothing else is offered");
    let mut r = ctx.rng.fork("newest");
    for case in 0..ctx.n(14, 300) {
        if ctx.saturated() {
            break;
        }
        let mut r = r.fork(&format!("case{case}"));
        clock::simulate(one(ctx, &mut r, case));
    }
    reqwest::provided_by(None);
    eventsource_client::listen(false);
    for (k, n) in [("bundle", 25), ("no bundle", 6), ("reorganised", 8), ("went back", 3), ("period proven", 6), ("header proven", 40), ("outage", 6), ("item received", 800), ("period began just before the start", 1), ("last slot of the period skipped", 1), ("other epochs", 4), ("execution behind", 5)] {
        ctx.require(k, n);
    }
}
fn climb(leaf: H, index: u64, branch: &[u8]) -> H {
    let mut x = leaf;
    for (i, s) in branch.chunks(32).enumerate() {
        let s: H = s.try_into().expect("32 bytes");
        x = if index >> i & 1 == 1 { sha2(&s, &x) } else { sha2(&x, &s) };
    }
    x
}
fn content_id(key: &[u8]) -> [u8; 32] {
    use ethportal_api::OverlayContentKey;
    ethportal_api::LegacyHistoryContentKey::try_from_bytes(key).map(|k| k.content_id()).unwrap_or_default()
}
async fn one(ctx: &mut Ctx, r: &mut Rng, case: u64) {
    let world = Arc::new(Mutex::new(World::default()));
    let w2 = world.clone();
    let log: Log = Default::default();
    serve(log.clone(), move |first, p, body, binary| w2.lock().answer(first, p, body, binary));
    // the chain so far
    let crossing = case % 3 != 2;
    let boundary = r.range(1420, 1600) * PERIOD;
    // how many of the first blocks are of the period before
    let before = r.usize_in(15, 18);
    let early = case % 3 == 1;
    let mut slot = if early { boundary - PERIOD - r.range(2, 12) } else { boundary - r.range(3000, 6000) };
    clock::set(crate::light::GENESIS + boundary * 12);
    let mut head = world.lock().make(r, None, slot);
    let mut step = |r: &mut Rng, slot: u64| slot + if r.chance(3, 4) { 1 } else { r.range(2, 5) };
    for _ in 1..before {
        slot = step(r, slot);
        let w = &mut *world.lock();
        head = w.make(r, Some(head), slot);
        w.head = head;
    }
    let mut town = Town::found(r, HISTORY);
    let n = r.usize_in(1, 3);
    for _ in 0..n {
        let radius = Distance::from(U256::MAX >> *r.pick(&[0usize, 0, 1]));
        town.join(r, radius, true).await;
    }
    let per_item = *r.pick(&[1usize, 2, 8]);
    let config = town.config(&(0..n).collect::<Vec<_>>(), &["--mode", "ephemeral-history", "--enr-offer-limit", &per_item.to_string()]);
    let overlays = town.open(&config).await;
    town.wait(30).await;
    let mut census = Census::new(overlays.clone(), &config);
    let Some((census, Ok(_watch))) = end(async move {
        let h = census.init([Subnetwork::LegacyHistory]).await;
        (census, h)
    })
    .await
    else {
        ctx.inconclusive("the first look around failed");
        return;
    };
    let (Some(capi), Some(eapi)) = (consensus().await, execution().await) else {
        ctx.check(false, "cannot-begin", String::new);
        return;
    };
    town.wait(60).await;
    let network = overlays.legacy_history.clone().expect("the network runs");
    eventsource_client::listen(true);
    let (a, b) = (*r.pick(&[1usize, 3, 8]), *r.pick(&[1usize, 3, 8]));
    let bridge = match end(async move { EphemeralHistoryBridge::new(network, a, b, capi, eapi, census).await }).await {
        Some(Ok(b)) => b,
        _ => {
            ctx.check(false, "cannot-begin", String::new);
            return;
        }
    };
    tokio::spawn(bridge.launch());
    clock::pass(Duration::from_secs(1)).await;
    let opened = eventsource_client::opened();
    let Some(stream) = opened.first() else {
        ctx.check(false, "does-not-listen", String::new);
        return;
    };
    for topic in ["head", "light_client_optimistic_update", "finalized_checkpoint"] {
        ctx.check(stream.url.contains(topic), "does-not-listen", || stream.url.clone());
    }
    let tell = |name: &str, data: Value| {
        let _ = stream.send.send(Ok(SSE::Event(Event { event_type: name.into(), data: data.to_string(), id: None, retry: None })));
    };
    let hx = |h: &[u8]| format!("0x{}", hex(h));
    let zero = hx(&[0; 32]);
    // what the bridge is to know
    let mut known: BTreeSet<usize> = BTreeSet::new();
    let mut story: Vec<String> = vec![];
    let mut tips: Vec<usize> = vec![head];
    let mut passed = false;
    let mut finalized = false;
    let steps = r.usize_in(4, 7);
    for stepno in 0..steps * 2 + 4 {
        if ctx.saturated() {
            return;
        }
        // the next head
        let mut went_back = false;
        {
            let w = &mut *world.lock();
            let old = head;
            match r.below(8) {
                0 if stepno > 0 => {
                    // a side branch that takes over
                    let from = w.back(head).nth(r.usize_in(1, 3)).unwrap_or(head);
                    if w.made[from].slot >= boundary || !passed {
                        let mut s = w.made[from].slot;
                        head = from;
                        for _ in 0..r.range(1, 4) {
                            s = step(r, s);
                            if !passed && s >= boundary {
                                break;
                            }
                            head = w.make(r, Some(head), s);
                        }
                        if head != old {
                            ctx.event("reorganised");
                            story.push(format!("branch of {} at {from} to {head}", w.made[head].slot));
                        }
                    }
                }
                1 if tips.len() > 1 => {
                    // back to what was the head before
                    let t = *r.pick(&tips);
                    if t != head && (!finalized || w.made[t].slot >= boundary) {
                        head = t;
                        went_back = true;
                        ctx.event("went back");
                        story.push(format!("back to {head}"));
                    }
                }
                _ => {}
            }
            if head == old && stepno > 0 {
                let mut s = step(r, w.made[head].slot);
                if crossing && !passed && stepno >= steps && s < boundary {
                    // nothing for a long time
                    s = boundary + *r.pick(&[0u64, 0, 1, 7]);
                }
                if s >= boundary {
                    if !crossing {
                        break;
                    }
                    if !passed && s > boundary {
                        ctx.event("last slot of the period skipped");
                    }
                    passed = true;
                }
                head = w.make(r, Some(head), s);
                story.push(format!("{head} at {}{:+}", if s >= boundary { "boundary" } else { "" }, s as i64 - boundary as i64));
            }
            // the execution side may be late
            w.head = if r.chance(1, 6) {
                ctx.event("execution behind");
                story.push(format!("execution at {old}"));
                old
            } else {
                head
            };
            tips.push(head);
            w.outage = None;
            w.nulls = 0;
            if r.chance(1, 5) {
                w.outage = Some((r.bool(), *r.pick(&[Bad::ServerError, Bad::NoConnection, Bad::Garbage, Bad::BrokenOff])));
                w.first_only = r.chance(1, 3);
                story.push(format!("outage {:?} first only {}", w.outage, w.first_only));
                ctx.event("outage");
            } else if r.chance(1, 6) {
                w.nulls = *r.pick(&[1u32, 3, 40]);
                story.push(format!("no receipts {} times", w.nulls));
            }
        }
        for p in &town.people {
            p.forget();
        }
        let m = |i: usize| {
            let w = world.lock();
            let m = &w.made[i];
            (m.slot, m.root)
        };
        let (slot, root) = m(head);
        tell("head", json!({"slot": slot.to_string(), "block": hx(&root), "state": zero, "epoch_transition": false, "previous_duty_dependent_root": zero, "current_duty_dependent_root": zero, "execution_optimistic": false}));
        let long = world.lock().first_only && world.lock().outage.is_some();
        town.wait(if long { 250 } else { 90 }).await;
        {
            let w = &mut *world.lock();
            // those not known are fetched one after another, from the newest on, until one fails
            let failing = w.outage.is_some() && !w.first_only;
            let chain: Vec<usize> = w.back(head).take(TOGETHER).collect();
            for i in chain {
                if known.contains(&i) {
                    continue;
                }
                if failing || w.nulls > 0 || !w.same_receipts(i) {
                    story.push(format!("{i} not to be had"));
                    break;
                }
                known.insert(i);
            }
            w.outage = None;
            w.nulls = 0;
        }
        // it gets attested
        let attested = if r.chance(1, 8) { *r.pick(&tips) } else { head };
        let (due, header) = {
            let w = world.lock();
            let chain: Vec<usize> = w.back(attested).take(TOGETHER).collect();
            let due = chain.len() == TOGETHER && chain.iter().all(|i| known.contains(i));
            let t = schema::signed_beacon_block(Fork::Electra);
            let mt = t.ty("message");
            let V::Items(top) = &w.made[attested].signed else { panic!("composite") };
            let msg = &top[t.field("message")];
            let body_root = mt.ty("body").root(msg.item(mt.field("body")));
            let proposer = u64::from_le_bytes(msg.item(mt.field("proposer_index")).raw().try_into().expect("eight"));
            let header = json!({"slot": w.made[attested].slot.to_string(), "proposer_index": proposer.to_string(), "parent_root": hx(&w.made[attested].parent_root), "state_root": hx(msg.item(mt.field("state_root")).raw()), "body_root": hx(&body_root)});
            (due.then_some(chain), header)
        };
        for p in &town.people {
            p.forget();
        }
        tell("light_client_optimistic_update", json!({"version": "electra", "data": {"attested_header": {"beacon": header}, "signature_slot": (slot + 1).to_string()}}));
        quiet(&town).await;
        story.push(format!("{attested} attested, {}", if due.is_some() { "to be gossiped" } else { "not all known" }));
        let detail = |x: String| j!({"what": x, "story": story, "peers": n, "per item": per_item, "at once": a, "boundary": boundary, "went back": went_back});
        let mut wanted: Vec<(Vec<u8>, Vec<u8>)> = vec![];
        let mut series: Vec<(Vec<u8>, Vec<u8>)> = vec![];
        if let Some(chain) = &due {
            ctx.event("bundle");
            let w = world.lock();
            for i in chain {
                let b = &w.made[*i];
                let key = |tag: u8| [&[tag][..], &b.hash].concat();
                series.push((key(5), ossz::container(&[ossz::Part::Var(b.rlp.clone())])));
                wanted.push((key(1), b.block.body_ssz()));
                wanted.push((key(2), b.block.receipts_ssz()));
            }
        } else {
            ctx.event("no bundle");
        }
        ctx.eval("attested", &(case, stepno, attested, due.is_some(), hex(&root)));
        let mut heard = 0;
        let mut series_done = Duration::ZERO;
        for (i, p) in town.people.iter().enumerate() {
            let offered = p.offered();
            let got: Vec<&Vec<u8>> = offered.iter().filter(|o| o.1[0] == 5).map(|o| &o.1).collect();
            if !got.is_empty() {
                heard += 1;
                series_done = series_done.max(offered.iter().filter(|o| o.1[0] == 5).map(|o| o.0).max().unwrap_or_default());
                ctx.check(got == series.iter().map(|s| &s.0).collect::<Vec<_>>(), "other-headers", || detail(format!("peer {i} was offered {} headers", got.len())));
                let took: Vec<(Vec<u8>, Vec<u8>)> = p.took().into_iter().filter(|t| t.1[0] == 5).map(|t| (t.1, t.2)).collect();
                ctx.check(took == series, "headers-not-handed-over", || detail(format!("peer {i} took {}", took.len())));
            }
        }
        if !series.is_empty() {
            ctx.check(heard == n.min(per_item), "headers-not-offered", || detail(format!("to {heard} of {n} peers")));
        }
        items(ctx, &town, &wanted, per_item, &detail, series_done + Duration::from_secs(2));
        if ctx.violated() {
            return;
        }
        // finality
        let w_slot = slot;
        if r.chance(1, 4) {
            ctx.event("other epochs");
            let epoch = (w_slot / 32).saturating_sub(2);
            let epoch = if epoch % 256 == 0 { epoch + 1 } else { epoch };
            tell("finalized_checkpoint", json!({"block": hx(&root), "state": zero, "epoch": epoch.to_string(), "execution_optimistic": false}));
            for p in &town.people {
                p.forget();
            }
            town.wait(20).await;
            items(ctx, &town, &[], per_item, &detail, Duration::ZERO);
        }
        // finality comes when the block has long been seen
        let seen = {
            let w = world.lock();
            let check = w.back(head).find(|i| w.made[*i].slot <= boundary);
            check.is_some_and(|c| known.contains(&c))
        };
        if passed && seen && !finalized && (r.chance(1, 3) || stepno == steps * 2 + 3) {
            let (check, list, state, roots) = {
                let w = &mut *world.lock();
                let Some(check) = w.back(head).find(|i| w.made[*i].slot <= boundary) else { break };
                let first = if w.made[check].slot == boundary { w.made[check].parent } else { Some(check) };
                let list: Vec<usize> = match first {
                    Some(f) if known.contains(&check) => w.back(f).take_while(|i| known.contains(i) && w.made[*i].slot >= boundary - PERIOD).collect(),
                    _ => vec![],
                };
                let t = schema::beacon_state(Fork::Electra);
                let mut v = t.gen(r, 0);
                put(&mut v, &t, &["slot"], num(boundary));
                let mut roots: Vec<H> = (0..PERIOD).map(|_| r.array()).collect();
                for i in w.back(head) {
                    if w.made[i].slot < boundary && w.made[i].slot >= boundary - PERIOD {
                        roots[(w.made[i].slot % PERIOD) as usize] = w.made[i].root;
                    }
                }
                put(&mut v, &t, &["block_roots"], V::Items(roots.iter().map(|h| V::Raw(h.to_vec())).collect()));
                let state: H = r.array();
                w.states.insert(hex(&state), t.ser(&v));
                (check, list, state, ossz::merkleize(&roots, 13))
            };
            finalized = true;
            story.push(format!("{check} final"));
            for p in &town.people {
                p.forget();
            }
            let (_, root) = m(check);
            tell("finalized_checkpoint", json!({"block": hx(&root), "state": hx(&state), "epoch": (boundary / 32).to_string(), "execution_optimistic": false}));
            quiet(&town).await;
            let detail = |x: String| j!({"what": x, "story": story, "peers": n, "per item": per_item, "boundary": boundary, "to be proven": list.len()});
            let mut wanted = vec![];
            if !list.is_empty() {
                ctx.event("period proven");
            }
            if early {
                ctx.event("period began just before the start");
            }
            for i in &list {
                let w = world.lock();
                let b = &w.made[*i];
                let by_hash = [&[0u8][..], &b.hash].concat();
                let by_number = [&[3u8][..], &b.block.header.number.to_le_bytes()].concat();
                // some peer took it: the proof is to lead to the roots of the period
                let some = town.people.iter().flat_map(|p| p.took()).find(|t| t.1 == by_hash || t.1 == by_number).map(|t| t.2);
                let Some(v) = some else {
                    wanted.push((by_hash, vec![]));
                    wanted.push((by_number, vec![]));
                    continue;
                };
                let head_len = 8 + b.rlp.len();
                let good = v.len() == head_len + 13 * 32 + 32 + 12 * 32 + 8 && v[..head_len] == ossz::var_list(&[b.rlp.clone(), vec![]])[..head_len] && {
                    let p = &v[head_len..];
                    p[416..448] == b.root
                        && p[832..] == b.slot.to_le_bytes()
                        && climb(b.hash, 6444 - 4096, &p[448..832]) == b.root
                        && climb(b.root, b.slot % PERIOD, &p[..416]) == roots
                };
                ctx.event("header proven");
                ctx.eval("proven", &(case, i, hex(&b.hash)));
                if !ctx.check(good, "wrong-proof", || {
                    let p = if v.len() > head_len + 832 { &v[head_len..] } else { &[0; 840][..] };
                    detail(format!(
                        "block {i} at {}: size {}, root {}, slot {}, in the block {}, in the period {}",
                        b.slot,
                        v.len() == head_len + 840,
                        p[416..448] == b.root,
                        p[832..] == b.slot.to_le_bytes(),
                        climb(b.hash, 6444 - 4096, &p[448..832]) == b.root,
                        climb(b.root, b.slot % PERIOD, &p[..416]) == roots
                    ))
                }) {
                    return;
                }
                wanted.push((by_hash, v.clone()));
                wanted.push((by_number, v));
            }
            items(ctx, &town, &wanted, per_item, &detail, Duration::ZERO);
            if ctx.violated() {
                return;
            }
            known.retain(|i| !list.contains(i) && world.lock().made[*i].slot >= boundary);
            tips.retain(|i| world.lock().made[*i].slot >= boundary);
        }
    }
    ctx.sample("story", || json!({"case": case, "story": story}));
}
/// Waits until nothing is offered or taken any more.
async fn quiet(town: &Town) {
    let mut last = 0;
    for _ in 0..20 {
        town.wait(40).await;
        let now = town.people.iter().map(|p| p.offered().len() + p.took().len()).sum();
        if now == last {
            break;
        }
        last = now;
    }
}
/// Exactly these are offered, to those that store them, and nothing before its time.
fn items(ctx: &mut Ctx, town: &Town, wanted: &[(Vec<u8>, Vec<u8>)], per_item: usize, detail: &dyn Fn(String) -> String, not_before: Duration) {
    let n = town.people.len();
    let offered: Vec<Vec<(Duration, Vec<u8>)>> = town.people.iter().map(|p| p.offered()).collect();
    let took: Vec<Vec<(Duration, Vec<u8>, Vec<u8>)>> = town.people.iter().map(|p| p.took()).collect();
    let keys: BTreeSet<&Vec<u8>> = wanted.iter().map(|w| &w.0).collect();
    for (i, o) in offered.iter().enumerate() {
        for (_, k) in o.iter().filter(|o| o.1[0] != 5) {
            if !ctx.check(keys.contains(k), "unknown-item-offered", || detail(format!("peer {i} was offered {}", hex(k)))) {
                return;
            }
        }
    }
    for (k, v) in wanted {
        let id = content_id(k);
        let cover: Vec<usize> = (0..n).filter(|i| town.people[*i].covers(&id)).collect();
        let got: Vec<usize> = (0..n).filter(|i| offered[*i].iter().any(|o| o.1 == *k)).collect();
        ctx.check(got.iter().all(|i| cover.contains(i)), "offered-beyond-radius", || detail(format!("{} to {got:?} of {cover:?}", hex(k))));
        if !ctx.check(got.len() == cover.len().min(per_item), "not-offered", || detail(format!("{} to {got:?} of {cover:?}", hex(k)))) {
            return;
        }
        for i in got {
            let times: Vec<Duration> = offered[i].iter().filter(|o| o.1 == *k).map(|o| o.0).collect();
            ctx.check(times.len() == 1, "offered-again", || detail(format!("{} to {i} at {times:?}", hex(k))));
            ctx.check(times[0] >= not_before, "before-the-headers", || detail(format!("{} to {i} at {times:?}, not before {not_before:?}", hex(k))));
            let t: Vec<&Vec<u8>> = took[i].iter().filter(|t| t.1 == *k).map(|t| &t.2).collect();
            ctx.event("item received");
            if !ctx.check(t == [v], "wrong-content", || detail(format!("{} to {i}: got {:?}", hex(k), t.iter().map(|t| hex(t)).collect::<Vec<_>>()))) {
                return;
            }
        }
    }
}
