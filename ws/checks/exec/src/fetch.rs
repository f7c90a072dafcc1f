//! Where blocks to be executed come from: an archive, and the beacon chain.
use alloy::{
    consensus::{Header, TxEnvelope},
    eips::eip2718::Encodable2718,
    primitives::B256,
};
use ethportal_api::{
    consensus::{beacon_block::SignedBeaconBlock, beacon_state::HistoricalBatch, fork::ForkName},
    types::execution::builders::block::ExecutionBlockBuilder,
};
use oracle::schema::{self, Fork, V};
use ssz::Decode;
use trin_execution::e2hs::{beacon::ProcessBeaconBlock, manager::E2HSManager, types::ProcessedBlock};
use vcommon::{json, Ctx, Rng};

use super::{
    chain::Chain,
    go::runtime,
    run::some_start,
    serve::{Archive, Fault, Site, PER_FILE},
    world::*,
};

fn raw(t: &TxEnvelope) -> Vec<u8> {
    t.encoded_2718()
}
/// What is wrong about a block, if anything.
fn differs(got: &ProcessedBlock, want: &ProcessedBlock) -> Option<&'static str> {
    if alloy_rlp::encode(&got.header) != alloy_rlp::encode(&want.header) {
        return Some("header");
    }
    if got.uncles.clone().unwrap_or_default() != want.uncles.clone().unwrap_or_default() {
        return Some("uncles");
    }
    if got.withdrawals != want.withdrawals {
        return Some("withdrawals");
    }
    if got.transactions.len() != want.transactions.len() {
        return Some("number of transactions");
    }
    for (g, w) in got.transactions.iter().zip(&want.transactions) {
        if raw(&g.transaction) != raw(&w.transaction) {
            return Some("transaction");
        }
        if g.sender_address != w.sender_address {
            return Some("sender");
        }
    }
    None
}
pub fn fetched(ctx: &mut Ctx) {
    ctx.level("positions, blocks and faults drawn at random");
    let mut rng = ctx.rng.fork("fetched");
    for i in 0..ctx.n(110, 2000) as usize {
        if ctx.saturated() {
            break;
        }
        let mut r = rng.fork(&format!("archive {i}"));
        let _ = rng.u64();
        one(ctx, &mut r, i);
    }
    reqwest::answered_by(None);
    ctx.require("block fetched", 300);
    ctx.require("next file", 10);
    ctx.require("answer broke off", 5);
    ctx.require("failed", 8);
    ctx.require("end of archive", 3);
}
fn one(ctx: &mut Ctx, r: &mut Rng, i: usize) {
    let count = r.range(5, 12);
    let start = match i % 6 {
        0 | 3 => some_start(r, i / 3),
        1 => (1 + r.below(2420)) * PER_FILE - count,
        _ => (1 + r.below(2420)) * PER_FILE - r.range(1, 4),
    };
    let mut c = Chain::start(r, start, 2);
    let mut a = Archive::default();
    let mut want = vec![];
    for _ in 0..count {
        let m = c.block(r, 5);
        a.put(&m.block);
        want.push(m.block);
    }
    let last = c.next - 1;
    let site: Site = a.done();
    site.open();
    let from = if r.bool() { start } else { r.range(start, last) };
    let mut log = vec![];
    if r.bool() {
        let of = match r.below(5) {
            0 => None,
            1 | 2 => Some(from / PER_FILE),
            _ => Some(last / PER_FILE),
        };
        let faults: Vec<Fault> = match r.below(4) {
            0 | 1 if of.is_some() => vec![Fault::BreaksOff; *r.pick(&[1usize, 2, 3, 9, 10, 11])],
            _ => vec![*r.pick(&[Fault::NoConnection, Fault::ServerError, Fault::Cut, Fault::Garbled, Fault::Empty])],
        };
        log.push(format!("{faults:?} for {of:?}"));
        site.fault(of, &faults);
    }
    let disturbed = site.faults.lock().unwrap().values().any(|f| f.len() >= 10 || f.iter().any(|f| *f != Fault::BreaksOff));
    let broke = !disturbed && !log.is_empty();
    if broke {
        ctx.event("answer broke off");
    }
    ctx.eval("archive", &(from, last, log.clone()));
    let what = |x: &str| j!({"from": from, "to": last, "faults": log, "what": x});
    let rt = runtime();
    rt.block_on(async {
        let mut m = match E2HSManager::new(from).await {
            Ok(m) => m,
            Err(e) => {
                ctx.event("failed");
                ctx.check(disturbed, "archive-refused", || what(&format!("{e:#}")));
                return;
            }
        };
        ctx.check(m.last_fetched_block().await.is_err(), "block-before-the-first", || what(""));
        let mut next = from;
        let mut errors = 0;
        while next <= last {
            ctx.check(m.next_block_number() == next, "wrong-next-number", || what(&format!("{} instead of {next}", m.next_block_number())));
            match m.get_next_block().await {
                Ok(b) => {
                    ctx.event("block fetched");
                    if next % PER_FILE == 0 {
                        ctx.event("next file");
                    }
                    let d = differs(b, &want[(next - start) as usize]);
                    if !ctx.check(d.is_none(), "wrong-block-fetched", || what(&format!("{d:?} of block {next}, got number {}", b.header.number))) {
                        return;
                    }
                    let again = m.last_fetched_block().await.ok().map(|b| b.header.number);
                    ctx.check(again == Some(next), "wrong-last-block", || what(&format!("{again:?} instead of {next}")));
                    next += 1;
                }
                Err(e) => {
                    ctx.event("failed");
                    errors += 1;
                    ctx.check(disturbed, "block-not-fetched", || what(&format!("block {next}: {e:#}")));
                    if errors > 3 {
                        return;
                    }
                }
            }
        }
        if (last + 1) % PER_FILE == 0 {
            ctx.event("end of archive");
            let more = m.get_next_block().await.map(|b| b.header.number);
            ctx.check(more.is_err(), "block-after-the-last", || what(&format!("{more:?}")));
        }
        // nothing is fetched twice without need
        let mut asked = site.asked.lock().unwrap().clone();
        asked.sort();
        let many = asked.len();
        asked.dedup();
        if !disturbed && !broke {
            ctx.check(many == asked.len(), "file-fetched-twice", || what(&format!("{asked:?}")));
        }
    });
    if disturbed {
        // a task that gave up over a garbled file was reported as a failure to whoever waited for it
        let _ = vcommon::take_background_panics();
    }
    ctx.sample("archive", || json!({"from": from, "to": last, "faults": log}));
}

fn set(v: &mut V, t: &schema::T, path: &[&str], to: V) {
    let V::Items(items) = v else { panic!("composite") };
    let i = t.field(path[0]);
    if path.len() == 1 {
        items[i] = to;
    } else {
        set(&mut items[i], t.ty(path[0]), &path[1..], to);
    }
}
fn word(b: impl AsRef<[u8]>) -> V {
    V::Raw(b.as_ref().to_vec())
}
pub fn beacon(ctx: &mut Ctx) {
    ctx.level("blocks of the four forks in turn; contents, slots and alterations drawn at random");
    let mut rng = ctx.rng.fork("beacon");
    for i in 0..ctx.n(160, 4000) as usize {
        if ctx.saturated() {
            break;
        }
        let mut r = rng.fork(&format!("block {i}"));
        let _ = rng.u64();
        convert(ctx, &mut r, i);
    }
    ctx.require("block taken out", 100);
    ctx.require("altered block", 200);
    ctx.require("proof verified", 100);
}
fn requests_hash(t: &schema::T, v: &V) -> [u8; 32] {
    let V::Items(lists) = v else { panic!("three lists") };
    let mut all = vec![];
    for (i, name) in ["deposits", "withdrawals", "consolidations"].iter().enumerate() {
        let b = t.ty(name).ser(&lists[i]);
        if !b.is_empty() {
            all.extend(oracle::sha256(&[vec![i as u8], b].concat()));
        }
    }
    oracle::sha256(&all)
}
fn convert(ctx: &mut Ctx, r: &mut Rng, i: usize) {
    let (f, name, start) = match i % 4 {
        0 => (Fork::Bellatrix, ForkName::Bellatrix, PARIS + r.below(1_000_000)),
        1 => (Fork::Capella, ForkName::Capella, SHANGHAI + r.below(1_000_000)),
        2 => (Fork::Deneb, ForkName::Deneb, CANCUN + r.below(1_000_000)),
        _ => (Fork::Electra, ForkName::Electra, 22_431_084 + r.below(1_000_000)),
    };
    let mut c = Chain::start(r, start, 2);
    let most = r.index(7);
    let mut m = c.block(r, most);
    let t = schema::signed_beacon_block(f);
    let mut v = t.gen(r, 2);
    let body = t.ty("message").ty("body");
    let h: &mut Header = &mut m.block.header;
    h.receipts_root = r.array::<32>().into();
    h.logs_bloom = alloy::primitives::Bloom::from_slice(&r.bytes(256));
    let n = r.index(33);
    h.extra_data = r.bytes(n).into();
    h.gas_used = r.u64();
    if f >= Fork::Deneb {
        h.blob_gas_used = Some(r.u64());
        h.excess_blob_gas = Some(r.u64());
        let V::Items(top) = &v else { panic!("composite") };
        let msg = &top[t.field("message")];
        h.parent_beacon_block_root = Some(B256::from_slice(msg.item(t.ty("message").field("parent_root")).raw()));
        if f == Fork::Electra {
            let req = msg.item(t.ty("message").field("body")).item(body.field("execution_requests"));
            h.requests_hash = Some(requests_hash(body.ty("execution_requests"), req).into());
        }
    }
    let hash = oracle::keccak256(&alloy_rlp::encode(&*h));
    let p = ["message", "body", "execution_payload"];
    let mut put = |name: &'static str, to: V| set(&mut v, &t, &[p[0], p[1], p[2], name], to);
    let le = |n: u64| V::Raw(n.to_le_bytes().to_vec());
    put("parent_hash", word(h.parent_hash));
    put("fee_recipient", word(h.beneficiary));
    put("state_root", word(h.state_root));
    put("receipts_root", word(h.receipts_root));
    put("logs_bloom", word(h.logs_bloom));
    put("prev_randao", word(h.mix_hash));
    put("block_number", le(h.number));
    put("gas_limit", le(h.gas_limit));
    put("gas_used", le(h.gas_used));
    put("timestamp", le(h.timestamp));
    put("extra_data", word(&h.extra_data));
    let mut fee = h.base_fee_per_gas.unwrap_or(0).to_le_bytes().to_vec();
    fee.resize(32, 0);
    put("base_fee_per_gas", V::Raw(fee));
    put("block_hash", word(hash));
    put("transactions", V::Items(m.block.transactions.iter().map(|t| V::Raw(raw(&t.transaction))).collect()));
    if let Some(ws) = &m.block.withdrawals {
        put("withdrawals", V::Items(ws.iter().map(|w| V::Items(vec![le(w.index), le(w.validator_index), word(w.address), le(w.amount)])).collect()));
    }
    if f >= Fork::Deneb {
        put("blob_gas_used", le(h.blob_gas_used.unwrap_or(0)));
        put("excess_blob_gas", le(h.excess_blob_gas.unwrap_or(0)));
    }
    let what = j!({"fork": format!("{f:?}"), "number": h.number, "transactions": m.block.transactions.len(), "withdrawals": m.block.withdrawals.as_ref().map(|w| w.len())});
    let Ok(block) = SignedBeaconBlock::from_ssz_bytes(&t.ser(&v), name) else {
        return ctx.violation("beacon-block-unreadable", what);
    };
    ctx.eval("beacon block", &hash);
    ctx.event("block taken out");
    match ctx.no_panic("panic-while-converting", || what.clone(), || block.process_beacon_block()) {
        Some(Ok(got)) => {
            let d = differs(&got, &m.block);
            ctx.check(d.is_none(), "wrong-block-taken-out", || j!({"block": what, "differs": d}));
        }
        Some(Err(e)) => ctx.violation("right-block-refused", j!({"block": what, "error": format!("{e:#}")})),
        None => {}
    }
    proven(ctx, r, &block, f, &t, &v, &m.block, &what);
    // a payload that is not the one of its hash is refused
    let pt = body.ty("execution_payload");
    let schema::T::C(fields) = pt else { panic!("container") };
    for _ in 0..3 {
        let (field, ft) = r.pick(fields).clone();
        let mut bad = v.clone();
        let old = {
            let V::Items(top) = &v else { panic!("composite") };
            top[t.field("message")].item(t.ty("message").field("body")).item(body.field("execution_payload")).item(pt.field(field)).clone()
        };
        let new = match field {
            "transactions" => {
                let V::Items(mut x) = old.clone() else { panic!("list") };
                match r.below(3) {
                    0 if !x.is_empty() => {
                        let k = r.index(x.len());
                        x.remove(k);
                    }
                    1 if x.len() > 1 => x.swap(0, 1),
                    _ => {
                        let k = r.index(3);
                        x.push(if k == 0 { V::Raw(r.bytes(40)) } else if x.is_empty() { V::Raw(vec![]) } else { x[0].clone() });
                    }
                }
                V::Items(x)
            }
            _ => ft.gen(r, 3),
        };
        if new == old {
            continue;
        }
        set(&mut bad, &t, &[p[0], p[1], p[2], field], new);
        let Ok(b) = SignedBeaconBlock::from_ssz_bytes(&t.ser(&bad), name) else { continue };
        ctx.event("altered block");
        ctx.eval("altered block", &(hash, field));
        let got = ctx.no_panic("panic-while-converting", || j!({"block": what, "altered": field}), || b.process_beacon_block().is_ok());
        ctx.check(got != Some(true), "altered-block-taken-out", || j!({"block": what, "altered": field}));
    }
    if f >= Fork::Deneb {
        let mut bad = v.clone();
        let field: &[&str] = if f == Fork::Electra && r.bool() { &["message", "body", "execution_requests"] } else { &["message", "parent_root"] };
        let ft = if field.len() == 3 { body.ty("execution_requests") } else { t.ty("message").ty("parent_root") };
        let new = ft.gen(r, 2);
        let same = {
            let V::Items(top) = &v else { panic!("composite") };
            let msg = &top[t.field("message")];
            let old = if field.len() == 3 { msg.item(t.ty("message").field("body")).item(body.field("execution_requests")) } else { msg.item(t.ty("message").field("parent_root")) };
            *old == new
        };
        if !same {
            set(&mut bad, &t, field, new);
            if let Ok(b) = SignedBeaconBlock::from_ssz_bytes(&t.ser(&bad), name) {
                ctx.event("altered block");
                ctx.check(b.process_beacon_block().is_err(), "altered-block-taken-out", || j!({"block": what, "altered": field}));
            }
        }
    }
    ctx.sample("beacon block", || json!({"fork": format!("{f:?}"), "transactions": m.block.transactions.len(), "hash": vcommon::hex(&hash)}));
}
fn climb(leaf: [u8; 32], index: u64, branch: &[B256]) -> [u8; 32] {
    let mut x = leaf;
    for (i, s) in branch.iter().enumerate() {
        x = if index >> i & 1 == 1 { oracle::sha2(&s.0, &x) } else { oracle::sha2(&x, &s.0) };
    }
    x
}
/// The block with its proof: the body and the header are right, and the proof leads from the
/// block's hash to the root of the period.
#[allow(clippy::too_many_arguments)]
fn proven(ctx: &mut Ctx, r: &mut Rng, block: &SignedBeaconBlock, f: Fork, t: &schema::T, v: &V, want: &ProcessedBlock, what: &str) {
    use ethportal_api::types::execution::header_with_proof::BlockHeaderProof as P;
    let V::Items(top) = v else { panic!("composite") };
    let mt = t.ty("message");
    let msg = &top[t.field("message")];
    let slot = u64::from_le_bytes(msg.item(mt.field("slot")).raw().try_into().expect("eight"));
    let root = mt.root(msg);
    let bt = schema::historical_batch();
    let mut roots: Vec<V> = (0..8192).map(|_| V::Raw(vec![r.u8(); 32])).collect();
    roots[(slot % 8192) as usize] = V::Raw(root.to_vec());
    let states: Vec<V> = vec![V::Raw(r.bytes(32)); 8192];
    let bv = V::Items(vec![V::Items(roots), V::Items(states)]);
    let Ok(batch) = HistoricalBatch::from_ssz_bytes(&bt.ser(&bv)) else {
        return ctx.violation("batch-unreadable", what);
    };
    let got = match ctx.no_panic("panic-while-converting", || what.to_string(), || ExecutionBlockBuilder::build(block, &batch)) {
        Some(Ok(g)) => g,
        Some(Err(e)) => return ctx.violation("right-block-refused", j!({"block": what, "error": format!("{e:#}")})),
        None => return,
    };
    let (hp, b) = got;
    let same = alloy_rlp::encode(&hp.header) == alloy_rlp::encode(&want.header)
        && b.0.transactions.iter().map(raw).collect::<Vec<_>>() == want.transactions.iter().map(|t| raw(&t.transaction)).collect::<Vec<_>>()
        && b.0.ommers.is_empty()
        && b.0.withdrawals.as_ref().map(|w| w.0.clone()) == want.withdrawals;
    ctx.check(same, "wrong-block-built", || what.to_string());
    let hash = oracle::keccak256(&alloy_rlp::encode(&want.header));
    let (exec, ex_index, up, bbr, s): (Vec<B256>, u64, Vec<B256>, B256, u64) = match &hp.proof {
        P::HistoricalRoots(p) => (p.execution_block_proof.iter().copied().collect(), 3228, p.beacon_block_proof.iter().copied().collect(), p.beacon_block_root, p.slot),
        P::HistoricalSummariesCapella(p) => (p.execution_block_proof.iter().copied().collect(), 3228, p.beacon_block_proof.iter().copied().collect(), p.beacon_block_root, p.slot),
        P::HistoricalSummariesDeneb(p) => (p.execution_block_proof.iter().copied().collect(), 6444, p.beacon_block_proof.iter().copied().collect(), p.beacon_block_root, p.slot),
        _ => return ctx.violation("wrong-kind-of-proof", what),
    };
    let depth = exec.len();
    ctx.check(matches!((f, &hp.proof), (Fork::Bellatrix, P::HistoricalRoots(_)) | (Fork::Capella, P::HistoricalSummariesCapella(_)) | (Fork::Deneb | Fork::Electra, P::HistoricalSummariesDeneb(_))), "wrong-kind-of-proof", || what.to_string());
    ctx.check(s == slot && bbr.0 == root, "proof-of-another-block", || j!({"block": what, "slot": s, "want": slot}));
    ctx.check(climb(hash, ex_index - (1 << depth), &exec) == root, "block-hash-not-proven", || what.to_string());
    let whole = if f == Fork::Bellatrix { bt.root(&bv) } else { bt.field_roots(&bv)[0] };
    let index = slot % 8192;
    ctx.check(climb(root, index, &up) == whole && up.len() == if f == Fork::Bellatrix { 14 } else { 13 }, "beacon-block-not-proven", || what.to_string());
    ctx.event("proof verified");
}
