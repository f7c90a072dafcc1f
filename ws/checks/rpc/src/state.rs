//! Questions about accounts at a block, answered from contents of the networks.
use std::{collections::BTreeSet, sync::Arc};

use alloy::primitives::{Address, TxKind, B256, U256};
use ethportal_api::types::network::Subnetwork;
use futures::future::join_all;
use oracle::{exec::Era, keccak256, mpt};
use parking_lot::Mutex;
use revm::ops;
use serde_json::Value;
use vcommon::{hex, json, Ctx, Rng};

use crate::{
    accounts::{all_nodes, Acc, Env, End, Tx, World, LONDON, PARIS},
    blocks::{self, Proven},
    header::{Kind, KINDS},
    place::{self, Fault, Place, Reply, Shared, FAULTS},
    tries::{Form, Name},
};

pub struct At {
    pub world: World,
    pub proven: Proven,
    pub hash: [u8; 32],
}
struct Ground {
    blocks: Vec<At>,
    keys: Vec<U256>,
    callers: Vec<Address>,
    contracts: Vec<Address>,
    plain: Vec<Address>,
}
fn address(r: &mut Rng) -> Address {
    Address::from(r.array::<20>())
}
fn eth(n: u64) -> U256 {
    U256::from(n) * U256::from(1_000_000_000_000_000_000u64)
}
fn value(r: &mut Rng) -> U256 {
    match r.below(5) {
        0 => U256::from(1 + r.below(200)),
        1 => U256::MAX,
        2 => U256::from(1) << r.below(256),
        3 => U256::from(r.u64() | 1),
        _ => U256::from_be_bytes(r.array::<32>()) | U256::from(1),
    }
}
fn make(r: &mut Rng) -> Ground {
    let mut trusted = blocks::world(r);
    let mut keys: Vec<U256> = (0..r.range(1, 8)).map(U256::from).collect();
    keys.extend([U256::MAX, U256::from_be_bytes(r.array::<32>())]);
    let callers: Vec<_> = (0..r.range(1, 3)).map(|_| address(r)).collect();
    let contracts: Vec<_> = (0..r.range(1, 5)).map(|_| address(r)).collect();
    let plain: Vec<_> = (0..r.range(0, 30)).map(|_| address(r)).collect();
    let codes: Vec<Vec<u8>> = (0..3)
        .map(|_| {
            let n = *r.pick(&[1usize, 31, 33, 700, 24_576]);
            let mut c = r.bytes(n);
            // those begin other kinds of code
            if c[0] == 0xef {
                c[0] = 0x60;
            }
            c
        })
        .collect();
    let mut out = vec![];
    let mut used = BTreeSet::new();
    for _ in 0..r.range(1, 3) {
        let mut w = World::default();
        for a in &callers {
            w.accs.insert(*a, Acc { nonce: *r.pick(&[0, 1, 127, 128, 70_000]), balance: eth(1_000_000 + r.below(1000)), ..Default::default() });
        }
        for (i, a) in contracts.iter().enumerate() {
            let balance = if r.bool() { U256::ZERO } else { eth(r.below(50)) };
            let mut x = Acc { nonce: 1, balance, code: codes[r.index(3)].clone(), ..Default::default() };
            let n = if i == 0 { r.usize_in(0, 60) } else { r.usize_in(0, 4) };
            for k in 0..n {
                let k = if i == 0 && r.bool() { U256::from(1000 + k) } else { *r.pick(&keys) };
                x.slots.insert(k, value(r));
            }
            w.accs.insert(*a, x);
        }
        for a in &plain {
            if r.chance(2, 3) {
                w.accs.insert(*a, Acc { nonce: r.below(3), balance: value(r), ..Default::default() });
            }
        }
        let kind = *r.pick(&KINDS);
        let mut p = loop {
            let p = blocks::proven(r, kind, &mut trusted);
            if used.insert(p.block.header.number) {
                break p;
            }
        };
        let h = &mut p.block.header;
        h.state_root = w.root().0;
        h.gas_limit = 30_000_000 + r.below(1000);
        h.base_fee = 7 + r.below(90_000_000_000);
        h.excess_blob = *r.pick(&[0, 131_072, 393_216, 10_000_000, 60_000_000]);
        if r.chance(1, 3) {
            h.beneficiary = r.pick(&contracts).0 .0;
        }
        p.claim.hdr = h.clone();
        let hash = p.block.header.hash();
        out.push(At { world: w, proven: p, hash });
    }
    keys.push(U256::from(1000));
    keys.push(U256::from(1001));
    Ground { blocks: out, keys, callers, contracts, plain }
}
/// Everything the networks have about the blocks.
fn shelves(g: &Ground) -> (Shared, Shared) {
    let (h, s) = (Arc::new(Mutex::new(place::Shelf::default())), Arc::new(Mutex::new(place::Shelf::default())));
    for b in &g.blocks {
        let c = blocks::header_content(&b.proven.claim);
        let mut l = h.lock();
        l.has.insert(blocks::by_hash(&b.hash), c.clone());
        l.has.insert(blocks::by_number(b.proven.block.header.number), c);
        let mut l = s.lock();
        let zero = [0; 32];
        for (path, proof) in all_nodes(&b.world.pairs()) {
            let n = proof.last().expect("a node").clone();
            l.has.insert(Name::Account { path, hash: keccak256(&n) }.bytes(), Form::Node(n).bytes(&zero));
        }
        for (a, x) in &b.world.accs {
            let address = keccak256(a.as_slice());
            for (path, proof) in all_nodes(&x.storage_pairs()) {
                let n = proof.last().expect("a node").clone();
                l.has.insert(Name::Storage { address, path, hash: keccak256(&n) }.bytes(), Form::Node(n).bytes(&zero));
            }
            if !x.code.is_empty() {
                l.has.insert(Name::Code { address, hash: keccak256(&x.code) }.bytes(), Form::Code(x.code.clone()).bytes(&zero));
            }
        }
    }
    (h, s)
}
/// Nodes that must be read to learn about the account.
fn needs_account(b: &At, a: &Address) -> Vec<Vec<u8>> {
    mpt::path_nodes(&b.world.pairs(), &mpt::nibbles(&keccak256(a.as_slice())))
        .into_iter()
        .filter(|(p, n)| n.len() >= 32 || p.is_empty())
        .map(|(path, n)| Name::Account { path, hash: keccak256(&n) }.bytes())
        .collect()
}
fn needs_slot(b: &At, a: &Address, k: U256) -> Vec<Vec<u8>> {
    let Some(x) = b.world.accs.get(a) else { return vec![] };
    if x.storage_pairs().is_empty() {
        return vec![];
    }
    let address = keccak256(a.as_slice());
    mpt::path_nodes(&x.storage_pairs(), &mpt::nibbles(&keccak256(&k.to_be_bytes::<32>())))
        .into_iter()
        .filter(|(p, n)| n.len() >= 32 || p.is_empty())
        .map(|(path, n)| Name::Storage { address, path, hash: keccak256(&n) }.bytes())
        .collect()
}
#[derive(Clone, Debug)]
enum Expect {
    Is(Value),
    Error(Option<i32>),
}
struct Question {
    what: &'static str,
    method: &'static str,
    params: Vec<Value>,
    expect: Expect,
    /// Contents without which it cannot be answered.
    needs: Vec<Vec<u8>>,
    header: Option<Vec<u8>>,
}
fn env(b: &At) -> Env {
    let h = &b.proven.block.header;
    let london = h.era >= Era::London;
    Env {
        number: h.number,
        timestamp: h.timestamp,
        gas_limit: h.gas_limit,
        basefee: if london { h.base_fee } else { 0 },
        difficulty: U256::from_be_slice(&h.difficulty),
        mix: h.mix.into(),
        excess_blob: if h.era >= Era::Cancun { h.excess_blob } else { 0 },
        coinbase: h.beneficiary.into(),
        hashes: Default::default(),
    }
}
fn qty(v: impl std::fmt::LowerHex) -> Value {
    json!(format!("{v:#x}"))
}
fn program(r: &mut Rng, g: &Ground) -> Vec<u8> {
    let mut out = vec![];
    let word = |v: U256| v.to_be_bytes::<32>();
    let someone = |r: &mut Rng| match r.below(4) {
        0 => *r.pick(&g.callers),
        1 => *r.pick(&g.contracts),
        2 if !g.plain.is_empty() => *r.pick(&g.plain),
        _ => address(r),
    };
    for _ in 0..r.usize_in(0, 8) {
        let k = word(*r.pick(&g.keys));
        match r.below(20) {
            0..=1 => {
                out.push(ops::STORE);
                out.extend(k);
                out.extend(word(value(r)));
            }
            2..=5 => {
                out.push(ops::FACT);
                out.extend(k);
                let f = loop {
                    let f = r.below(16);
                    // what a type of its own would say
                    if f != 12 {
                        break f;
                    }
                };
                out.extend(word(U256::from(f)));
            }
            6..=7 => {
                out.push(ops::COPY);
                out.extend(k);
                out.extend(word(*r.pick(&g.keys)));
            }
            8..=10 => {
                out.push(ops::BALANCE);
                out.extend(k);
                out.extend(someone(r).as_slice());
            }
            11..=12 => {
                out.push(ops::CODE);
                out.extend(k);
                out.extend(someone(r).as_slice());
            }
            13 => {
                out.push(ops::SEND);
                out.extend(someone(r).as_slice());
                out.extend(word(*r.pick(&[U256::ZERO, U256::from(1), eth(60)])));
            }
            14 if r.chance(1, 4) => out.push(ops::REVERT),
            15 if r.chance(1, 8) => out.push(0xfe),
            _ => {
                out.push(ops::SHOW);
                out.extend(word(*r.pick(&g.keys)));
            }
        }
        if r.bool() {
            out.push(ops::SHOW);
            out.extend(k);
        }
    }
    if r.chance(1, 3) {
        out.push(ops::END);
        let n = r.usize_in(0, 40);
        out.extend(r.bytes(n));
    }
    out
}
/// A call, and what comes of it.
fn called(r: &mut Rng, g: &Ground, b: &At) -> (Value, Expect, &'static str) {
    let e = env(b);
    let from = *r.pick(&g.callers);
    let to = match r.below(8) {
        0 => address(r),
        1 => *r.pick(&g.callers),
        _ => *r.pick(&g.contracts),
    };
    let data = if r.chance(1, 10) { vec![] } else { program(r, g) };
    let nonce = b.world.get(&from).nonce;
    let mut j = json!({"from": from, "to": to});
    let base = if e.number >= LONDON { e.basefee as u128 } else { 0 };
    let mut t = Tx {
        ty: 0,
        from,
        kind: TxKind::Call(to),
        gas_limit: e.gas_limit,
        max_fee: base,
        tip: None,
        value: U256::ZERO,
        data,
        nonce,
        chain_id: None,
        access: vec![],
        blobs: vec![],
        max_blob_fee: 0,
    };
    if nonce != 0 || r.bool() {
        j["nonce"] = qty(nonce);
    }
    if !t.data.is_empty() || r.bool() {
        let d = format!("0x{}", hex(&t.data));
        j[if r.bool() { "data" } else { "input" }] = d.into();
    }
    if r.chance(2, 3) {
        t.gas_limit = ops::BASE_GAS + *r.pick(&[0, 3 * ops::GAS, 1000, 400_000, 9_000_000]);
        j["gas"] = qty(t.gas_limit);
    }
    match r.below(4) {
        0 => {
            t.max_fee = base + *r.pick(&[0u128, 1, 77_000_000_000]);
            j["gasPrice"] = qty(t.max_fee);
        }
        1 => {
            t.max_fee = base + *r.pick(&[0u128, 1, 77_000_000_000]);
            j["maxFeePerGas"] = qty(t.max_fee);
            if r.bool() {
                t.tip = Some((*r.pick(&[0u128, 1, 2_000_000_000])).min(t.max_fee));
                j["maxPriorityFeePerGas"] = qty(t.tip.unwrap_or(0));
            }
        }
        _ => {}
    }
    if r.chance(1, 3) {
        t.value = *r.pick(&[U256::from(1), U256::from(12_345), eth(3)]);
        j["value"] = qty(t.value);
    }
    if r.chance(1, 3) {
        t.chain_id = Some(1);
        j["chainId"] = qty(1);
    }
    if r.chance(1, 4) {
        t.access = (0..r.range(1, 2)).map(|_| (address(r), (0..r.index(3)).map(|_| B256::from(r.array::<32>())).collect())).collect();
        j["accessList"] = t.access.iter().map(|(a, k)| json!({"address": a, "storageKeys": k})).collect();
    }
    if r.chance(1, 8) {
        // something that no block could contain
        let what = match r.below(5) {
            0 => {
                j["nonce"] = qty(nonce + 1);
                "nonce of later"
            }
            1 => {
                j["chainId"] = qty(*r.pick(&[2u64, 5, 1337]));
                "another chain"
            }
            2 => {
                j["gas"] = qty(e.gas_limit + 1);
                "more gas than a block has"
            }
            3 if base > 0 => {
                j["gasPrice"] = qty(base - 1);
                j["maxFeePerGas"] = Value::Null;
                j["maxPriorityFeePerGas"] = Value::Null;
                "less than the base fee"
            }
            _ => {
                j["value"] = qty(eth(90_000_000));
                "more than there is"
            }
        };
        return (j, Expect::Error(None), what);
    }
    let mut w = b.world.clone();
    let o = w.apply(&e, &t);
    match o.end {
        End::Done if o.out.is_empty() => (j, Expect::Is(json!("0x")), "call without an answer"),
        End::Done => (j, Expect::Is(json!(format!("0x{}", hex(&o.out)))), "call with an answer"),
        End::Undone => (j, Expect::Error(Some(-32000)), "call that undoes itself"),
        End::OutOfGas => (j, Expect::Error(Some(-32000)), "call that fails"),
    }
}
fn question(r: &mut Rng, g: &Ground) -> Question {
    let b = r.pick(&g.blocks);
    let n = b.proven.block.header.number;
    let (id, header) = match r.below(5) {
        0 => (json!(format!("{n:#x}")), Some(blocks::by_number(n))),
        1 => (json!({"blockNumber": format!("{n:#x}")}), Some(blocks::by_number(n))),
        2 => (json!({"blockHash": format!("0x{}", hex(&b.hash))}), Some(blocks::by_hash(&b.hash))),
        _ => (json!(format!("0x{}", hex(&b.hash))), Some(blocks::by_hash(&b.hash))),
    };
    let who = match r.below(6) {
        0 => *r.pick(&g.callers),
        1 | 2 => *r.pick(&g.contracts),
        3 => address(r),
        _ if !g.plain.is_empty() => *r.pick(&g.plain),
        _ => *r.pick(&g.contracts),
    };
    let acc = b.world.get(&who);
    let mut needs = needs_account(b, &who);
    let (method, mut params, expect, what) = match r.below(8) {
        0 | 1 => ("eth_getBalance", vec![json!(who)], Expect::Is(qty(acc.balance)), "balance"),
        2 => {
            if !acc.code.is_empty() {
                needs.push(Name::Code { address: keccak256(who.as_slice()), hash: keccak256(&acc.code) }.bytes());
            }
            ("eth_getCode", vec![json!(who)], Expect::Is(json!(format!("0x{}", hex(&acc.code)))), "code")
        }
        3 | 4 => {
            let k = match r.below(3) {
                0 => U256::from(r.u64()),
                1 if !acc.slots.is_empty() => *r.pick(&acc.slots.keys().copied().collect::<Vec<_>>()),
                _ => *r.pick(&g.keys),
            };
            needs.extend(needs_slot(b, &who, k));
            let v = acc.slots.get(&k).copied().unwrap_or_default();
            let what = match (acc.slots.is_empty(), acc.code.is_empty(), v.is_zero()) {
                (true, false, _) => "slot of a contract that stores nothing",
                (true, true, _) => "slot of no contract",
                (false, _, true) => "slot that is not set",
                _ => "slot",
            };
            ("eth_getStorageAt", vec![json!(who), qty(k)], Expect::Is(json!(B256::from(v))), what)
        }
        _ => {
            needs.clear();
            let (t, e, what) = called(r, g, b);
            ("eth_call", vec![t], e, what)
        }
    };
    let (id, header, expect) = if r.chance(1, 25) {
        // a block that nobody knows
        let id = match r.below(3) {
            0 => json!(*r.pick(&["latest", "pending", "earliest", "safe", "finalized"])),
            1 => json!(format!("{:#x}", n.wrapping_add(1 + r.below(3)))),
            _ => json!(format!("0x{}", hex(&r.array::<32>()))),
        };
        let known = id.as_str().is_some_and(|s| g.blocks.iter().any(|b| s == format!("{:#x}", b.proven.block.header.number)));
        if known {
            (json!("latest"), None, Expect::Error(None))
        } else {
            (id, None, Expect::Error(None))
        }
    } else {
        (id, header, expect)
    };
    params.push(id);
    Question { what, method, params, expect, needs, header }
}
fn judge(ctx: &mut Ctx, q: &Question, got: &Reply, faulty: bool) {
    let detail = || j!({"method": q.method, "params": q.params, "expected": format!("{:?}", q.expect), "got": format!("{got:?}").chars().take(2000).collect::<String>(), "withheld": faulty});
    ctx.eval(q.method, &(q.what, faulty, vcommon::hash_of(&json!(q.params).to_string())));
    ctx.event(q.what);
    match (&q.expect, got) {
        (Expect::Is(v), Ok(g)) => {
            // numbers are compared as numbers
            let same = v == g || q.method == "eth_getBalance" && v.as_str().and_then(|s| s.parse::<U256>().ok()) == g.as_str().and_then(|s| s.parse().ok());
            ctx.check(same, &format!("wrong-answer-{}", q.method), detail);
        }
        (Expect::Is(_), Err(_)) => {
            if !faulty {
                let sig = if q.what == "slot of a contract that stores nothing" || q.what == "slot of no contract" { "no-answer-for-empty-storage".into() } else { format!("no-answer-{}", q.method) };
                ctx.violation(&sig, detail());
            }
        }
        (Expect::Error(_), Ok(_)) => {
            ctx.violation(&format!("answered-{}", q.method), detail());
        }
        (Expect::Error(Some(c)), Err(e)) => {
            if !faulty {
                ctx.check(e.code() == *c, "wrong-error-code", detail);
            }
        }
        (Expect::Error(None), Err(_)) => {}
    }
}
pub fn queries(ctx: &mut Ctx) {
    ctx.rule("balances, code, storage and results of calls at a block are those of the state the header names, or the query fails; content that cannot be had makes the query that needs it fail");
    ctx.level("served interface of a node, networks played by the check");
    ctx.assume("execution of calls is that of the stand-in machine; the networks have checked what they hand out");
    let rt = crate::rt();
    let mut r = ctx.rng.fork("state");
    for _ in 0..ctx.n(250, 3000) {
        if ctx.saturated() {
            break;
        }
        let g = make(&mut r);
        let (h, s) = shelves(&g);
        let place = rt.block_on(async {
            let mut p = place::serve(&mut r, &[Subnetwork::LegacyHistory, Subnetwork::State]).await;
            tokio::spawn(place::keep_history(p.history.take().expect("history"), h.clone(), r.fork("h")));
            tokio::spawn(place::keep_state(p.state.take().expect("state"), s.clone(), r.fork("s")));
            p
        });
        // one at a time, some with contents withheld
        for _ in 0..ctx.n(14, 20) {
            let q = question(&mut r, &g);
            h.lock().bad.clear();
            s.lock().bad.clear();
            let mut fault = None;
            if r.chance(1, 3) {
                let f = *r.pick(&FAULTS);
                fault = Some(f);
                if q.header.is_some() && r.chance(1, 5) {
                    h.lock().bad.insert(q.header.clone().expect("a header"), f);
                } else if !q.needs.is_empty() && r.chance(3, 4) {
                    let k = r.pick(&q.needs).clone();
                    s.lock().bad.insert(k, f);
                } else {
                    let mut l = s.lock();
                    let all: Vec<_> = l.has.keys().cloned().collect();
                    let step = r.usize_in(1, 6);
                    let at = r.index(step);
                    for k in all.into_iter().skip(at).step_by(step) {
                        l.bad.insert(k, f);
                    }
                }
            }
            h.lock().asked.clear();
            s.lock().asked.clear();
            let got = rt.block_on(place.call(q.method, q.params.clone()));
            let (faulty, needed) = {
                let (h, s) = (h.lock(), s.lock());
                let faulty = h.asked.iter().any(|k| h.bad.contains_key(k)) || s.asked.iter().any(|k| s.bad.contains_key(k));
                let needed = q.header.as_ref().is_some_and(|k| h.bad.contains_key(k)) || q.needs.iter().any(|k| s.bad.contains_key(k));
                (faulty, needed)
            };
            if let (true, Some(f)) = (faulty, fault) {
                ctx.event(&format!("withheld {f:?}"));
            }
            if needed && q.header.is_some() {
                // a silent network is as good as none
                ctx.check(got.is_err(), "answered-without-what-it-needs", || j!({"method": q.method, "params": q.params, "got": format!("{got:?}"), "fault": format!("{fault:?}")}));
            }
            judge(ctx, &q, &got, faulty);
        }
        // several at once
        h.lock().bad.clear();
        s.lock().bad.clear();
        let qs: Vec<_> = (0..r.usize_in(2, 8)).map(|_| question(&mut r, &g)).collect();
        let got = rt.block_on(join_all(qs.iter().map(|q| {
            let c = place.methods.call_value(q.method, q.params.clone());
            rt.spawn(c)
        })));
        for (q, a) in qs.iter().zip(got) {
            match a {
                Ok(a) => judge(ctx, q, &a, false),
                Err(e) => {
                    ctx.violation("query-died", j!({"method": q.method, "params": q.params, "error": e.to_string()}));
                }
            }
        }
        ctx.event("asked together");
        let odd: Vec<_> = h.lock().odd.iter().chain(&s.lock().odd).cloned().collect();
        ctx.check(odd.is_empty(), "other-requests", || j!({"requests": odd}));
        let b = &g.blocks[0];
        ctx.sample("ground", || json!({"blocks": g.blocks.len(), "accounts": b.world.accs.len(), "number": b.proven.block.header.number}));
        let _ = place.handle.clone().stop();
    }
    without_state(ctx, &rt, &mut r);
    for k in ["balance", "code", "slot", "slot that is not set", "slot of a contract that stores nothing", "call with an answer", "call that undoes itself", "call that fails", "another chain", "nonce of later", "asked together"] {
        ctx.require(k, 5);
    }
    for f in FAULTS {
        ctx.require(&format!("withheld {f:?}"), 2);
    }
    let _ = (Fault::Silent, Kind::Hashes, PARIS);
}
/// A node without the state network cannot tell, and says so.
fn without_state(ctx: &mut Ctx, rt: &tokio::runtime::Runtime, r: &mut Rng) {
    for _ in 0..ctx.n(3, 20) {
        let g = make(r);
        let (h, _) = shelves(&g);
        let place: Place = rt.block_on(async {
            let mut p = place::serve(r, &[Subnetwork::LegacyHistory]).await;
            tokio::spawn(place::keep_history(p.history.take().expect("history"), h.clone(), r.fork("h")));
            p
        });
        for _ in 0..10 {
            let q = question(r, &g);
            let got = rt.block_on(place.call(q.method, q.params.clone()));
            ctx.check(got.is_err(), "answered-without-state", || j!({"method": q.method, "got": format!("{got:?}")}));
            ctx.eval("without state", &(q.method, got.is_err()));
        }
        let _ = place.handle.stop();
    }
}
