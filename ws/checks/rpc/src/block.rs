//! Questions for blocks.
use std::sync::Arc;

use alloy::primitives::U256;
use ethportal_api::types::network::Subnetwork;
use futures::future::join_all;
use oracle::{exec::Era, keccak256, rlp};
use parking_lot::Mutex;
use serde_json::Value;
use vcommon::{hex, json, Ctx, Rng};

use crate::{
    blocks::{self, Proven},
    header::KINDS,
    place::{self, Reply, Shelf, FAULTS},
};

fn num(v: &Value) -> Option<U256> {
    v.as_str()?.parse().ok()
}
fn h(b: &[u8]) -> Value {
    json!(format!("0x{}", hex(b)))
}
/// Every field of the answer that is not as the block has it.
fn differs(p: &Proven, got: &Value) -> Vec<String> {
    let (b, x) = (&p.block, &p.block.header);
    let mut out = vec![];
    let mut is = |k: &str, v: Value| {
        if got.get(k) != Some(&v) {
            out.push(format!("{k}: {} instead of {v}", got.get(k).unwrap_or(&Value::Null)));
        }
    };
    is("hash", h(&x.hash()));
    is("parentHash", h(&x.parent));
    is("sha3Uncles", h(&x.ommers));
    is("miner", h(&x.beneficiary));
    is("stateRoot", h(&x.state_root));
    is("transactionsRoot", h(&x.txs_root));
    is("receiptsRoot", h(&x.receipts_root));
    is("logsBloom", h(&x.bloom));
    is("extraData", h(&x.extra));
    is("mixHash", h(&x.mix));
    is("nonce", h(&x.nonce));
    is("transactions", b.txs.iter().map(|t| h(&keccak256(t))).collect());
    is("uncles", b.ommers.iter().map(|o| h(&o.hash())).collect());
    if x.era >= Era::Shanghai {
        is("withdrawalsRoot", h(&x.withdrawals_root));
    }
    if x.era >= Era::Cancun {
        is("parentBeaconBlockRoot", h(&x.beacon_root));
    }
    if x.era >= Era::Prague {
        is("requestsHash", h(&x.requests_hash));
    }
    let whole = {
        let txs: Vec<Vec<u8>> = b.txs.iter().map(|t| if t[0] >= 0xc0 { t.clone() } else { rlp::bytes(t) }).collect();
        let mut f = vec![x.rlp(), rlp::list(&txs), b.ommers_rlp()];
        if let Some(w) = &b.withdrawals {
            f.push(rlp::list(w));
        }
        rlp::list(&f).len()
    };
    let mut n = |k: &str, v: U256| {
        if got.get(k).and_then(num) != Some(v) {
            out.push(format!("{k}: {} instead of {v:#x}", got.get(k).unwrap_or(&Value::Null)));
        }
    };
    n("number", U256::from(x.number));
    n("difficulty", U256::from_be_slice(&x.difficulty));
    n("gasLimit", U256::from(x.gas_limit));
    n("gasUsed", U256::from(x.gas_used));
    n("timestamp", U256::from(x.timestamp));
    n("size", U256::from(whole));
    if x.era >= Era::London {
        n("baseFeePerGas", U256::from(x.base_fee));
    }
    if x.era >= Era::Cancun {
        n("blobGasUsed", U256::from(x.blob_gas));
        n("excessBlobGas", U256::from(x.excess_blob));
    }
    match (&b.withdrawals, got.get("withdrawals").unwrap_or(&Value::Null)) {
        (None, Value::Null) => {}
        (Some(w), Value::Array(g)) if w.len() == g.len() => {
            for (w, g) in w.iter().zip(g) {
                let again = rlp::list(&[
                    rlp::uint(g["index"].as_str().and_then(|s| s.parse::<U256>().ok()).unwrap_or_default().to()),
                    rlp::uint(g["validatorIndex"].as_str().and_then(|s| s.parse::<U256>().ok()).unwrap_or_default().to()),
                    rlp::bytes(&vcommon::unhex(g["address"].as_str().unwrap_or("").trim_start_matches("0x"))),
                    rlp::uint(g["amount"].as_str().and_then(|s| s.parse::<U256>().ok()).unwrap_or_default().to()),
                ]);
                if again != *w {
                    out.push(format!("withdrawal {g}"));
                }
            }
        }
        (w, g) => out.push(format!("withdrawals: {g} instead of {:?}", w.as_ref().map(|w| w.len()))),
    }
    out
}
pub fn queries(ctx: &mut Ctx) {
    ctx.rule("a block asked for by number or hash is answered with every field of its header, the hashes of its transactions and uncles, its withdrawals and its size; anything that cannot be had or read makes the query fail");
    ctx.level("served interface of a node, history network played by the check");
    let rt = crate::rt();
    let mut r = ctx.rng.fork("block");
    for _ in 0..ctx.n(400, 6000) {
        if ctx.saturated() {
            break;
        }
        let mut trusted = blocks::world(&mut r);
        let all: Vec<Proven> = (0..r.range(1, 4))
            .map(|_| {
                let kind = *r.pick(&KINDS);
                blocks::proven(&mut r, kind, &mut trusted)
            })
            .collect();
        let s = Arc::new(Mutex::new(Shelf::default()));
        for p in &all {
            let (c, hash) = (blocks::header_content(&p.claim), p.block.header.hash());
            let mut s = s.lock();
            s.has.insert(blocks::by_hash(&hash), c.clone());
            s.has.insert(blocks::by_number(p.block.header.number), c);
            s.has.insert(blocks::body(&hash), p.block.body_ssz());
        }
        let place = rt.block_on(async {
            let mut p = place::serve(&mut r, &[Subnetwork::LegacyHistory]).await;
            tokio::spawn(place::keep_history(p.history.take().expect("history"), s.clone(), r.fork("h")));
            p
        });
        let ask = |r: &mut Rng| {
            let i = r.index(all.len());
            // the last block of a number is the one known by it
            let n = all[i].block.header.number;
            let i = all.iter().rposition(|p| p.block.header.number == n).unwrap_or(i);
            let hash = all[i].block.header.hash();
            if r.bool() {
                (i, "eth_getBlockByNumber", vec![json!(format!("{n:#x}")), json!(false)], blocks::by_number(n))
            } else {
                (i, "eth_getBlockByHash", vec![h(&hash), json!(false)], blocks::by_hash(&hash))
            }
        };
        let judge = |ctx: &mut Ctx, i: usize, m: &'static str, params: &[Value], got: &Reply| {
            let era = all[i].block.header.era;
            ctx.eval(m, &(era, all[i].block.txs.len(), all[i].block.ommers.len(), all[i].block.withdrawals.as_ref().map(|w| w.len())));
            ctx.event(&format!("block of {era:?}"));
            match got {
                Ok(g) => {
                    let d = differs(&all[i], g);
                    ctx.check(d.is_empty(), "wrong-block", || j!({"method": m, "params": params, "differs": d}));
                }
                Err(e) => {
                    ctx.violation("no-block", j!({"method": m, "params": params, "error": format!("{e:?}")}));
                }
            }
        };
        for _ in 0..8 {
            let (i, m, mut params, header) = ask(&mut r);
            s.lock().bad.clear();
            match r.below(6) {
                0 | 1 => {
                    let f = *r.pick(&FAULTS);
                    let k = if r.bool() { header } else { blocks::body(&all[i].block.header.hash()) };
                    s.lock().bad.insert(k, f);
                    let got = rt.block_on(place.call(m, params.clone()));
                    ctx.check(got.is_err(), "block-out-of-nothing", || j!({"method": m, "params": params, "fault": format!("{f:?}"), "got": format!("{got:?}")}));
                    ctx.event(&format!("withheld {f:?}"));
                    ctx.eval("withheld", &(m, f));
                }
                2 => {
                    let what = match r.below(4) {
                        0 => {
                            params[1] = json!(true);
                            "whole transactions"
                        }
                        1 if m == "eth_getBlockByNumber" => {
                            params[0] = json!(*r.pick(&["latest", "pending", "earliest", "safe", "finalized"]));
                            "named block"
                        }
                        2 => {
                            params.truncate(1);
                            "a missing argument"
                        }
                        _ => {
                            params[0] = if m == "eth_getBlockByNumber" { json!(format!("{:#x}", 40_000_000 + r.below(1000))) } else { h(&r.array::<32>()) };
                            "unknown block"
                        }
                    };
                    let got = rt.block_on(place.call(m, params.clone()));
                    ctx.check(got.is_err(), "answered-what-it-cannot", || j!({"method": m, "params": params, "got": format!("{got:?}")}));
                    ctx.event(what);
                    ctx.eval("cannot be answered", &(m, what));
                }
                _ => {
                    let got = rt.block_on(place.call(m, params.clone()));
                    judge(ctx, i, m, &params, &got);
                }
            }
        }
        s.lock().bad.clear();
        let qs: Vec<_> = (0..r.usize_in(2, 8)).map(|_| ask(&mut r)).collect();
        let got = rt.block_on(join_all(qs.iter().map(|q| rt.spawn(place.methods.call_value(q.1, q.2.clone())))));
        for (q, a) in qs.iter().zip(got) {
            match a {
                Ok(a) => judge(ctx, q.0, q.1, &q.2, &a),
                Err(e) => {
                    ctx.violation("query-died", j!({"method": q.1, "error": e.to_string()}));
                }
            }
        }
        let id = rt.block_on(place.call("eth_chainId", vec![]));
        ctx.check(matches!(&id, Ok(v) if num(v) == Some(U256::from(1))), "wrong-chain-id", || j!({"got": format!("{id:?}")}));
        let odd = s.lock().odd.clone();
        ctx.check(odd.is_empty(), "other-requests", || j!({"requests": odd}));
        ctx.sample("blocks", || json!(all.iter().map(|p| (p.block.header.number, p.block.txs.len())).collect::<Vec<_>>()));
        let _ = place.handle.stop();
    }
    for e in oracle::exec::ERAS {
        ctx.require(&format!("block of {e:?}"), 3);
    }
    for f in FAULTS {
        ctx.require(&format!("withheld {f:?}"), 2);
    }
    for k in ["whole transactions", "named block", "unknown block", "a missing argument"] {
        ctx.require(k, 2);
    }
}
