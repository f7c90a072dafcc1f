//! What the providers are asked, and what becomes of their answers.
use std::{collections::HashMap, sync::Arc, time::Duration};

use alloy::{
    consensus::TxEnvelope,
    eips::eip2718::{Decodable2718, Encodable2718},
    primitives::B256,
};
use ethereum_rpc_client::{
    consensus::{event::BeaconEvent, ConsensusApi},
    execution::ExecutionApi,
};
use ethportal_api::{ContentValue, OverlayContentKey};
use futures::StreamExt;
use oracle::{
    exec::{Block, Era},
    schema::{self, Fork, T, V},
};
use parking_lot::Mutex;
use reqwest::Told;
use ssz::Encode;
use vcommon::{hex, json, Ctx, Rng, Value};

use crate::census::end;

pub const FIRST: &str = "https://first.example/";
pub const SECOND: &str = "https://second.example/";
pub const JSON: &str = "application/json";
pub const SSZ: &str = "application/octet-stream";

/// How an answer goes wrong.
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Bad {
    NoConnection,
    ServerError,
    NotFound,
    OtherType,
    NoType,
    Garbage,
    BrokenOff,
    OtherJson,
    TooSlow,
}
pub const BAD: [Bad; 9] = [Bad::NoConnection, Bad::ServerError, Bad::NotFound, Bad::OtherType, Bad::NoType, Bad::Garbage, Bad::BrokenOff, Bad::OtherJson, Bad::TooSlow];
pub fn told(ty: &str, body: Vec<u8>) -> Told {
    Told { status: 200, body, headers: vec![("content-type", ty.to_string())], after: Duration::ZERO }
}
pub fn not_found() -> Told {
    Told { status: 404, ..told(JSON, b"{\"code\":404,\"message\":\"NOT_FOUND: no such thing\"}".to_vec()) }
}
/// A good answer gone wrong.
pub fn spoil(b: Bad, good: Told) -> Option<Told> {
    let json = good.headers.iter().any(|(_, v)| v == JSON);
    Some(match b {
        Bad::NoConnection => return None,
        Bad::ServerError => Told { status: 503, ..told("text/html", b"<html>down</html>".to_vec()) },
        Bad::NotFound => not_found(),
        Bad::OtherType => Told { headers: vec![("content-type", "text/html".into())], body: b"<html>welcome</html>".to_vec(), ..good },
        Bad::NoType => Told { headers: vec![], body: b"?".to_vec(), ..good },
        Bad::Garbage if json => Told { body: b"{\"data\": {".to_vec(), ..good },
        Bad::Garbage => Told { body: vec![0xff; 5], ..good },
        Bad::BrokenOff => Told { status: 0, ..good },
        Bad::OtherJson => told(JSON, b"{\"data\":{\"something\":\"else\"}}".to_vec()),
        Bad::TooSlow => Told { after: Duration::from_secs(200), ..good },
    })
}
/// Requests as they arrived: to which provider, what, and with which body.
pub type Log = Arc<Mutex<Vec<(bool, String, Vec<u8>)>>>;
/// Sets what answers: given whether it is the first provider, what is asked for, the body and
/// whether the binary form is welcome.
pub fn serve(log: Log, f: impl Fn(bool, &str, &[u8], bool) -> Option<Told> + Send + Sync + 'static) {
    reqwest::provided_by(Some(Arc::new(move |a: reqwest::Asked<'_>| {
        let first = a.url.starts_with(FIRST);
        let path = a.url.splitn(4, '/').nth(3).unwrap_or("").to_string();
        let path = format!("/{path}");
        log.lock().push((first, path.clone(), a.body.to_vec()));
        let accept = a.headers.get("accept").and_then(|v| v.to_str().ok()).unwrap_or("").to_string();
        f(first, &path, a.body, accept.contains(SSZ))
    })));
}
pub async fn consensus() -> Option<ConsensusApi> {
    end(ConsensusApi::new(FIRST.parse().unwrap(), SECOND.parse().unwrap(), 20)).await.and_then(|c| c.ok())
}
pub async fn execution() -> Option<ExecutionApi> {
    end(ExecutionApi::new(FIRST.parse().unwrap(), SECOND.parse().unwrap(), 20)).await.and_then(|c| c.ok())
}
/// The usual answer about data of some type.
pub fn about(t: &T, v: &V, binary: bool) -> Told {
    if binary {
        let mut a = told(SSZ, t.ser(v));
        a.headers.push(("Eth-Consensus-Version", "electra".into()));
        a
    } else {
        told(JSON, json!({"version": "electra", "execution_optimistic": false, "finalized": false, "data": t.json(v)}).to_string().into_bytes())
    }
}
pub fn root() -> T {
    T::C(vec![("root", T::B(32))])
}
pub fn answers(ctx: &mut Ctx) {
    ctx.rule("each question reaches the providers as the request it stands for; the answer is what the first provider said about it if that is usable, else what the second said, and an error if neither helps; a search for the next block that exists finds the first one within reach and ends; every requested block gets its own receipts or the request fails; what cannot be understood among announcements is skipped");
    let mut r = ctx.rng.fork("providers");
    for case in 0..ctx.n(1040, 20000) {
        if ctx.saturated() {
            break;
        }
        let mut r = r.fork(&format!("case{case}"));
        match case % 13 {
            0..=4 => crate::clock::simulate(question(ctx, &mut r, case)),
            5 | 6 => crate::clock::simulate(search(ctx, &mut r)),
            7..=9 => crate::clock::simulate(receipts(ctx, &mut r)),
            10 | 11 => crate::clock::simulate(block(ctx, &mut r)),
            _ => crate::clock::simulate(announcements(ctx, &mut r)),
        }
    }
    reqwest::provided_by(None);
    for (k, n) in [("answered", 60), ("second asked", 15), ("neither helps", 8), ("found after gap", 8), ("nothing in reach", 4), ("batch answered", 10), ("batch out of order", 5), ("batch incomplete", 3), ("receipts later", 2), ("block", 10), ("unfit body refused", 3), ("announcement", 60), ("skipped announcement", 20)] {
        ctx.require(k, n);
    }
}
fn set_slot(t: &T, v: &mut V, slot: u64) {
    let V::Items(top) = v else { panic!("composite") };
    let mt = t.ty("message");
    let V::Items(m) = &mut top[t.field("message")] else { panic!("composite") };
    m[mt.field("slot")] = V::Raw(slot.to_le_bytes().to_vec());
}
fn faults(r: &mut Rng) -> Vec<Bad> {
    match r.below(4) {
        0 | 1 => vec![],
        2 => vec![*r.pick(&BAD); 4],
        _ => (0..4).map(|_| *r.pick(&BAD)).collect(),
    }
}
async fn question(ctx: &mut Ctx, r: &mut Rng, case: u64) {
    let e = Fork::Electra;
    let id = match r.below(4) {
        0 => "head".to_string(),
        1 => "finalized".into(),
        2 => r.below(12_000_000).to_string(),
        _ => format!("0x{}", hex(&r.array::<32>())),
    };
    let hash = B256::from(r.array::<32>());
    let (start, count) = (r.below(2000), r.range(1, 5));
    let kind = if case % 70 == 0 { 7 } else { r.below(7) };
    let (t, path): (T, String) = match kind {
        0 => (root(), "/eth/v1/beacon/states/finalized/root".into()),
        1 => (schema::lc_bootstrap(e), format!("/eth/v1/beacon/light_client/bootstrap/{hash}")),
        2 => (root(), format!("/eth/v1/beacon/blocks/{id}/root")),
        3 => (schema::lc_update(e), format!("/eth/v1/beacon/light_client/updates?start_period={start}&count={count}")),
        4 => (schema::lc_optimistic_update(e), "/eth/v1/beacon/light_client/optimistic_update".into()),
        5 => (schema::lc_finality_update(e), "/eth/v1/beacon/light_client/finality_update".into()),
        6 => (schema::signed_beacon_block(e), format!("/eth/v2/beacon/blocks/{id}")),
        _ => (schema::beacon_state(e), format!("/eth/v2/debug/beacon/states/{id}")),
    };
    let many = if kind == 3 { r.range(0, count) as usize } else { 1 };
    let data: Vec<Vec<V>> = (0..2).map(|_| (0..many).map(|_| t.gen(r, 2)).collect()).collect();
    let plan = [faults(r), faults(r)];
    let use_json = r.bool() && kind != 7;
    let slow = r.chance(1, 6);
    let log: Log = Default::default();
    let counter = Arc::new(Mutex::new([0usize; 2]));
    let (t2, d2, p2) = (t.clone(), data.clone(), plan.clone());
    serve(log.clone(), move |first, p, _, binary| {
        if p == "/eth/v1/node/version" {
            return Some(told(JSON, b"{\"data\":{\"version\":\"x/1\"}}".to_vec()));
        }
        let who = !first as usize;
        let mut a = if kind == 3 {
            let list: Vec<Value> = d2[who].iter().map(|v| json!({"version": "electra", "data": t2.json(v)})).collect();
            told(JSON, Value::Array(list).to_string().into_bytes())
        } else {
            about(&t2, &d2[who][0], binary && !use_json)
        };
        if slow {
            a.after = Duration::from_secs(15);
        }
        let mut c = counter.lock();
        let n = c[who];
        c[who] += 1;
        match p2[who].get(n) {
            Some(b) => spoil(*b, a),
            None if p2[who].is_empty() => Some(a),
            // whatever comes later is no better
            None => spoil(*p2[who].last().unwrap(), a),
        }
    });
    let Some(api) = consensus().await else {
        ctx.check(false, "cannot-begin", || j!({"plan": format!("{plan:?}")}));
        return;
    };
    log.lock().clear();
    let id2 = id.clone();
    let got: Option<anyhow::Result<Vec<Vec<u8>>>> = end(async move {
        Ok(match kind {
            0 => vec![api.get_beacon_state_finalized_root().await?.root.to_vec()],
            1 => vec![api.get_light_client_bootstrap(hash).await?.as_ssz_bytes()],
            2 => vec![api.get_beacon_block_root(id2).await?.root.to_vec()],
            3 => api.get_light_client_updates(start, count).await?.iter().map(|u| u.as_ssz_bytes()).collect(),
            4 => vec![api.get_light_client_optimistic_update().await?.as_ssz_bytes()],
            5 => vec![api.get_light_client_finality_update().await?.as_ssz_bytes()],
            6 => vec![api.get_beacon_block(id2).await?.as_ssz_bytes()],
            _ => vec![api.get_beacon_state(id2).await?.as_ssz_bytes()],
        })
    })
    .await;
    let asked = log.lock().clone();
    let detail = || j!({"path": path, "plan": format!("{plan:?}"), "json": use_json, "slow": slow, "asked": format!("{:?}", asked.iter().map(|(f, p, _)| (f, p)).collect::<Vec<_>>()), "outcome": match &got { None => "never ended".into(), Some(Err(e)) => format!("{e:#}"), Some(Ok(_)) => "an answer".to_string() }});
    ctx.eval("question", &(kind, &path, format!("{plan:?}"), slow, use_json, case));
    ctx.check(asked.iter().all(|(_, p, _)| *p == path), "another-question-asked", detail);
    let Some(got) = &got else {
        ctx.check(false, "never-answered", detail);
        return;
    };
    let want = |who: usize| -> Vec<Vec<u8>> { data[who].iter().map(|v| t.ser(v)).collect() };
    let fits = |g: &Vec<Vec<u8>>, who: usize| *g == want(who);
    // a provider with a plan has a first reply that is bad, and might be asked again; no reply of it is good
    let (first_ok, second_ok) = (plan[0].is_empty(), plan[1].is_empty());
    match (got, first_ok, second_ok) {
        (Ok(g), true, _) => {
            ctx.check(fits(g, 0), "not-what-the-first-said", detail);
            ctx.check(asked.iter().all(|(f, ..)| *f), "second-bothered", detail);
            ctx.event("answered");
        }
        (Ok(g), false, true) => {
            ctx.check(fits(g, 1), "not-what-the-second-said", detail);
            ctx.event("second asked");
        }
        (Ok(_), false, false) => {
            ctx.check(false, "answer-out-of-nothing", detail);
        }
        (Err(_), false, false) => {
            ctx.check(asked.iter().any(|(f, ..)| !*f), "second-not-asked", detail);
            ctx.event("neither helps");
        }
        (Err(_), ..) => {
            ctx.check(false, "good-answer-lost", detail);
        }
    }
    ctx.sample("question", || json!({"path": path, "plan": format!("{plan:?}")}));
}
/// Searches over slots that were skipped.
async fn search(ctx: &mut Ctx, r: &mut Rng) {
    let t = schema::signed_beacon_block(Fork::Electra);
    let st = schema::beacon_state(Fork::Electra);
    let kind = if r.chance(1, 3) { 2 } else { r.below(2) };
    let gap = *r.pick(&[0u64, 0, 1, 2, 4, 5, 6, 7, 30, 4000, 4000]);
    let period = r.range(1300, 1500);
    let start = if kind == 0 { period * 8192 + r.below(8192) } else { period * 8192 };
    let finalized = start + if r.chance(1, 4) { 8191 } else { r.below(8192) };
    let asked_slot = if kind == 2 { start - 8192 + *r.pick(&[0u64, 1, 4000, 8191]) } else { finalized };
    let block = t.gen(r, 1);
    // whether a provider gives an older state for a skipped slot
    let older = kind == 2 && r.bool();
    let state = if kind == 2 { st.ser(&st.gen(r, 0)) } else { vec![] };
    let log: Log = Default::default();
    let t2 = t.clone();
    let down = r.chance(1, 3);
    let last_known = start - 1;
    let states = Arc::new(Mutex::new(0u32));
    let states2 = states.clone();
    serve(log.clone(), move |first, p, _, binary| {
        if p == "/eth/v1/node/version" {
            return Some(told(JSON, b"{\"data\":{\"version\":\"x/1\"}}".to_vec()));
        }
        if first && down {
            return Some(not_found());
        }
        let id = p.rsplit('/').next().unwrap_or("");
        if p.starts_with("/eth/v2/debug") {
            let s: u64 = id.parse().ok()?;
            *states2.lock() += 1;
            let found = if s >= start + gap || s < start || *states2.lock() > 200 { s } else { last_known };
            if found != s && !older {
                return Some(not_found());
            }
            let mut b = state.clone();
            b[40..48].copy_from_slice(&found.to_le_bytes());
            return Some(told(SSZ, b));
        }
        let slot = if id == "finalized" { finalized } else { id.parse().ok()? };
        if id != "finalized" && (start..start + gap).contains(&slot) {
            return Some(not_found());
        }
        let mut v = block.clone();
        set_slot(&t2, &mut v, slot);
        Some(about(&t2, &v, binary))
    });
    let Some(api) = consensus().await else {
        ctx.check(false, "cannot-begin", String::new);
        return;
    };
    let got: Option<anyhow::Result<u64>> = end(async move {
        Ok(match kind {
            0 => api.find_first_beacon_block(start).await?.message.slot,
            1 => api.first_block_in_latest_finalized_period().await?.slot,
            _ => api.get_state_for_start_of_next_period(asked_slot).await?.slot,
        })
    })
    .await;
    let what = || j!({"kind": kind, "first slot": start, "skipped": gap, "older states given": older, "outcome": match &got { None => "never ended".into(), Some(Err(e)) => format!("{e:#}"), Some(Ok(s)) => s.to_string() }});
    ctx.check(*states.lock() <= 200, "search-never-ends", what);
    ctx.eval("search", &(kind, start, gap, older, down));
    match &got {
        None => {
            ctx.check(false, "search-never-ends", what);
        }
        Some(Ok(s)) => {
            ctx.check(*s == start + gap, "found-another-slot", what);
            ctx.event("found after gap");
        }
        Some(Err(_)) => {
            ctx.check(gap > 5, "gap-not-crossed", what);
            ctx.event("nothing in reach");
        }
    }
}
fn raw_receipts(b: &Block) -> Value {
    b.receipts.iter().map(|x| format!("0x{}", hex(x))).collect()
}
fn number_of(p: &Value) -> Option<u64> {
    u64::from_str_radix(p.as_str()?.strip_prefix("0x")?, 16).ok()
}
async fn receipts(ctx: &mut Ctx, r: &mut Rng) {
    let n = *r.pick(&[1usize, 2, 5, 9, 10, 11, 20, 23]);
    let base = r.below(25_000_000);
    let mut numbers: Vec<u64> = (0..n as u64).map(|i| base + i).collect();
    if r.bool() {
        r.shuffle(&mut numbers);
    }
    let blocks: HashMap<u64, Block> = numbers.iter().map(|k| (*k, Block::random(r, Era::Prague, 3))).collect();
    let single = r.chance(1, 3);
    let shuffled = r.bool();
    // what is missing from the answers
    let lost: Option<u64> = r.chance(1, 3).then(|| *r.pick(&numbers));
    let nulls = if single && r.bool() { r.range(1, 7) } else { 0 };
    let first_down = r.chance(1, 4);
    let how = r.below(3);
    let log: Log = Default::default();
    let seen = Arc::new(Mutex::new(0u64));
    let b2 = blocks.clone();
    let shuffle = Arc::new(Mutex::new(r.fork("order")));
    serve(log.clone(), move |first, _, body, _| {
        if first && first_down {
            return Some(Told { status: 200, ..told("text/html", b"<html>".to_vec()) });
        }
        let q: Value = serde_json::from_slice(body).ok()?;
        let one = |q: &Value| -> Option<Value> {
            if q["method"] != "eth_getBlockReceipts" {
                return Some(json!({"jsonrpc": "2.0", "id": q["id"], "result": "x/1"}));
            }
            let k = number_of(&q["params"][0]);
            if nulls > 0 {
                let mut s = seen.lock();
                *s += 1;
                if *s <= nulls {
                    return Some(json!({"jsonrpc": "2.0", "id": q["id"], "result": null}));
                }
            }
            if k == lost {
                return match how {
                    0 => None,
                    1 => Some(json!({"jsonrpc": "2.0", "id": q["id"], "error": {"code": -32000, "message": "header not found"}})),
                    _ => Some(json!({"jsonrpc": "2.0", "id": q["id"], "result": null})),
                };
            }
            let b = k.and_then(|k| b2.get(&k));
            Some(match b {
                Some(b) => json!({"jsonrpc": "2.0", "id": q["id"], "result": raw_receipts(b)}),
                None => json!({"jsonrpc": "2.0", "id": q["id"], "result": null}),
            })
        };
        let a = match &q {
            Value::Array(qs) => {
                let mut all: Vec<Value> = qs.iter().filter_map(one).collect();
                if shuffled {
                    shuffle.lock().shuffle(&mut all);
                }
                Value::Array(all)
            }
            q => one(q).unwrap_or(json!({"jsonrpc": "2.0", "id": 1})),
        };
        Some(told(JSON, a.to_string().into_bytes()))
    });
    let Some(api) = execution().await else {
        ctx.check(false, "cannot-begin", String::new);
        return;
    };
    let what = |x: &str| j!({"blocks": n, "single": single, "answers out of order": shuffled, "missing": lost, "missing how": how, "nulls before": nulls, "first down": first_down, "got": x});
    ctx.eval("receipts", &(base, n, single, shuffled, lost, nulls, first_down));
    if single {
        let k = numbers[0];
        let got = end(async move { api.get_receipts(k).await }).await;
        match got {
            None => {
                ctx.check(false, "never-answered", || what("never ended"));
            }
            Some(Ok(g)) => {
                ctx.check(lost != Some(k) && g.as_ssz_bytes() == blocks[&k].receipts_ssz(), "wrong-receipts", || what("other receipts"));
                if nulls > 0 {
                    ctx.event("receipts later");
                }
            }
            Some(Err(e)) => {
                // told a few times that there is nothing
                ctx.check(lost == Some(k) || nulls >= 3, "receipts-lost", || what(&format!("{e:#}")));
            }
        }
        return;
    }
    let ask = numbers.clone();
    let got = end(async move { api.get_receipts_range(ask).await }).await;
    match got {
        None => {
            ctx.check(false, "never-answered", || what("never ended"));
        }
        Some(Ok(g)) => {
            ctx.check(lost.is_none(), "incomplete-receipts", || what(&format!("{} of {n}", g.len())));
            let mut keys: Vec<u64> = g.keys().copied().collect();
            keys.sort();
            let mut want = numbers.clone();
            want.sort();
            if lost.is_none() {
                ctx.check(keys == want, "receipts-of-other-blocks", || what(&format!("{keys:?}")));
                for (k, x) in &g {
                    if !ctx.check(blocks.get(k).is_some_and(|b| x.as_ssz_bytes() == b.receipts_ssz()), "wrong-receipts", || what(&format!("block {k}"))) {
                        break;
                    }
                }
            }
            ctx.event("batch answered");
            if shuffled && n > 1 {
                ctx.event("batch out of order");
            }
        }
        Some(Err(e)) => {
            ctx.check(lost.is_some(), "receipts-lost", || what(&format!("{e:#}")));
            ctx.event("batch incomplete");
        }
    }
    // no more than the providers allow at once, and exactly what is needed
    for (_, _, body) in log.lock().iter() {
        if let Ok(Value::Array(q)) = serde_json::from_slice::<Value>(body) {
            ctx.check(q.len() <= 10, "batch-too-large", || what(&format!("{}", q.len())));
            ctx.check(q.iter().all(|q| q["method"] == "eth_getBlockReceipts" && number_of(&q["params"][0]).is_some_and(|k| blocks.contains_key(&k))), "another-question-asked", || what(&q.iter().map(|x| x.to_string()).collect::<String>()));
        }
    }
}
async fn block(ctx: &mut Ctx, r: &mut Rng) {
    let era = *r.pick(&[Era::London, Era::Paris, Era::Shanghai, Era::Cancun, Era::Prague]);
    let b = Block::random(r, era, 4);
    let mut h = <alloy::consensus::Header as alloy_rlp::Decodable>::decode(&mut b.header.rlp().as_slice()).expect("harness header");
    let unfit = r.chance(1, 4);
    if unfit {
        h.transactions_root = r.array::<32>().into();
    }
    let height = b.header.number;
    let txs: Vec<alloy::rpc::types::Transaction> = b.txs.iter().map(|t| alloy::rpc::types::Transaction::new(TxEnvelope::decode_2718(&mut &t[..]).expect("harness transaction"))).collect();
    let ws = b.withdrawals.as_ref().map(|ws| {
        alloy::rpc::types::Withdrawals::new(ws.iter().map(|w| <alloy::rpc::types::Withdrawal as alloy_rlp::Decodable>::decode(&mut &w[..]).expect("harness withdrawal")).collect())
    });
    let mut whole = alloy::rpc::types::Block { header: alloy::rpc::types::Header::new(h.clone()), uncles: vec![], transactions: alloy::rpc::types::BlockTransactions::Full(txs), withdrawals: ws };
    if b.txs.is_empty() {
        whole.transactions = Default::default();
    }
    let text = serde_json::to_value(&whole).expect("harness block");
    let first = faults(r);
    let f2 = first.clone();
    let log: Log = Default::default();
    let n = Arc::new(Mutex::new(0usize));
    serve(log.clone(), move |is_first, _, body, _| {
        let q: Value = serde_json::from_slice(body).ok()?;
        if q["method"] == "web3_clientVersion" {
            return Some(told(JSON, b"{\"result\":\"x/1\",\"id\":1}".to_vec()));
        }
        let good = q["method"] == "eth_getBlockByNumber" && (q["params"][0] == "latest" || number_of(&q["params"][0]) == Some(height));
        let a = told(JSON, json!({"jsonrpc": "2.0", "id": q["id"], "result": if good { text.clone() } else { json!("?") }}).to_string().into_bytes());
        let mut n = n.lock();
        if is_first && !f2.is_empty() {
            let f = f2[(*n).min(3)];
            *n += 1;
            // an answer that says no is an answer
            return match f {
                Bad::NotFound | Bad::OtherJson | Bad::NoType | Bad::OtherType => spoil(Bad::Garbage, a),
                f => spoil(f, a),
            };
        }
        Some(a)
    });
    let Some(api) = execution().await else {
        ctx.check(false, "cannot-begin", String::new);
        return;
    };
    let what = |x: &str| j!({"era": format!("{era:?}"), "number": height, "faults": format!("{first:?}"), "unfit": unfit, "got": x});
    ctx.eval("block", &(height, era, format!("{first:?}"), unfit));
    let api2 = api.clone();
    let latest = end(async move { api2.get_latest_block_number().await }).await;
    ctx.check(matches!(latest, Some(Ok(k)) if k == height), "wrong-latest", || what(&format!("{latest:?}")));
    let api2 = api.clone();
    let got = end(async move { api2.get_block(height).await }).await;
    match got {
        None => {
            ctx.check(false, "never-answered", || what("never ended"));
        }
        Some(Ok(g)) => {
            ctx.event("block");
            ctx.check(era >= Era::Paris, "early-block-given", || what("a block"));
            let txs: Vec<Vec<u8>> = g.body.transactions.iter().map(|t| t.encoded_2718()).collect();
            ctx.check(alloy_rlp::encode(&g.header) == alloy_rlp::encode(&h) && txs == b.txs, "wrong-block", || what("another block"));
            let c = end(async move { api.get_block_body(&g).await }).await;
            match c {
                Some(Ok((k, v))) => {
                    let want = [&[1u8][..], &oracle::keccak256(&alloy_rlp::encode(&h))].concat();
                    ctx.check(!unfit && k.to_bytes().to_vec() == want && v.encode().to_vec() == b.body_ssz(), "wrong-body", || what("another body"));
                }
                Some(Err(e)) => {
                    ctx.check(unfit, "body-refused", || what(&format!("{e:#}")));
                    ctx.event("unfit body refused");
                }
                None => {
                    ctx.check(false, "never-answered", || what("never ended"));
                }
            }
        }
        Some(Err(e)) => {
            ctx.check(era < Era::Paris, "block-lost", || what(&format!("{e:#}")));
        }
    }
}
async fn announcements(ctx: &mut Ctx, r: &mut Rng) {
    use alloy::rpc::types::beacon::events::BeaconNodeEventTopic as Topic;
    use eventsource_client::{Event, SSE};
    let log: Log = Default::default();
    serve(log.clone(), |_, _, _, _| Some(told(JSON, b"{\"data\":{\"version\":\"x/1\"}}".to_vec())));
    let Some(api) = consensus().await else {
        ctx.check(false, "cannot-begin", String::new);
        return;
    };
    let topics = [(Topic::Head, "head"), (Topic::ChainReorg, "chain_reorg"), (Topic::FinalizedCheckpoint, "finalized_checkpoint"), (Topic::LightClientOptimisticUpdate, "light_client_optimistic_update")];
    let mut chosen = topics.to_vec();
    r.shuffle(&mut chosen);
    chosen.truncate(r.usize_in(1, 4));
    eventsource_client::listen(true);
    let wanted: Vec<Topic> = chosen.iter().map(|c| c.0).collect();
    let Ok(mut stream) = api.get_events_stream(&wanted, "check") else {
        ctx.check(false, "no-stream", String::new);
        return;
    };
    let opened = eventsource_client::opened();
    ctx.check(opened.len() == 1, "no-stream", || format!("{}", opened.len()));
    let Some(o) = opened.first() else { return };
    let want = format!("{FIRST}eth/v1/events?topics={}", chosen.iter().map(|c| c.1).collect::<Vec<_>>().join(","));
    ctx.check(o.url == want, "another-stream", || j!({"opened": o.url, "wanted": want}));
    let mut sent = vec![];
    for _ in 0..r.range(5, 25) {
        let h = |r: &mut Rng| format!("0x{}", hex(&r.array::<32>()));
        let slot = r.below(1 << 40);
        let (name, data) = match r.below(4) {
            0 => ("head", json!({"slot": slot.to_string(), "block": h(r), "state": h(r), "epoch_transition": r.bool(), "previous_duty_dependent_root": h(r), "current_duty_dependent_root": h(r), "execution_optimistic": r.bool()})),
            1 => ("finalized_checkpoint", json!({"block": h(r), "state": h(r), "epoch": slot.to_string(), "execution_optimistic": false})),
            2 => ("chain_reorg", json!({"slot": slot.to_string(), "depth": r.below(9).to_string(), "old_head_block": h(r), "new_head_block": h(r), "old_head_state": h(r), "new_head_state": h(r), "epoch": "7", "execution_optimistic": false})),
            _ => ("light_client_optimistic_update", json!({"version": "electra", "data": {"attested_header": {"beacon": {"slot": slot.to_string(), "proposer_index": "5", "parent_root": h(r), "state_root": h(r), "body_root": h(r)}}, "signature_slot": (slot + 1).to_string()}})),
        };
        let ev = |name: &str, data: String| Ok(SSE::Event(Event { event_type: name.into(), data, id: None, retry: None }));
        match r.below(8) {
            0 => {
                let _ = o.send.send(Err(eventsource_client::Error::TimedOut));
                ctx.event("skipped announcement");
            }
            1 => {
                let _ = o.send.send(Ok(SSE::Comment("hello".into())));
                ctx.event("skipped announcement");
            }
            2 => {
                let _ = o.send.send(ev(name, data.to_string()[1..].to_string()));
                ctx.event("skipped announcement");
            }
            3 => {
                let _ = o.send.send(ev("blob_sidecar", data.to_string()));
                ctx.event("skipped announcement");
            }
            _ => {
                let _ = o.send.send(ev(name, data.to_string()));
                sent.push((name, data));
                ctx.event("announcement");
            }
        }
    }
    eventsource_client::listen(false);
    drop(opened);
    let got = end(async move {
        let mut all = vec![];
        while let Some(e) = stream.next().await {
            all.push(e);
        }
        all
    })
    .await;
    let Some(got) = got else {
        ctx.check(false, "stream-never-ends", String::new);
        return;
    };
    let said: Vec<(&str, Value)> = got
        .iter()
        .map(|e| match e {
            BeaconEvent::Head(e) => ("head", serde_json::to_value(e).unwrap()),
            BeaconEvent::FinalizedCheckpoint(e) => ("finalized_checkpoint", serde_json::to_value(e).unwrap()),
            BeaconEvent::ChainReorg(e) => ("chain_reorg", serde_json::to_value(e).unwrap()),
            BeaconEvent::LightClientOptimisticUpdate(e) => ("light_client_optimistic_update", serde_json::to_value(e).unwrap()),
        })
        .collect();
    ctx.eval("announcements", &(format!("{sent:?}"), want));
    ctx.check(said == sent, "announcements-differ", || j!({"sent": format!("{sent:?}"), "got": format!("{said:?}")}));
}
