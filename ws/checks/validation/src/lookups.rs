//! Lookups of trusted data over other networks: routed, checked and cached.
use std::sync::{
    atomic::{AtomicU64, Ordering::SeqCst},
    Arc, Mutex,
};

use alloy::primitives::B256;
use ethportal_api::{
    types::jsonrpc::{
        endpoints::{BeaconEndpoint, LegacyHistoryEndpoint},
        request::{BeaconJsonRpcRequest, LegacyHistoryJsonRpcRequest},
    },
    BeaconContentKey, ContentValue, IdentityContentKey, LegacyHistoryContentKey, OverlayContentKey, RawContentValue,
};
use oracle::{
    exec::{Era, Hdr},
    schema::{self, Fork, V},
    H,
};
use serde_json::{json, Value};
use tokio::{
    runtime::Runtime,
    sync::{mpsc, RwLock},
};
use trin_validation::{
    historical_summaries_provider::{HistoricalSummariesProvider, HistoricalSummariesSource},
    oracle::HeaderOracle,
    validator::{ValidationResult, Validator},
};
use vcommon::{hex, Ctx, Rng};

const CAPELLA_SLOT: u64 = 194_048 * 32;

fn hx(b: &[u8]) -> String {
    format!("0x{}", hex(b).trim_start_matches("0x"))
}

/// Summaries content as a network would hold it.
pub fn summaries_content(r: &mut Rng, epoch: u64, list: &[(H, H)]) -> Vec<u8> {
    let t = schema::historical_summaries_with_proof();
    let v = V::Items(vec![
        V::Raw(epoch.to_le_bytes().to_vec()),
        V::Items(list.iter().map(|(a, b)| V::Items(vec![V::Raw(a.to_vec()), V::Raw(b.to_vec())])).collect()),
        V::Items((0..6).map(|_| V::Raw(r.bytes(32))).collect()),
    ]);
    let mut out = Fork::Electra.digest().to_vec();
    out.extend(t.ser(&v));
    out
}

type Answer = Box<dyn Fn(&BeaconEndpoint) -> Option<Result<Value, String>> + Send>;

fn beacon(rt: &Runtime, answer: Arc<Mutex<Answer>>) -> mpsc::UnboundedSender<BeaconJsonRpcRequest> {
    let (tx, mut rx) = mpsc::unbounded_channel::<BeaconJsonRpcRequest>();
    rt.spawn(async move {
        while let Some(q) = rx.recv().await {
            let a = (answer.lock().unwrap())(&q.endpoint);
            if let Some(a) = a {
                let _ = q.resp.send(a);
            }
        }
    });
    tx
}

/// The list grows while summaries are looked up, sometimes the source fails.
fn provider(c: &mut Ctx, rt: &Runtime, i: u64) {
    let mut r = c.rng.fork(&format!("provider{i}"));
    let list: Arc<Mutex<Vec<(H, H)>>> = Arc::default();
    let fail = Arc::new(AtomicU64::new(0));
    let asked: Arc<Mutex<Vec<u64>>> = Arc::default();
    let (l2, f2, a2) = (list.clone(), fail.clone(), asked.clone());
    let seed = r.u64();
    let answer: Answer = Box::new(move |e| {
        let mut rr = Rng::new(seed);
        let BeaconEndpoint::LocalContent(key) = e else {
            return Some(Err("unexpected request".into()));
        };
        let BeaconContentKey::HistoricalSummariesWithProof(k) = key else {
            return Some(Err("unexpected key".into()));
        };
        a2.lock().unwrap().push(k.epoch);
        match f2.load(SeqCst) {
            1 => Some(Err("not available".into())),
            2 => None,
            3 => Some(Ok(json!("0x"))),
            4 => Some(Ok(json!("not hex"))),
            5 => Some(Ok(Value::Null)),
            6 => Some(Ok(json!(hx(&rr.bytes(100))))),
            _ => Some(Ok(json!(hx(&summaries_content(&mut rr, k.epoch, &l2.lock().unwrap()))))),
        }
    });
    let tx = beacon(rt, Arc::new(Mutex::new(answer)));
    let oracle = HeaderOracle { beacon_jsonrpc_tx: Some(tx), ..HeaderOracle::new() };
    let p = HistoricalSummariesProvider::new(HistoricalSummariesSource::HeaderOracle(Arc::new(RwLock::new(oracle))));
    // The longest list that was handed out.
    let mut cached: Vec<(H, H)> = vec![];
    for step in 0..30 {
        if r.chance(1, 2) {
            let n = r.index(4);
            list.lock().unwrap().extend((0..n).map(|_| (r.array::<32>(), r.array::<32>())));
        }
        fail.store(if r.chance(1, 4) { r.range(1, 6) } else { 0 }, SeqCst);
        let current = list.lock().unwrap().clone();
        let slot = match r.below(8) {
            0 => CAPELLA_SLOT - 1 - r.below(3),
            1 => r.edgy_u64(),
            _ => CAPELLA_SLOT + r.below((current.len() as u64 + 2) * 8192),
        };
        let index = slot.checked_sub(CAPELLA_SLOT).map(|s| s / 8192);
        asked.lock().unwrap().clear();
        let what = || format!("slot {slot} with {} summaries, {} cached, failure mode {}", current.len(), cached.len(), fail.load(SeqCst));
        let Some(got) = c.no_panic("provider-panic", what, || rt.block_on(p.get_historical_summary(slot))) else { return };
        c.eval("summary lookup", &(slot, current.len(), cached.len(), step));
        let asks = asked.lock().unwrap().clone();
        c.check(asks.iter().all(|e| *e == slot / 32), "wrong-epoch-asked", || format!("{asks:?}: {}", what()));
        let hit = index.and_then(|i| cached.get(i as usize));
        let want = match (index, hit) {
            (None, _) => None,
            (_, Some(x)) => Some(*x),
            (Some(i), None) if fail.load(SeqCst) == 0 => current.get(i as usize).copied(),
            _ => None,
        };
        match (&got, &want) {
            (Ok(g), Some(w)) => {
                c.event("summary found");
                c.check(g.block_summary_root.0 == w.0 && g.state_summary_root.0 == w.1, "wrong-summary", what);
                if hit.is_none() {
                    cached = current.clone();
                }
            }
            (Err(_), None) => c.event("summary refused"),
            (Ok(_), None) => c.violation("summary-from-nowhere", what()),
            (Err(e), Some(_)) => c.violation("summary-not-found", format!("{e}: {}", what())),
        }
    }
    // Parallel lookups agree with the list.
    fail.store(0, SeqCst);
    let current = list.lock().unwrap().clone();
    if !current.is_empty() {
        let slots: Vec<u64> = (0..16).map(|_| CAPELLA_SLOT + r.below(current.len() as u64 * 8192)).collect();
        let got = rt.block_on(async {
            let mut hs = vec![];
            for s in slots.clone() {
                let p = p.clone();
                hs.push(tokio::spawn(async move { p.get_historical_summary(s).await.ok().map(|x| x.block_summary_root.0) }));
            }
            let mut out = vec![];
            for h in hs {
                out.push(h.await.ok().flatten());
            }
            out
        });
        for (s, g) in slots.iter().zip(got) {
            c.eval("parallel lookup", s);
            c.check(g == Some(current[((s - CAPELLA_SLOT) / 8192) as usize].0), "wrong-summary", || format!("parallel, slot {s}"));
        }
    }
}

/// A lookup of a header asks the history network for exactly that header and takes only a header.
fn headers(c: &mut Ctx, rt: &Runtime, i: u64) {
    let mut r = c.rng.fork(&format!("headers{i}"));
    let era = *r.pick(&[Era::Frontier, Era::Paris, Era::Shanghai, Era::Cancun]);
    let hdr = Hdr::random(&mut r, era);
    let n = match hdr.era {
        Era::Frontier | Era::London => 15 * 32,
        Era::Paris => 14 * 32 + 32 + 11 * 32 + 8,
        Era::Shanghai => 13 * 32 + 32 + 11 * 32 + 8,
        _ => 13 * 32 + 32 + 12 * 32 + 8,
    };
    let proof = r.bytes(n);
    let content = oracle::ssz::var_list(&[hdr.rlp(), proof]);
    let mode = r.below(7);
    let (tx, mut rx) = mpsc::unbounded_channel::<LegacyHistoryJsonRpcRequest>();
    let asked: Arc<Mutex<Vec<Vec<u8>>>> = Arc::default();
    let a2 = asked.clone();
    let content2 = content.clone();
    rt.spawn(async move {
        while let Some(q) = rx.recv().await {
            if let LegacyHistoryEndpoint::GetContent(k) = &q.endpoint {
                a2.lock().unwrap().push(k.to_bytes().to_vec());
            }
            let v = match mode {
                0 | 1 => Ok(json!({"content": hx(&content2), "utpTransfer": false})),
                2 => Err("not found".into()),
                3 => Ok(json!({"content": hx(&content2[..content2.len() - 1]), "utpTransfer": false})),
                4 => Ok(json!({"content": "0x", "utpTransfer": true})),
                5 => Ok(Value::Null),
                _ => continue,
            };
            let _ = q.resp.send(v);
        }
    });
    let oracle = HeaderOracle { legacy_history_jsonrpc_tx: Some(tx), ..HeaderOracle::new() };
    let h = hdr.hash();
    let what = || format!("mode {mode} header {}", hex(&h));
    let Some(got) = c.no_panic("lookup-panic", what, || rt.block_on(oracle.recursive_find_header_by_hash_with_proof(B256::from(h)))) else { return };
    c.eval("header lookup", &(mode, h));
    c.check_eq(&got.is_ok(), &(mode < 2), "header-lookup", what);
    if let Ok(g) = got {
        c.check(g.header.hash_slow().0 == h && ssz::Encode::as_ssz_bytes(&g) == content, "header-lookup-value", what);
    }
    let mut key = vec![0u8];
    key.extend_from_slice(&h);
    c.check_eq(&*asked.lock().unwrap(), &vec![key], "header-lookup-key", what);
    let none = HeaderOracle::new();
    c.check(rt.block_on(none.recursive_find_header_by_hash_with_proof(B256::from(h))).is_err(), "absent-network", what);
    c.check(rt.block_on(none.get_finalized_state_root()).is_err(), "absent-network", what);
    c.check(none.state_jsonrpc_tx().is_err() && none.beacon_jsonrpc_tx().is_err() && none.legacy_history_jsonrpc_tx().is_err(), "absent-network", what);
}

fn beacon_values(c: &mut Ctx, rt: &Runtime, i: u64) {
    let mut r = c.rng.fork(&format!("beacon{i}"));
    let root: H = r.array();
    let (slot, prop) = (r.edgy_u64(), r.edgy_u64());
    let (a, b2, d): (H, H, H) = (r.array(), r.array(), r.array());
    let answer: Answer = Box::new(move |e| match e {
        BeaconEndpoint::FinalizedStateRoot => Some(Ok(json!(hx(&root)))),
        BeaconEndpoint::FinalizedHeader => Some(Ok(json!({
            "slot": slot.to_string(), "proposer_index": prop.to_string(), "parent_root": hx(&a), "state_root": hx(&b2), "body_root": hx(&d)
        }))),
        _ => Some(Err("unexpected".into())),
    });
    let tx = beacon(rt, Arc::new(Mutex::new(answer)));
    let oracle = HeaderOracle { beacon_jsonrpc_tx: Some(tx), ..HeaderOracle::new() };
    c.eval("beacon value", &root);
    c.check(rt.block_on(oracle.get_finalized_state_root()).is_ok_and(|x| x.0 == root), "finalized-root", || hex(&root));
    let h = rt.block_on(oracle.get_finalized_header());
    c.check(
        h.as_ref().is_ok_and(|h| h.slot == slot && h.proposer_index == prop && h.parent_root.0 == a && h.state_root.0 == b2 && h.body_root.0 == d),
        "finalized-header",
        || format!("{h:?}"),
    );
    c.check(rt.block_on(oracle.get_light_client_store()).is_err(), "store-from-error", String::new);
}

struct ByContent;
impl Validator<IdentityContentKey> for ByContent {
    async fn validate_content(&self, k: &IdentityContentKey, v: &[u8]) -> ValidationResult {
        for _ in 0..(k.content_id()[0] % 5) {
            tokio::task::yield_now().await;
        }
        match v.first() {
            Some(0) => ValidationResult::CanonicallyValid,
            Some(1) => ValidationResult::Valid,
            _ => ValidationResult::Invalid(hex(&k.content_id())),
        }
    }
}

fn batches(c: &mut Ctx, rt: &Runtime, i: u64) {
    let mut r = c.rng.fork(&format!("batch{i}"));
    let items: Vec<(IdentityContentKey, RawContentValue)> =
        (0..r.index(40)).map(|_| (IdentityContentKey::new(r.array()), RawContentValue::from(vec![r.below(3) as u8]))).collect();
    let got = rt.block_on(ByContent.validate_content_batch(&items));
    c.eval("batch", &(i, items.len()));
    c.check_eq(&got.len(), &items.len(), "batch-length", String::new);
    for ((k, v), g) in items.iter().zip(&got) {
        let want = match v[0] {
            0 => ValidationResult::CanonicallyValid,
            1 => ValidationResult::Valid,
            _ => ValidationResult::Invalid(hex(&k.content_id())),
        };
        c.check_eq(g, &want, "batch-order", String::new);
        c.check_eq(&g.is_canonically_valid(), &(v[0] == 0), "verdict-meaning", || format!("{g:?}"));
        c.check_eq(&g.is_valid(), &(v[0] < 2), "verdict-meaning", || format!("{g:?}"));
    }
}

pub fn lookups(c: &mut Ctx) {
    c.rule("summaries and headers looked up elsewhere are the ones asked for, refusals and malformed answers are errors, and the cache never answers differently from its source");
    let rt = crate::rt();
    let _ = LegacyHistoryContentKey::try_from_bytes(vec![0u8; 33]);
    let _ = <ethportal_api::BeaconContentValue as ContentValue>::encode;
    for i in 0..c.n(600, 12000) {
        provider(c, &rt, i);
        headers(c, &rt, i);
        beacon_values(c, &rt, i);
        batches(c, &rt, i);
        if c.saturated() {
            break;
        }
    }
    c.require("summary found", 300);
    c.require("summary refused", 300);
    c.require("header lookup", 100);
}
