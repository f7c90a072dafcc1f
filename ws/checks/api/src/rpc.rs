//! The JSON-RPC vocabulary: method names and parameters of every API, JSON forms of answers, query
//! traces and hex text.
use alloy::primitives::{Bytes, B256, U256};
use discv5::enr::NodeId;
use ethportal_api::{
    jsonrpsee::http_client::HttpClient,
    types::{
        accept_code::{AcceptCode, AcceptCodeList},
        discv5::{NodeInfo, RoutingTableInfo},
        enr::Enr,
        ping_extensions::extension_types::PingExtensionType,
        portal::{
            AcceptInfo, FindContentInfo, GetContentInfo, PaginateLocalContentInfo, PongInfo,
            PutContentInfo, TraceContentInfo,
        },
        portal_wire::OfferTrace,
        query_trace::{QueryFailureKind, QueryTrace},
    },
    utils::bytes::{hex_decode, hex_encode, hex_encode_compact, hex_encode_upper},
    BeaconContentKey, BeaconNetworkApiClient, Discv5ApiClient, EthApiClient, HistoryContentKey,
    HistoryNetworkApiClient, LegacyHistoryContentKey, LegacyHistoryNetworkApiClient,
    OverlayContentKey, StateContentKey, StateNetworkApiClient, Web3ApiClient,
};
use std::{
    collections::BTreeMap,
    future::Future,
    sync::{Arc, Mutex},
};
use vcommon::{hex, json, Ctx, Rng, Value};

type Log = Arc<Mutex<Vec<(String, Vec<Value>)>>>;

/// A client whose calls are recorded and answered with `answer`.
fn client(log: &Log, answer: Value) -> HttpClient {
    let log = log.clone();
    HttpClient::answered_by(move |m, p| {
        log.lock().unwrap().push((m.to_string(), p));
        let a = answer.clone();
        Box::pin(async move { Ok(a) })
    })
}

/// Calls finish without waiting for anything.
fn now<T>(f: impl Future<Output = T>) -> T {
    let mut f = Box::pin(f);
    let w = std::task::Waker::noop();
    let mut cx = std::task::Context::from_waker(w);
    match f.as_mut().poll(&mut cx) {
        std::task::Poll::Ready(x) => x,
        _ => panic!("call did not finish at once"),
    }
}

fn enr(r: &mut Rng, seq: u64, key: &discv5::enr::CombinedKey) -> Enr {
    let mut b = discv5::enr::Enr::builder();
    b.seq(seq);
    b.ip4(std::net::Ipv4Addr::from(0x0a000000 | r.u32() & 0xffff));
    b.udp4(1 + r.below(60000) as u16);
    b.build(key).unwrap()
}

fn called(c: &mut Ctx, log: &Log, method: &str, params: Vec<Value>, got: Result<Value, String>, answer: &Value) {
    let calls = std::mem::take(&mut *log.lock().unwrap());
    c.eval("call", &(method, params.len()));
    c.check(calls.len() == 1, "calls-sent", || format!("{method}: {}", calls.len()));
    let Some((m, p)) = calls.into_iter().next() else { return };
    c.sample("call", || json!({"method": m, "params": p}));
    c.check(m == method, "method-name", || format!("{m} instead of {method}"));
    c.check(p == params, "call-parameters", || format!("{m}: {} instead of {}", Value::Array(p.clone()), Value::Array(params.clone())));
    c.check(got.as_ref().is_ok_and(|g| g == answer), "call-answer", || format!("{method}: {answer} understood as {got:?}"));
}

macro_rules! call {
    ($c:expr, $log:expr, $m:expr, $params:expr, $answer:expr, |$cl:ident| $call:expr) => {{
        let a: Value = $answer;
        let $cl = client(&$log, a.clone());
        let got = vcommon::guard(|| now($call).map_err(|e| format!("{e:?}")).and_then(|x| serde_json::to_value(x).map_err(|e| e.to_string())));
        let got = match got { Ok(g) => g, Err(p) => Err(p) };
        called($c, &$log, $m, $params, got, &a);
    }};
}

macro_rules! network {
    ($c:expr, $r:expr, $Api:ident, $Key:ty, $name:expr, $keys:expr, $paged:ident) => {{
        let c: &mut Ctx = $c;
        let r: &mut Rng = $r;
        let log: Log = Default::default();
        let k = discv5::enr::CombinedKey::generate_secp256k1();
        let e = enr(r, 3, &k);
        let ej = json!(e.to_base64());
        let id = NodeId::new(&r.array());
        let idj = json!(format!("0x{}", hex(&id.raw())));
        let keys: Vec<Vec<u8>> = $keys;
        let kb = keys[r.index(keys.len())].clone();
        let key = <$Key>::try_from_bytes(&kb).expect("key");
        let kj = json!(format!("0x{}", hex(&kb)));
        let n = r.usize_in(0, 40);
        let value = Bytes::from(r.bytes(n));
        let vj = json!(format!("0x{}", hex(&value)));
        let m = |s: &str| format!("portal_{}{s}", $name);
        call!(c, log, &m("RoutingTableInfo"), vec![], json!({"localNodeId": idj, "buckets": [[idj.clone()]]}), |cl| $Api::routing_table_info(&cl));
        call!(c, log, &m("Radius"), vec![], json!("0x5"), |cl| $Api::radius(&cl));
        call!(c, log, &m("AddEnr"), vec![ej.clone()], json!(true), |cl| $Api::add_enr(&cl, e.clone()));
        call!(c, log, &m("GetEnr"), vec![idj.clone()], ej.clone(), |cl| $Api::get_enr(&cl, id));
        call!(c, log, &m("DeleteEnr"), vec![idj.clone()], json!(false), |cl| $Api::delete_enr(&cl, id));
        call!(c, log, &m("LookupEnr"), vec![idj.clone()], ej.clone(), |cl| $Api::lookup_enr(&cl, id));
        let pong = json!({"enrSeq": 7, "payloadType": 1, "payload": {"dataRadius": "0x1"}});
        call!(c, log, &m("Ping"), vec![ej.clone(), json!(1), json!({"dataRadius": "0x2"})], pong, |cl| $Api::ping(&cl, e.clone(), Some(PingExtensionType::BasicRadius), Some(json!({"dataRadius": "0x2"}))));
        let ds: Vec<u16> = (0..r.below(4)).map(|_| r.below(257) as u16).collect();
        call!(c, log, &m("FindNodes"), vec![ej.clone(), json!(ds)], json!([ej.clone()]), |cl| $Api::find_nodes(&cl, e.clone(), ds.clone()));
        call!(c, log, &m("RecursiveFindNodes"), vec![idj.clone()], json!([ej.clone(), ej.clone()]), |cl| $Api::recursive_find_nodes(&cl, id));
        call!(c, log, &m("FindContent"), vec![ej.clone(), kj.clone()], json!({"content": vj, "utpTransfer": true}), |cl| $Api::find_content(&cl, e.clone(), key.clone()));
        call!(c, log, &m("FindContent"), vec![ej.clone(), kj.clone()], json!({"enrs": [ej.clone()]}), |cl| $Api::find_content(&cl, e.clone(), key.clone()));
        call!(c, log, &m("GetContent"), vec![kj.clone()], json!({"content": vj, "utpTransfer": false}), |cl| $Api::get_content(&cl, key.clone()));
        let trace = json!({"receivedFrom": idj, "origin": idj, "responses": {}, "failures": {}, "metadata": {}, "startedAtMs": 5, "targetId": format!("0x{}", "11".repeat(32)), "cancelled": [idj.clone()]});
        call!(c, log, &m("TraceGetContent"), vec![kj.clone()], json!({"content": vj, "utpTransfer": false, "trace": trace}), |cl| $Api::trace_get_content(&cl, key.clone()));
        network!(@$paged c, log, m, $Api, kj);
        call!(c, log, &m("PutContent"), vec![kj.clone(), vj.clone()], json!({"peerCount": 3, "storedLocally": true}), |cl| $Api::put_content(&cl, key.clone(), value.clone()));
        call!(c, log, &m("Offer"), vec![ej.clone(), json!([[kj.clone(), vj.clone()]])], json!("0x0001ff"), |cl| $Api::offer(&cl, e.clone(), vec![(key.clone(), value.clone())]));
        call!(c, log, &m("TraceOffer"), vec![ej.clone(), kj.clone(), vj.clone()], json!("Failed"), |cl| $Api::trace_offer(&cl, e.clone(), key.clone(), value.clone()));
        call!(c, log, &m("Store"), vec![kj.clone(), vj.clone()], json!(true), |cl| $Api::store(&cl, key.clone(), value.clone()));
        call!(c, log, &m("LocalContent"), vec![kj.clone()], vj.clone(), |cl| $Api::local_content(&cl, key.clone()));
    }};
    (@yes $c:expr, $log:expr, $m:expr, $Api:ident, $kj:expr) => {
        call!($c, $log, &$m("PaginateLocalContentKeys"), vec![json!(10), json!(u64::MAX)], json!({"contentKeys": [$kj.clone()], "totalEntries": 99}), |cl| $Api::paginate_local_content_keys(&cl, 10, u64::MAX));
    };
    (@no $c:expr, $log:expr, $m:expr, $Api:ident, $kj:expr) => {};
}

fn calls(c: &mut Ctx, r: &mut Rng) {
    let h = |r: &mut Rng, p: u8, n: usize| [vec![p], r.bytes(n)].concat();
    let k = vec![h(r, 0, 32), h(r, 1, 32), h(r, 2, 32), h(r, 3, 8)];
    network!(c, r, LegacyHistoryNetworkApiClient, LegacyHistoryContentKey, "legacyHistory", k.clone(), yes);
    let k = vec![h(r, 0, 8), h(r, 1, 8)];
    network!(c, r, HistoryNetworkApiClient, HistoryContentKey, "history", k.clone(), no);
    let k = vec![h(r, 0x10, 32), h(r, 0x11, 16), h(r, 0x12, 8), h(r, 0x13, 8), h(r, 0x14, 8)];
    network!(c, r, BeaconNetworkApiClient, BeaconContentKey, "beacon", k.clone(), yes);
    let k = vec![h(r, 0x22, 64)];
    network!(c, r, StateNetworkApiClient, StateContentKey, "state", k.clone(), yes);

    let log: Log = Default::default();
    let key = discv5::enr::CombinedKey::generate_secp256k1();
    let e = enr(r, 9, &key);
    let ej = json!(e.to_base64());
    let id = NodeId::new(&r.array());
    let idj = json!(format!("0x{}", hex(&id.raw())));
    let root = format!("0x{}", hex(&r.array::<32>()));
    call!(c, log, "portal_beaconFinalizedStateRoot", vec![], json!(root), |cl| BeaconNetworkApiClient::finalized_state_root(&cl));
    call!(c, log, "portal_beaconOptimisticStateRoot", vec![], json!(root), |cl| BeaconNetworkApiClient::optimistic_state_root(&cl));
    for (m, p) in [("portal_beaconLightClientStore", 0), ("portal_beaconFinalizedHeader", 1), ("portal_beaconFinalityUpdate", 2), ("portal_beaconOptimisticUpdate", 3)] {
        let cl = client(&log, Value::Null);
        // the answer is not an object of the type; only the request is judged
        let _ = match p {
            0 => now(BeaconNetworkApiClient::light_client_store(&cl)).is_ok(),
            1 => now(BeaconNetworkApiClient::finalized_header(&cl)).is_ok(),
            2 => now(BeaconNetworkApiClient::finality_update(&cl)).is_ok(),
            _ => now(BeaconNetworkApiClient::optimistic_update(&cl)).is_ok(),
        };
        called(c, &log, m, vec![], Ok(Value::Null), &Value::Null);
    }
    let info = json!({"enr": ej, "nodeId": idj, "ip": "1.2.3.4:9"});
    call!(c, log, "discv5_nodeInfo", vec![], info.clone(), |cl| Discv5ApiClient::node_info(&cl));
    call!(c, log, "discv5_updateNodeInfo", vec![json!("1.2.3.4:5"), json!(true)], info.clone(), |cl| Discv5ApiClient::update_node_info(&cl, "1.2.3.4:5".into(), true));
    call!(c, log, "discv5_routingTableInfo", vec![], json!({"localNodeId": idj, "buckets": [[idj.clone()]]}), |cl| Discv5ApiClient::routing_table_info(&cl));
    call!(c, log, "discv5_addEnr", vec![ej.clone()], json!(true), |cl| Discv5ApiClient::add_enr(&cl, e.clone()));
    call!(c, log, "discv5_getEnr", vec![idj.clone()], ej.clone(), |cl| Discv5ApiClient::get_enr(&cl, id));
    call!(c, log, "discv5_deleteEnr", vec![idj.clone()], json!(true), |cl| Discv5ApiClient::delete_enr(&cl, id));
    call!(c, log, "discv5_lookupEnr", vec![idj.clone()], ej.clone(), |cl| Discv5ApiClient::lookup_enr(&cl, id));
    call!(c, log, "discv5_recursiveFindNodes", vec![idj.clone()], json!([ej.clone()]), |cl| Discv5ApiClient::recursive_find_nodes(&cl, id));
    call!(c, log, "discv5_ping", vec![ej.clone()], json!({"enrSeq": 4, "ip": "127.0.0.1", "port": 80}), |cl| Discv5ApiClient::ping(&cl, e.clone()));
    call!(c, log, "discv5_findNode", vec![ej.clone(), json!([0, 256])], json!([ej.clone()]), |cl| Discv5ApiClient::find_node(&cl, e.clone(), vec![0, 256]));
    call!(c, log, "web3_clientVersion", vec![], json!("trin v1"), |cl| Web3ApiClient::client_version(&cl));
    call!(c, log, "eth_chainId", vec![], json!("0x1"), |cl| EthApiClient::chain_id(&cl));
}

/// JSON texts in the documented form, read and written back unchanged.
fn answers(c: &mut Ctx, r: &mut Rng) {
    macro_rules! same {
        ($what:expr, $X:ty, $v:expr) => {{
            let v: Value = $v;
            c.eval($what, &v.to_string());
            let got = vcommon::guard(|| serde_json::from_value::<$X>(v.clone()).map_err(|e| e.to_string()).and_then(|x| serde_json::to_value(x).map_err(|e| e.to_string())));
            c.check(matches!(&got, Ok(Ok(w)) if *w == v), "answer-json", || format!("{}: {v} became {got:?}", $what));
        }};
    }
    let key = discv5::enr::CombinedKey::generate_secp256k1();
    let e = json!(enr(r, 1, &key).to_base64());
    let id = json!(format!("0x{}", hex(&r.array::<32>())));
    let n = r.usize_in(0, 60);
    let b = json!(format!("0x{}", hex(&r.bytes(n))));
    same!("put content", PutContentInfo, json!({"peerCount": r.u32(), "storedLocally": r.bool()}));
    same!("find content", FindContentInfo, json!({"content": b, "utpTransfer": r.bool()}));
    same!("find content", FindContentInfo, json!({"enrs": [e.clone(), e.clone()]}));
    same!("find content", FindContentInfo, json!({"enrs": []}));
    same!("get content", GetContentInfo, json!({"content": b, "utpTransfer": r.bool()}));
    same!("pong", PongInfo, json!({"enrSeq": r.edgy_u64(), "payloadType": *r.pick(&[0, 1, 2, 65535]), "payload": {"a": [1, null]}}));
    same!("page", PaginateLocalContentInfo<HistoryContentKey>, json!({"contentKeys": [format!("0x00{}", hex(&r.bytes(8)))], "totalEntries": r.edgy_u64()}));
    let n = r.usize_in(0, 64);
    let codes: Vec<u8> = (0..n).map(|_| *r.pick(&[0u8, 1, 2, 3, 4, 5, 255])).collect();
    same!("accept info", AcceptInfo, json!(format!("0x{}", hex(&codes))));
    let l: Vec<u8> = serde_json::from_value::<AcceptInfo>(json!(format!("0x{}", hex(&codes)))).map(|x| x.0.iter().map(|x| u8::from(*x)).collect()).unwrap_or_default();
    c.check(l == codes, "accept-info-codes", || hex(&codes));
    let long = json!(format!("0x{}", "00".repeat(65)));
    let got = vcommon::guard(|| serde_json::from_value::<AcceptInfo>(long).is_ok());
    c.check(got == Ok(false), "accept-info-limit", || format!("{got:?}"));
    same!("node info", NodeInfo, json!({"enr": e, "nodeId": id, "ip": null}));
    same!("routing table", RoutingTableInfo, json!({"localNodeId": id, "buckets": [[id.clone(), id.clone()], [id.clone()]]}));
    for t in ["Failed"] {
        same!("offer trace", OfferTrace, json!(t));
    }
    let o = OfferTrace::Success(AcceptCode::from(r.below(6) as u8));
    let j = serde_json::to_value(&o).unwrap();
    c.check(serde_json::from_value::<OfferTrace>(j.clone()).is_ok_and(|x| x == o), "offer-trace", || j.to_string());
    let info = TraceContentInfo { content: Bytes::from(vec![1, 2]), utp_transfer: true, trace: QueryTrace::new(&enr(r, 1, &key), B256::from(r.array::<32>())) };
    let j = serde_json::to_value(&info).unwrap();
    c.check(serde_json::from_value::<TraceContentInfo>(j.clone()).is_ok_and(|x| x == info), "trace-answer", || j.to_string());
}

fn texts(c: &mut Ctx, r: &mut Rng) {
    let n = r.usize_in(0, 40);
    let b = r.bytes(n);
    let want = format!("0x{}", hex(&b));
    c.eval("hex text", &want);
    c.check_eq(&hex_encode(&b), &want, "hex-writing", || hex(&b));
    c.check_eq(&hex_encode_upper(&b), &format!("0x{}", hex(&b).to_uppercase()), "hex-writing-upper", || hex(&b));
    let compact = if n <= 8 { want.clone() } else { format!("0x{}..{}", &want[2..6], &want[want.len() - 4..]) };
    c.check_eq(&hex_encode_compact(&b), &compact, "hex-writing-compact", || hex(&b));
    let mut t: Vec<char> = want.chars().collect();
    for _ in 0..r.below(3) {
        let i = r.index(t.len());
        match r.below(4) {
            0 => {
                t.remove(i);
            }
            1 => t.insert(i, *r.pick(&['x', '0', 'g', 'é', ' ', 'F'])),
            2 => t[i] = t[i].to_ascii_uppercase(),
            _ => t[i] = *r.pick(&['ß', '1', 'z', 'A']),
        }
        if t.is_empty() {
            t.push('0');
        }
    }
    let t: String = t.into_iter().collect();
    let want = t.strip_prefix("0x").or(t.strip_prefix("0X")).and_then(|h| {
        if h.len() % 2 == 1 || !h.bytes().all(|x| x.is_ascii_hexdigit()) {
            return None;
        }
        Some((0..h.len() / 2).map(|i| u8::from_str_radix(&h[2 * i..2 * i + 2], 16).unwrap()).collect::<Vec<u8>>())
    });
    let got = vcommon::guard(|| hex_decode(&t).ok());
    c.eval(if want.is_some() { "hex accepted" } else { "hex refused" }, &t);
    c.check(got.as_ref().is_ok_and(|g| *g == want), "hex-reading", || format!("{t:?}: {got:?} instead of {want:?}"));
}

#[derive(Default)]
struct Model {
    responses: BTreeMap<[u8; 32], Vec<[u8; 32]>>,
    failures: BTreeMap<[u8; 32], String>,
    meta: BTreeMap<[u8; 32], Enr>,
    from: Option<[u8; 32]>,
}

impl Model {
    fn seen(&mut self, e: &Enr, responded: bool) {
        let id = e.node_id().raw();
        match self.meta.get(&id) {
            Some(o) if o.seq() > e.seq() || (o.seq() == e.seq() && !responded) => {}
            _ => {
                self.meta.insert(id, e.clone());
            }
        }
    }
}

fn traces(c: &mut Ctx, r: &mut Rng) {
    let keys: Vec<_> = (0..5).map(|_| discv5::enr::CombinedKey::generate_secp256k1()).collect();
    let local = enr(r, 1, &discv5::enr::CombinedKey::generate_secp256k1());
    let target: [u8; 32] = r.array();
    let before = std::time::SystemTime::now().duration_since(std::time::UNIX_EPOCH).unwrap().as_millis() as u64;
    let mut t = QueryTrace::new(&local, B256::from(target));
    let mut m = Model::default();
    let mut story = vec![];
    for _ in 0..r.usize_in(1, 14) {
        let a = r.index(5);
        let s = r.range(1, 4);
        let e = enr(r, s, &keys[a]);
        let id = e.node_id();
        match r.below(6) {
            0 | 1 => {
                let n = r.usize_in(0, 4);
                let others: Vec<Enr> = (0..n)
                    .map(|_| {
                        let (k, s) = (r.index(5), r.range(1, 4));
                        enr(r, s, &keys[k])
                    })
                    .collect();
                story.push(format!("{a} (seq {}) answers {n} nodes", e.seq()));
                t.node_responded_with(&e, others.iter().collect());
                for o in &others {
                    m.seen(o, false);
                    m.responses.entry(id.raw()).or_default().push(o.node_id().raw());
                }
                m.responses.entry(id.raw()).or_default();
                m.seen(&e, true);
            }
            2 => {
                story.push(format!("{a} (seq {}) answers content", e.seq()));
                t.node_responded_with_content(&e);
                m.responses.insert(id.raw(), vec![]);
                m.seen(&e, true);
            }
            3 => {
                let (k, s) = match r.below(3) {
                    0 => (QueryFailureKind::UtpConnectionFailed, "utpConnectionFailed"),
                    1 => (QueryFailureKind::UtpTransferFailed, "utpTransferFailed"),
                    _ => (QueryFailureKind::InvalidContent, "invalidContent"),
                };
                story.push(format!("{a} fails: {s}"));
                t.node_failed(id, k);
                m.failures.insert(id.raw(), s.into());
            }
            4 => {
                story.push(format!("{a} validated"));
                t.content_validated(id);
                m.from.get_or_insert(id.raw());
            }
            _ => {
                story.push(format!("{a} cancelled"));
                t.cancelled.push(id);
            }
        }
    }
    c.eval("query trace", &story);
    let what = || story.join("; ");
    let after = std::time::SystemTime::now().duration_since(std::time::UNIX_EPOCH).unwrap().as_millis() as u64;
    c.check(before <= t.started_at_ms && t.started_at_ms <= after, "trace-start", what);
    c.check(t.origin == local.node_id() && t.target_id.0 == target, "trace-origin", what);
    c.check_eq(&t.received_from.map(|x| x.raw()), &m.from, "trace-source", what);
    let got: BTreeMap<_, Vec<[u8; 32]>> = t.responses.iter().map(|(k, v)| (k.raw(), v.responded_with.iter().map(|x| x.raw()).collect())).collect();
    c.check(got == m.responses, "trace-responses", what);
    let got: BTreeMap<_, String> = t.failures.iter().map(|(k, v)| (k.raw(), serde_json::to_value(&v.failure).unwrap().as_str().unwrap_or("").to_string())).collect();
    c.check(got == m.failures, "trace-failures", what);
    let got: BTreeMap<_, String> = t.metadata.iter().map(|(k, v)| (k.raw(), v.enr.to_base64())).collect();
    let want: BTreeMap<_, String> = m.meta.iter().map(|(k, v)| (*k, v.to_base64())).collect();
    c.check(got == want, "trace-records", what);
    for (k, v) in &t.metadata {
        c.check(v.distance.0 == oracle::xor(&k.raw(), &target), "trace-distance", what);
    }
    let j = serde_json::to_value(&t).unwrap();
    for f in ["receivedFrom", "origin", "responses", "failures", "metadata", "startedAtMs", "targetId", "cancelled"] {
        c.check(j.get(f).is_some(), "trace-json-field", || f.to_string());
    }
    c.check(serde_json::from_value::<QueryTrace>(j.clone()).is_ok_and(|x| x == t), "trace-json", || j.to_string());
}

pub fn surface(c: &mut Ctx) {
    c.rule("each API call sends the documented method name and parameters and understands the documented answer; answer types keep their JSON form; query traces equal a model of the reported events; hex text is read and written exactly");
    let mut r = c.rng.fork("rpc");
    for _ in 0..c.n(40, 1_000) {
        if c.saturated() {
            break;
        }
        calls(c, &mut r);
    }
    for _ in 0..c.n(2_000, 50_000) {
        if c.saturated() {
            break;
        }
        answers(c, &mut r);
        traces(c, &mut r);
    }
    for _ in 0..c.n(200_000, 5_000_000) {
        if c.saturated() {
            break;
        }
        texts(c, &mut r);
    }
    let _ = U256::ZERO;
    for k in ["call", "query trace", "hex accepted", "hex refused", "accept info"] {
        c.require(k, 50);
    }
}
