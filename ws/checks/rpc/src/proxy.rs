//! Calls for a network: what reaches it, and what comes back.
use alloy::primitives::U256;
use discv5::enr::NodeId;
use ethportal_api::{
    types::{
        distance::Distance,
        jsonrpc::endpoints::{BeaconEndpoint, LegacyHistoryEndpoint, StateEndpoint},
        network::Subnetwork,
        ping_extensions::{
            decode::PingExtension,
            extension_types::PingExtensionType,
            extensions::{type_1::BasicRadius, type_2::HistoryRadius},
        },
        query_trace::QueryTrace,
    },
    BeaconContentKey, BeaconContentValue, ContentValue, LegacyHistoryContentKey, LegacyHistoryContentValue, OverlayContentKey, StateContentKey,
    StateContentValue,
};
use futures::future::join_all;
use serde_json::Value;
use tokio::sync::mpsc::UnboundedReceiver;
use vcommon::{hash_of, hex, json, Ctx, Rng};

use crate::{
    blocks,
    header::KINDS,
    peers::Peer,
    place::{self, Reply},
    things::{self, Sums},
    tries::{Form, Name},
};

fn h(b: &[u8]) -> Value {
    json!(format!("0x{}", hex(b)))
}
type Item = (Vec<u8>, Vec<u8>);
fn history_item(r: &mut Rng) -> Item {
    let mut w = blocks::world(r);
    let kind = *r.pick(&KINDS);
    let p = blocks::proven(r, kind, &mut w);
    let hash = p.block.header.hash();
    match r.below(4) {
        0 => (blocks::by_hash(&hash), blocks::header_content(&p.claim)),
        1 => (blocks::by_number(p.block.header.number), blocks::header_content(&p.claim)),
        2 => (blocks::body(&hash), p.block.body_ssz()),
        _ => (blocks::receipts(&hash), p.block.receipts_ssz()),
    }
}
fn state_item(r: &mut Rng) -> Item {
    let nodes = |r: &mut Rng| {
        (0..r.range(1, 4))
            .map(|_| {
                let n = r.usize_in(32, 200);
                r.bytes(n)
            })
            .collect::<Vec<_>>()
    };
    let n = r.index(9);
    let path: Vec<u8> = (0..n).map(|_| r.below(16) as u8).collect();
    let block = r.array();
    match r.below(3) {
        0 => (Name::Account { path, hash: r.array() }.bytes(), Form::Proof(nodes(r)).bytes(&block)),
        1 => (Name::Storage { address: r.array(), path, hash: r.array() }.bytes(), Form::Both { storage: nodes(r), account: nodes(r) }.bytes(&block)),
        _ => {
            let n = r.usize_in(1, 500);
            let code = r.bytes(n);
            (Name::Code { address: r.array(), hash: r.array() }.bytes(), Form::CodeProof(code, nodes(r)).bytes(&block))
        }
    }
}
fn beacon_item(r: &mut Rng) -> Item {
    let (epoch, n) = (r.range(364_032, 500_000), r.usize_in(0, 20));
    let s = Sums::random(r, epoch, n);
    (things::of_summaries(epoch).to_bytes().to_vec(), s.content())
}
/// What is to come back.
#[derive(Clone, Debug)]
enum Say {
    Yes(Value),
    /// Something the caller cannot understand.
    Odd(Value),
    No(String),
    Missing(Value),
    Silent,
}
struct Op<E> {
    method: String,
    params: Vec<Value>,
    /// What the network gets to see; if nothing, the code of the error.
    sent: Result<E, Option<i32>>,
    say: Say,
}
fn record(r: &mut Rng) -> ethportal_api::types::enr::Enr {
    Peer::random(r).enr
}
fn reply(r: &mut Rng, kind: &str, key: &[u8]) -> Option<Value> {
    Some(match kind {
        "bool" => json!(r.bool()),
        "enr" => json!(record(r)),
        "enrs" => json!((0..r.index(4)).map(|_| record(r)).collect::<Vec<_>>()),
        "radius" => json!(format!("{:#x}", U256::from_be_bytes(r.array::<32>()))),
        "pong" => json!({"enrSeq": r.edgy_u64(), "payloadType": 1, "payload": {"dataRadius": format!("0x{}", hex(&r.array::<32>()))}}),
        "find" if r.bool() => json!({"enrs": (0..r.index(4)).map(|_| record(r)).collect::<Vec<_>>()}),
        "find" | "get" => {
            let n = r.index(300);
            json!({"content": h(&r.bytes(n)), "utpTransfer": r.bool()})
        }
        "trace" => {
            let e = record(r);
            json!({"content": h(&r.bytes(9)), "utpTransfer": r.bool(), "trace": QueryTrace::new(&e, r.array::<32>().into())})
        }
        "page" => json!({"contentKeys": (0..r.index(3)).map(|_| h(key)).collect::<Vec<_>>(), "totalEntries": r.edgy_u64()}),
        "put" => json!({"peerCount": r.u32(), "storedLocally": r.bool()}),
        "accept" => {
            let n = r.usize_in(1, 64);
            h(&(0..n).map(|_| r.below(6) as u8).collect::<Vec<_>>())
        }
        "offered" => json!("Failed"),
        "raw" => {
            let n = r.index(300);
            h(&r.bytes(n))
        }
        "table" => json!({"localNodeId": record(r).node_id(), "buckets": []}),
        "root" => h(&r.array::<32>()),
        _ => return None,
    })
}
fn say(r: &mut Rng, kind: &str, key: &[u8]) -> Say {
    match r.below(8) {
        0 => Say::No(format!("it did not work: {}", r.u32())),
        1 => {
            let e = record(r);
            Say::Missing(if r.bool() { Value::Null } else { json!(QueryTrace::new(&e, r.array::<32>().into())) })
        }
        2 => Say::Silent,
        3 => Say::Odd(match kind {
            "bool" => json!({"bool": 1}),
            _ => r.pick(&[json!(true), json!({"content": 12}), json!(12.5)]).clone(),
        }),
        _ => match reply(r, kind, key) {
            Some(v) => Say::Yes(v),
            None => Say::No("later".into()),
        },
    }
}
/// An argument that is not one.
fn garble(r: &mut Rng, p: &mut Vec<Value>, needed: usize) -> bool {
    if needed == 0 {
        return false;
    }
    let i = r.index(needed);
    match r.below(3) {
        0 => p.truncate(i),
        1 => p[i] = json!({"what": "is this"}),
        _ => p[i] = json!("0xzz"),
    }
    true
}
fn ping(r: &mut Rng, supported: &[u16]) -> (Vec<Value>, Result<(Option<PingExtensionType>, Option<PingExtension>), Option<i32>>) {
    let ty = match r.below(4) {
        0 => None,
        1 => Some(*r.pick(supported)),
        2 => Some(*r.pick(&[0u16, 1, 2, 65535])),
        _ => Some(*r.pick(&[3u16, 4, 77, 65534])),
    };
    let d: [u8; 32] = r.array();
    let radius = Distance::from(U256::from_be_bytes(d));
    let text = json!(radius);
    let n = r.u32() as u16;
    let (payload, parsed): (Option<Value>, Option<Option<PingExtension>>) = match (r.below(3), ty) {
        (0, _) => (None, Some(None)),
        (1, Some(1)) => (Some(json!({"dataRadius": text})), Some(Some(PingExtension::BasicRadius(BasicRadius::new(radius))))),
        (1, Some(2)) => (Some(json!({"dataRadius": text, "ephemeralHeaderCount": n})), Some(Some(PingExtension::HistoryRadius(HistoryRadius::new(radius, n))))),
        (1, _) => (None, Some(None)),
        _ => (Some(r.pick(&[json!({"radius": 1}), json!("0x00"), json!({"dataRadius": "zz"})]).clone()), None),
    };
    let mut params = vec![];
    if ty.is_some() || payload.is_some() || r.bool() {
        params.push(json!(ty));
    }
    if payload.is_some() {
        params.push(payload.clone().expect("a payload"));
    }
    let out = match (ty, &payload) {
        // two things are wrong: either may be told
        (Some(t), Some(_)) if !supported.contains(&t) && parsed.is_none() => Err(None),
        (Some(t), _) if !supported.contains(&t) => Err(Some(-39004)),
        (None, Some(_)) => Err(Some(-39006)),
        (Some(_), Some(_)) if parsed.is_none() => Err(Some(-39005)),
        (t, _) => Ok((t.map(PingExtensionType::from), parsed.flatten())),
    };
    (params, out)
}
macro_rules! network {
    ($ops:ident, $meet:ident, $End:ident, $Key:ident, $Val:ident, $item:ident, $prefix:tt, $supported:expr, $more:expr) => {
        fn $ops(r: &mut Rng) -> Op<$End> {
            let enr = record(r);
            let node: NodeId = record(r).node_id();
            let (kb, vb) = $item(r);
            let key = $Key::try_from_bytes(&kb).expect("harness key");
            let val = $Val::decode(&key, &vb).expect("harness content");
            let (hk, hv) = (h(&kb), h(&vb));
            let (name, mut params, needed, end, kind): (&str, Vec<Value>, usize, $End, &str) = match r.below(19 + $more as u64) {
                0 => ("RoutingTableInfo", vec![], 0, $End::RoutingTableInfo, "table"),
                1 => ("AddEnr", vec![json!(enr)], 1, $End::AddEnr(enr), "bool"),
                2 => ("GetEnr", vec![json!(node)], 1, $End::GetEnr(node), "enr"),
                3 => ("DeleteEnr", vec![json!(node)], 1, $End::DeleteEnr(node), "bool"),
                4 => ("LookupEnr", vec![json!(node)], 1, $End::LookupEnr(node), "enr"),
                5 => {
                    let d: Vec<u16> = (0..r.index(5)).map(|_| r.u32() as u16).collect();
                    ("FindNodes", vec![json!(enr), json!(d)], 2, $End::FindNodes(enr, d), "enrs")
                }
                6 => ("RecursiveFindNodes", vec![json!(node)], 1, $End::RecursiveFindNodes(node), "enrs"),
                7 => ("Radius", vec![], 0, $End::DataRadius, "radius"),
                8 => ("FindContent", vec![json!(enr), hk], 2, $End::FindContent(enr, key), "find"),
                9 => ("GetContent", vec![hk], 1, $End::GetContent(key), "get"),
                10 => ("TraceGetContent", vec![hk], 1, $End::TraceGetContent(key), "trace"),
                11 => {
                    let (o, l) = (r.edgy_u64(), r.edgy_u64());
                    ("PaginateLocalContentKeys", vec![json!(o), json!(l)], 2, $End::PaginateLocalContentKeys(o, l), "page")
                }
                12 => ("PutContent", vec![hk, hv], 2, $End::PutContent(key, val), "put"),
                13 => ("TraceOffer", vec![json!(enr), hk, hv], 3, $End::TraceOffer(enr, key, val), "offered"),
                14 => ("Store", vec![hk, hv], 2, $End::Store(key, val), "bool"),
                15 => ("LocalContent", vec![hk], 1, $End::LocalContent(key), "raw"),
                16 | 17 => {
                    let n = *r.pick(&[0usize, 1, 1, 2, 5, 63, 64, 65, 70]);
                    let few: Vec<Item> = (0..n.min(3)).map(|_| $item(r)).collect();
                    let items: Vec<&Item> = (0..n).map(|i| &few[i % few.len()]).collect();
                    let mut texts: Vec<Value> = items.iter().map(|(k, v)| json!([h(k), h(v)])).collect();
                    let all = items
                        .iter()
                        .map(|(k, v)| {
                            let k = $Key::try_from_bytes(k).expect("harness key");
                            let v = $Val::decode(&k, v).expect("harness content");
                            (k, v)
                        })
                        .collect();
                    let mut sent = if (1..=64).contains(&n) { Ok($End::Offer(enr.clone(), all)) } else { Err(None) };
                    if n > 0 && r.chance(1, 5) {
                        // one of them cannot be read
                        let i = r.index(n);
                        texts[i][1] = json!("0x0102030405");
                        sent = Err(None);
                    }
                    let say = say(r, "accept", &kb);
                    return Op { method: concat!("portal_", $prefix, "Offer").into(), params: vec![json!(enr), json!(texts)], sent, say };
                }
                18 => {
                    let (mut rest, got) = ping(r, $supported);
                    let mut params = vec![json!(enr)];
                    params.append(&mut rest);
                    let say = say(r, "pong", &kb);
                    return Op { method: concat!("portal_", $prefix, "Ping").into(), params, sent: got.map(|(t, p)| $End::Ping(enr, t, p)), say };
                }
                n => network!(@$prefix n),
            };
            let mut sent = Ok(end);
            let say = say(r, kind, &kb);
            if r.chance(1, 10) && garble(r, &mut params, needed) {
                sent = Err(None);
            } else if matches!(name, "PutContent" | "TraceOffer" | "Store") && r.chance(1, 5) {
                let i = params.len() - 1;
                params[i] = json!("0x0102030405");
                sent = Err(Some(-32099));
            }
            Op { method: format!("portal_{}{name}", $prefix), params, sent, say }
        }
        fn $meet(ctx: &mut Ctx, rt: &tokio::runtime::Runtime, r: &mut Rng, methods: &jsonrpsee::Methods, rx: &mut UnboundedReceiver<ethportal_api::types::jsonrpc::request::JsonRpcRequest<$End>>) {
            let mut ops: Vec<Op<$End>> = vec![];
            for _ in 0..*r.pick(&[1usize, 1, 3, 6]) {
                let o = $ops(r);
                if !matches!(&o.sent, Ok(e) if ops.iter().any(|p| matches!(&p.sent, Ok(f) if e == f))) {
                    ops.push(o);
                }
            }
            let due = ops.iter().filter(|o| o.sent.is_ok()).count();
            let mut strange = vec![];
            let mut seen = vec![false; ops.len()];
            let got: Vec<Result<Reply, String>> = rt.block_on(async {
                let calls: Vec<_> = ops.iter().map(|o| tokio::spawn(methods.call_value(&o.method, o.params.clone()))).collect();
                let mut here = vec![];
                while here.len() < due {
                    // nothing else can be waited for: a call that ends without asking ends the wait
                    tokio::select! {
                        m = rx.recv() => match m { Some(m) => here.push(m), None => break },
                        _ = async { while calls.iter().zip(&ops).all(|(c, o)| o.sent.is_err() || !c.is_finished()) { tokio::time::sleep(std::time::Duration::from_millis(5)).await } } => break,
                    }
                }
                r.shuffle(&mut here);
                for m in here {
                    let i = ops.iter().enumerate().position(|(i, o)| !seen[i] && matches!(&o.sent, Ok(e) if *e == m.endpoint));
                    let Some(i) = i else {
                        strange.push(format!("{:?}", m.endpoint).chars().take(600).collect::<String>());
                        continue;
                    };
                    seen[i] = true;
                    let _ = match &ops[i].say {
                        Say::Yes(v) | Say::Odd(v) => m.resp.send(Ok(v.clone())),
                        Say::No(t) => m.resp.send(Err(t.clone())),
                        Say::Missing(t) => m.resp.send(Err(j!({"message": "Unable to locate content on the network before timing out", "trace": t}))),
                        Say::Silent => Ok(()),
                    };
                }
                let all = join_all(calls);
                tokio::pin!(all);
                let out = loop {
                    tokio::select! {
                        out = &mut all => break out,
                        Some(m) = rx.recv() => strange.push(format!("{:?}", m.endpoint).chars().take(600).collect::<String>()),
                    }
                };
                while let Ok(m) = rx.try_recv() {
                    strange.push(format!("{:?}", m.endpoint).chars().take(600).collect::<String>());
                }
                out.into_iter().map(|x| x.map_err(|e| e.to_string())).collect()
            });
            ctx.check(strange.is_empty(), "network-asked-something-else", || j!({"asked": strange, "calls": ops.iter().map(|o| o.method.clone()).collect::<Vec<_>>()}));
            for ((o, got), seen) in ops.iter().zip(got).zip(seen) {
                let short = |v: &[Value]| json!(v).to_string().chars().take(700).collect::<String>();
                let d = || j!({"method": o.method, "params": short(&o.params), "said": format!("{:?}", o.say).chars().take(600).collect::<String>(), "got": format!("{got:?}").chars().take(600).collect::<String>()});
                ctx.eval(&o.method, &(hash_of(&short(&o.params)), format!("{:?}", std::mem::discriminant(&o.say)), o.sent.is_ok()));
                let got = match &got {
                    Ok(g) => g,
                    Err(_) => {
                        ctx.violation("call-died", d());
                        continue;
                    }
                };
                match &o.sent {
                    Err(code) => {
                        ctx.event("refused");
                        ctx.check(got.is_err(), "bad-call-answered", d);
                        if let (Err(e), Some(c)) = (got, code) {
                            ctx.check(e.code() == *c, "wrong-error-code", d);
                            ctx.event(&format!("error {c}"));
                        }
                    }
                    Ok(_) => {
                        ctx.event(&o.method);
                        if !ctx.check(seen, "call-did-not-reach-the-network", d) {
                            continue;
                        }
                        match (&o.say, got) {
                            (Say::Yes(v), Ok(g)) => {
                                ctx.check(v == g, "answer-changed", d);
                                ctx.event("answered");
                            }
                            (Say::Yes(_), Err(_)) => {
                                ctx.violation("answer-lost", d());
                            }
                            (_, Ok(_)) => {
                                ctx.violation("answer-invented", d());
                            }
                            (Say::No(t), Err(e)) => {
                                ctx.check(e.code() == -32099 && e.message().contains(t.as_str()), "failure-not-told", d);
                                ctx.event("failed");
                            }
                            (Say::Missing(t), Err(e)) => {
                                let same = e.code() == -39001 && e.data().unwrap_or(&Value::Null) == t;
                                ctx.check(same, "missing-content-not-told", d);
                                ctx.event("missing");
                            }
                            (Say::Silent, Err(_)) => ctx.event("silent"),
                            (Say::Odd(_), Err(_)) => ctx.event("odd"),
                        }
                    }
                }
            }
        }
    };
    (@"beacon" $n:ident) => {
        match $n {
            19 => ("FinalizedStateRoot", vec![], 0, BeaconEndpoint::FinalizedStateRoot, "root"),
            20 => ("OptimisticStateRoot", vec![], 0, BeaconEndpoint::OptimisticStateRoot, "root"),
            21 => ("FinalizedHeader", vec![], 0, BeaconEndpoint::FinalizedHeader, "none"),
            22 => ("LightClientStore", vec![], 0, BeaconEndpoint::LightClientStore, "none"),
            23 => ("OptimisticUpdate", vec![], 0, BeaconEndpoint::OptimisticUpdate, "none"),
            _ => ("FinalityUpdate", vec![], 0, BeaconEndpoint::FinalityUpdate, "none"),
        }
    };
    (@$other:literal $n:ident) => {
        unreachable!("{}", $n)
    };
}
network!(history_op, history_meets, LegacyHistoryEndpoint, LegacyHistoryContentKey, LegacyHistoryContentValue, history_item, "legacyHistory", &[0, 2, 65535], 0);
network!(state_op, state_meets, StateEndpoint, StateContentKey, StateContentValue, state_item, "state", &[0, 1, 65535], 0);
network!(beacon_op, beacon_meets, BeaconEndpoint, BeaconContentKey, BeaconContentValue, beacon_item, "beacon", &[0, 1, 65535], 6);

pub fn calls(ctx: &mut Ctx) {
    ctx.rule("a call for a network reaches that network once with exactly its arguments, and its own answer or failure comes back; calls with arguments that cannot be used fail without reaching it");
    ctx.level("served interface of a node, networks played by the check");
    let rt = crate::rt();
    let mut r = ctx.rng.fork("proxy");
    let mut place = rt.block_on(place::serve(&mut r, &[Subnetwork::Beacon, Subnetwork::LegacyHistory, Subnetwork::State]));
    let (mut hs, mut ss, mut bs) = (place.history.take().expect("history"), place.state.take().expect("state"), place.beacon.take().expect("beacon"));
    for i in 0..ctx.n(1200, 20_000) {
        if ctx.saturated() {
            break;
        }
        match i % 3 {
            0 => history_meets(ctx, &rt, &mut r, &place.methods, &mut hs),
            1 => state_meets(ctx, &rt, &mut r, &place.methods, &mut ss),
            _ => beacon_meets(ctx, &rt, &mut r, &place.methods, &mut bs),
        }
        let quiet = hs.try_recv().is_err() & ss.try_recv().is_err() & bs.try_recv().is_err();
        ctx.check(quiet, "another-network-asked", || j!({"round": i}));
    }
    let _ = place.handle.stop();
    for k in ["answered", "failed", "missing", "silent", "odd", "refused", "error -39004", "error -39005", "error -39006", "error -32099"] {
        ctx.require(k, 3);
    }
    for n in ["legacyHistory", "state", "beacon"] {
        for m in ["RoutingTableInfo", "AddEnr", "GetEnr", "DeleteEnr", "LookupEnr", "FindNodes", "RecursiveFindNodes", "Radius", "FindContent", "GetContent", "TraceGetContent", "PaginateLocalContentKeys", "PutContent", "TraceOffer", "Store", "LocalContent", "Offer", "Ping"] {
            ctx.require(&format!("portal_{n}{m}"), 2);
        }
    }
}
