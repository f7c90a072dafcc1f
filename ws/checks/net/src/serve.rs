//! Requests of other peers, answered by a running node.
use std::{collections::BTreeSet, time::Duration};

use ethportal_api::types::{
    distance::Distance,
    ping_extensions::{decode::PingExtension, extension_types::PingExtensionType, extensions::type_1::BasicRadius},
    portal_wire::{Content, FindContent, FindNodes, Ping, Request, Response},
};
use portalnet::overlay::config::OverlayConfig;
use vcommon::{hex, Ctx, Rng};

use crate::{
    clock,
    peers::{log2, xor},
    world::*,
};

/// What fits into one packet of the discovery protocol besides its own overhead.
const ROOM: usize = 1280 - 109;

pub fn requests(ctx: &mut Ctx) {
    ctx.rule("pings are answered with the own radius and record number in the same format; peers at the asked distances, the content or else the peers closest to it are given, connected ones only and never the asker; answers fit into a packet; content too large for one arrives unchanged by a transfer; malformed requests get an empty answer");
    let mut r = ctx.rng.fork("requests");
    for case in 0..ctx.n(500, 15000) {
        if ctx.saturated() {
            break;
        }
        let mut r = r.fork(&format!("case{case}"));
        fresh(&mut r);
        clock::simulate(one(ctx, &mut r));
    }
    for (k, n) in [("ping", 50), ("foreign ping", 20), ("peers by distance", 100), ("own record", 20), ("content in the answer", 30), ("content by transfer", 30), ("closest peers", 50), ("answer filled up", 10), ("no peers for content without distance", 10), ("malformed", 50), ("largest content in one packet", 3)] {
        ctx.require(k, n);
    }
}
async fn one(ctx: &mut Ctx, r: &mut Rng) {
    let node = Node::start(r, OverlayConfig { ping_queue_interval: Some(Duration::from_secs(3600)), ..Default::default() }).await;
    let radius = match r.below(3) {
        0 => Distance::MAX,
        1 => Distance::ZERO,
        _ => Distance::from(alloy::primitives::U256::from_be_bytes(r.array::<32>())),
    };
    node.store.lock().radius = radius;
    let n = *r.pick(&[1usize, 3, 8, 20]);
    let mut peers = vec![];
    for _ in 0..n {
        let v = some_versions(r);
        let p = Scripted::start(r, &node, v).await;
        p.behave();
        peers.push(p);
    }
    // who is connected, and who is only known
    let mut connected = BTreeSet::new();
    let mut quiet = BTreeSet::new();
    for (i, p) in peers.iter().enumerate() {
        match r.below(4) {
            0 => {
                quiet.insert(i);
                let _ = node.overlay.add_enr(p.enr.clone());
                p.think(|_| Act::Silent);
            }
            1 => {}
            _ => {
                if node.overlay.add_enr(p.enr.clone()).is_ok() {
                    connected.insert(i);
                }
            }
        }
    }
    // some peers stop answering, which the node finds out
    for i in &quiet {
        let (o, e) = (node.overlay.clone(), peers[*i].enr.clone());
        let x = clock::within(Duration::from_secs(20), async move { o.send_ping(e, None, None).await }).await;
        ctx.check(matches!(x, Some(Err(_))), "silent-peer-answered", || "a ping to a silent peer gave an answer".into());
    }
    let mut stored = vec![];
    for _ in 0..r.below(5) {
        let near = r.chance(2, 3);
        let k = Key::random(r, near);
        let len = *r.pick(&[33usize, 100, 1000, ROOM - 6, ROOM - 5, ROOM - 4, 1200, 5000, 60000]);
        let v = value(r, &k, Worth::Canonical, len);
        node.store.lock().items.insert(k.clone(), v.clone());
        stored.push((k, v));
    }
    let me = node.id();
    let mut asked = BTreeSet::new();
    for _ in 0..r.range(3, 12) {
        let a = r.index(peers.len());
        let who = &peers[a];
        if quiet.contains(&a) && who.version.is_none() {
            continue;
        }
        asked.insert(a);
        // whoever asks is connected from then on
        connected.insert(a);
        quiet.remove(&a);
        let others = |want: &dyn Fn(&Scripted) -> bool| -> Vec<usize> { connected.iter().copied().filter(|i| *i != a && want(&peers[*i])).collect() };
        match r.below(5) {
            0 => {
                let (t, payload) = match r.below(4) {
                    0 => (PingExtensionType::BasicRadius, BasicRadius { data_radius: Distance::MAX }.into()),
                    1 => (PingExtensionType::Capabilities, node.overlay.default_ping_extension(PingExtensionType::Capabilities).expect("default").into()),
                    2 => (PingExtensionType::HistoryRadius, node.overlay.default_ping_extension(PingExtensionType::HistoryRadius).expect("default").into()),
                    _ => (PingExtensionType::NonSupportedExtension(r.range(3, 65534) as u16), r.bytes(20).into()),
                };
                let own = matches!(t, PingExtensionType::BasicRadius | PingExtensionType::Capabilities);
                let ans = who.ask(Request::Ping(Ping { enr_seq: 1, payload_type: t, payload })).await;
                let pong = ans.as_deref().and_then(message);
                let Some(Response::Pong(p)) = pong else {
                    ctx.violation("ping-not-answered", format!("a ping of type {t:?} got {:?}", ans.map(|x| hex(&x))));
                    continue;
                };
                ctx.check_eq(&p.enr_seq, &node.enr().seq(), "pong-record-number", || "the pong has another record number than the node's record".into());
                if own {
                    ctx.eval("ping", &format!("{t:?}{radius}"));
                    let x = PingExtension::decode_ssz(p.payload_type, p.payload);
                    let got = match &x {
                        Ok(PingExtension::BasicRadius(b)) => Some((PingExtensionType::BasicRadius, b.data_radius)),
                        Ok(PingExtension::Capabilities(c)) => Some((PingExtensionType::Capabilities, c.data_radius)),
                        _ => None,
                    };
                    ctx.check(got == Some((t, radius)), "pong-radius", || format!("asked as {t:?} with radius {radius} got {got:?}"));
                    if let Ok(PingExtension::Capabilities(c)) = x {
                        let c: BTreeSet<u16> = c.capabilities.iter().map(|x| u16::from(*x)).collect();
                        ctx.check(c == [0u16, 1].into(), "pong-capabilities", || format!("announced {c:?}"));
                    }
                } else {
                    ctx.eval("foreign ping", &format!("{t:?}"));
                    ctx.check(p.payload_type == PingExtensionType::Error, "foreign-ping-answer", || format!("an unsupported ping {t:?} got {:?}", p.payload_type));
                }
            }
            1 => {
                let mut d: BTreeSet<u16> = (0..r.range(0, 4)).map(|_| r.range(240, 256) as u16).collect();
                if r.chance(1, 3) {
                    d.insert(0);
                }
                for i in connected.iter() {
                    if r.chance(2, 3) {
                        d.insert(log2(&me, &peers[*i].id()));
                    }
                }
                let mut d: Vec<u16> = d.into_iter().collect();
                r.shuffle(&mut d);
                let ans = who.ask(Request::FindNodes(FindNodes { distances: d.clone() })).await;
                let Some(Response::Nodes(x)) = ans.as_deref().and_then(message) else {
                    ctx.violation("nodes-not-answered", format!("distances {d:?} got {:?}", ans.map(|x| hex(&x))));
                    continue;
                };
                ctx.check(ans.as_ref().unwrap().len() <= ROOM, "answer-too-large", || format!("{} bytes", ans.as_ref().unwrap().len()));
                ctx.eval("peers by distance", &(&d, &connected));
                let got: Vec<[u8; 32]> = x.enrs.iter().map(|e| e.node_id().raw()).collect();
                let mut want: BTreeSet<[u8; 32]> = others(&|p| d.contains(&log2(&me, &p.id()))).into_iter().map(|i| peers[i].id()).collect();
                if d.contains(&0) {
                    ctx.event("own record");
                    want.insert(me);
                }
                let set: BTreeSet<[u8; 32]> = got.iter().copied().collect();
                ctx.check(set.len() == got.len(), "peer-listed-twice", || format!("{} of {}", set.len(), got.len()));
                for g in &set {
                    ctx.check(want.contains(g), "wrong-peer-listed", || j!({"distances": d, "peer": hex(g), "distance": log2(&me, g), "asker": hex(&who.id()), "disconnected": quiet.iter().any(|i| peers[*i].id() == *g)}));
                }
                filled(ctx, ans.as_ref().unwrap().len(), set.len(), want.len(), "peer-missing");
                for e in &x.enrs {
                    let right = if e.node_id().raw() == me { node.enr() } else { peers.iter().find(|p| p.id() == e.node_id().raw()).map(|p| p.enr.clone()).unwrap_or(node.enr()) };
                    ctx.check(e.0 == right, "record-changed", || "a record was handed on changed".into());
                }
            }
            2 | 3 => {
                let (k, v) = if r.chance(2, 3) && !stored.is_empty() {
                    let (k, v) = r.pick(&stored).clone();
                    (k, Some(v))
                } else {
                    let near = r.chance(3, 4);
                    (Key::random(r, near), None)
                };
                let ans = who.ask(Request::FindContent(FindContent { content_key: k.raw() })).await;
                let Some(Response::Content(x)) = ans.as_deref().and_then(message) else {
                    ctx.violation("content-not-answered", format!("got {:?}", ans.map(|x| hex(&x))));
                    continue;
                };
                ctx.check(ans.as_ref().unwrap().len() <= ROOM, "answer-too-large", || format!("{} bytes", ans.as_ref().unwrap().len()));
                match (v, x) {
                    (Some(v), Content::Content(c)) => {
                        ctx.eval("content in the answer", &k);
                        if v.len() == ROOM - 6 {
                            ctx.event("largest content in one packet");
                        }
                        ctx.check(c.as_ref() == v.as_slice(), "content-changed", || j!({"key": k.to_string(), "length": v.len(), "got": c.len()}));
                    }
                    (Some(v), Content::ConnectionId(cid)) => {
                        ctx.eval("content by transfer", &(&k, who.version));
                        ctx.check(v.len() > ROOM - 6, "needless-transfer", || format!("{} bytes", v.len()));
                        let data = who.read_stream(u16::from_be(cid)).await.flatten();
                        let want = if who.version == Some(1) { frame(&[v.clone()]) } else { v };
                        ctx.check(data.as_deref() == Some(want.as_slice()), "transferred-content-changed", || j!({"version": who.version, "want": want.len(), "got": data.as_ref().map(|d| d.len())}));
                    }
                    (None, Content::Enrs(e)) => {
                        let got: Vec<[u8; 32]> = e.iter().map(|e| e.node_id().raw()).collect();
                        if k.0[0] == 0 {
                            ctx.event("no peers for content without distance");
                            ctx.check(got.is_empty(), "peers-for-content-without-distance", || format!("{}", got.len()));
                            continue;
                        }
                        ctx.eval("closest peers", &(&k, &connected));
                        let mut want: Vec<[u8; 32]> = others(&|_| true).into_iter().map(|i| peers[i].id()).collect();
                        want.sort_by_key(|i| xor(i, &k.id()));
                        ctx.check(want.starts_with(&got), "closest-peers-wrong", || j!({"content": k.to_string(), "got": got.iter().map(|g| hex(g)).collect::<Vec<_>>(), "want": want.iter().map(|g| hex(g)).collect::<Vec<_>>(), "asker": hex(&who.id())}));
                        filled(ctx, ans.as_ref().unwrap().len(), got.len(), want.len(), "closest-peer-missing");
                    }
                    (v, x) => ctx.violation("wrong-kind-of-answer", j!({"stored": v.map(|v| v.len()), "answer": format!("{x:?}").chars().take(60).collect::<String>()})),
                }
            }
            _ => {
                let mut m: Vec<u8> = match r.below(4) {
                    0 => r.bytes(r.clone().index(40)),
                    1 => ethportal_api::types::portal_wire::Message::from(Request::FindContent(FindContent { content_key: r.bytes(7).into() })).into(),
                    2 => {
                        let k: Vec<u8> = ethportal_api::types::portal_wire::Message::from(Request::FindNodes(FindNodes { distances: vec![1, 2, 3] })).into();
                        k[..r.index(k.len())].to_vec()
                    }
                    _ => vec![*r.pick(&[1u8, 3, 5, 7, 8, 255])],
                };
                if m.first().is_some_and(|x| [0, 2].contains(x)) && m.len() > 6 {
                    m[0] = 9;
                }
                ctx.eval("malformed", &m);
                let ans = who.ask_raw(m.clone()).await;
                // some of these happen to be well formed
                ctx.check(ans.as_deref().is_some_and(|x| x.is_empty() || message(x).is_some()), "malformed-not-answered", || format!("{} got {ans:?}", hex(&m)));
                // a peer counts as connected once it has asked something well formed
                let again = who.ask(Request::FindNodes(FindNodes { distances: vec![0] })).await;
                ctx.check(matches!(again.as_deref().and_then(message), Some(Response::Nodes(_))), "silent-after-malformed", || format!("{} was followed by {again:?}", hex(&m)));
            }
        }
    }
    clock::settle().await;
}
/// All of the wanted are there, unless the answer has no room for another record.
fn filled(ctx: &mut Ctx, len: usize, got: usize, want: usize, sig: &str) {
    if got < want.min(32) {
        ctx.event("answer filled up");
        // a record is at most 300 bytes
        ctx.check(len + 300 > ROOM, sig, || format!("{got} of {want} peers in {len} bytes"));
    }
}
