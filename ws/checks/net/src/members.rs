//! Records of other nodes, and which of them are there.
use std::{
    collections::{BTreeMap, BTreeSet},
    sync::Arc,
    time::Duration,
};

use discv5::enr::NodeId;
use ethportal_api::{
    types::{
        distance::{Distance, Metric, XorMetric},
        enr::{Enr, SszEnr},
        ping_extensions::{
            extension_types::PingExtensionType,
            extensions::{type_0::ClientInfoRadiusCapabilities, type_1::BasicRadius},
        },
        portal_wire::{Content, FindContent, FindNodes, Nodes, Ping, Pong, Request, Response},
    },
    OverlayContentKey, RawContentValue,
};
use parking_lot::Mutex;
use portalnet::overlay::config::OverlayConfig;
use vcommon::{Ctx, Rng};

use crate::{
    clock,
    peers::{log2, xor, Peer},
    world::*,
};

pub fn records(ctx: &mut Ctx) {
    ctx.rule("a record returned for a node is that node's, not older than the one known, and the newest the node itself hands out; nodes known to a responsive peer are found, unknown ones are not; a node lookup returns distinct nodes that answered, closest first; a single peer's answer is returned as given");
    let mut r = ctx.rng.fork("records");
    for case in 0..ctx.n(400, 10000) {
        if ctx.saturated() {
            break;
        }
        let mut r = r.fork(&format!("case{case}"));
        fresh(&mut r);
        clock::simulate(find(ctx, &mut r));
    }
    for (k, n) in [
        ("own record", 10), ("known node", 50), ("newer record from the node", 30), ("found through a peer", 20), ("unknown", 20), ("foreign record offered", 30), ("node lookup", 50), ("asked directly", 50), ("bad distances", 20), ("added and removed", 50), ("silent target", 10),
    ] {
        ctx.require(k, n);
    }
}
async fn find(ctx: &mut Ctx, r: &mut Rng) {
    let node = Node::start(r, OverlayConfig { ping_queue_interval: Some(Duration::from_secs(86400)), ..Default::default() }).await;
    let me = node.id();
    let n = r.usize_in(1, 8);
    let mut peers: Vec<Scripted> = vec![];
    let mut newest: Vec<Enr> = vec![];
    for _ in 0..n {
        let p = Scripted::start(r, &node, Versions::List(vec![0, 1])).await;
        let seq = r.range(1, 5);
        newest.push(if seq > 1 { versioned(&p.peer, seq, &Versions::List(vec![0, 1])) } else { p.enr.clone() });
        peers.push(p);
    }
    // strangers with high numbers, nobody answers for them
    let strangers: Vec<Enr> = (0..3).map(|_| versioned(&Peer::random(r), r.range(5, 90), &Versions::Absent)).collect();
    let silent: Vec<bool> = (0..n).map(|_| r.chance(1, 8)).collect();
    let hostile: Vec<bool> = (0..n).map(|_| r.chance(1, 3)).collect();
    let knows: Vec<BTreeSet<usize>> = (0..n).map(|i| (0..n).filter(|j| *j != i && r.chance(1, 3)).collect()).collect();
    let handed: Arc<Mutex<Vec<(usize, Vec<Enr>)>>> = Default::default();
    for (i, p) in peers.iter().enumerate() {
        let (id, v, k, new, strangers, silent, hostile, handed) = (p.id(), p.version.unwrap_or(0), knows[i].clone(), newest.clone(), strangers.clone(), silent[i], hostile[i], handed.clone());
        let mut r = r.fork(&format!("peer{i}"));
        p.think(move |q| {
            if silent {
                return Act::Silent;
            }
            let Request::FindNodes(f) = q else { return polite(Distance::MAX, v, q) };
            let mut out: Vec<Enr> = vec![];
            if f.distances.contains(&0) {
                out.push(new[i].clone());
            }
            for j in &k {
                let d = log2(&id, &new[*j].node_id().raw());
                if f.distances.contains(&d) {
                    out.push(new[*j].clone());
                }
            }
            if hostile {
                out.push(r.pick(&strangers).clone());
                r.shuffle(&mut out);
            }
            handed.lock().push((i, out.clone()));
            Act::Reply(Response::Nodes(Nodes { total: 1, enrs: out.into_iter().map(SszEnr::new).collect() }))
        });
    }
    let mut connected: BTreeSet<usize> = BTreeSet::new();
    for (i, p) in peers.iter().enumerate() {
        if r.bool() {
            p.ask(Request::FindNodes(FindNodes { distances: vec![0] })).await;
            connected.insert(i);
        }
    }
    clock::pass(Duration::from_secs(1)).await;
    for _ in 0..r.range(2, 6) {
        for p in &peers {
            p.log.lock().clear();
        }
        handed.lock().clear();
        match r.below(6) {
            0 | 1 | 2 => {
                let (target, which) = match r.below(8) {
                    0 => (NodeId::new(&me), None),
                    1 => (NodeId::new(&r.array()), None),
                    2 => (r.pick(&strangers).node_id(), None),
                    _ => {
                        let i = r.index(n);
                        (peers[i].enr.node_id(), Some(i))
                    }
                };
                let before = node.overlay.get_enr(target).ok();
                let o = node.overlay.clone();
                let out = clock::within(Duration::from_secs(90), async move { o.lookup_enr(target).await }).await;
                let Some(out) = out else {
                    ctx.violation("record-lookup-never-ended", String::new());
                    return;
                };
                let out = out.ok();
                let given: Vec<Enr> = handed.lock().iter().flat_map(|(_, l)| l.clone()).collect();
                let foreign = given.iter().any(|e| e.node_id() != target);
                if foreign {
                    ctx.event("foreign record offered");
                }
                let detail = || j!({"target is peer": which, "connected": connected, "knows": knows, "hostile": hostile, "silent": silent, "known before": before.as_ref().map(|e| e.seq()), "got": out.as_ref().map(|e| e.seq()), "got own id": out.as_ref().map(|e| e.node_id() == target)});
                ctx.eval("record", &(which, &connected, &hostile, before.is_some()));
                if target.raw() == me {
                    ctx.event("own record");
                    ctx.check(out == Some(node.enr()), "own-record", detail);
                    continue;
                }
                if let Some(e) = &out {
                    if !ctx.check(e.node_id() == target, "record-of-another-node", detail) {
                        continue;
                    }
                    ctx.check(before.as_ref().is_none_or(|b| b.seq() <= e.seq()), "older-record-returned", detail);
                }
                match (which, &before) {
                    (Some(i), Some(b)) if !silent[i] => {
                        ctx.event("known node");
                        if newest[i].seq() > b.seq() {
                            ctx.event("newer record from the node");
                        }
                        ctx.check(out.as_ref() == Some(&newest[i]), "newest-record-not-returned", detail);
                    }
                    (Some(i), Some(_)) => {
                        ctx.event("silent target");
                        let _ = i;
                        ctx.check(out.is_some(), "known-record-lost", detail);
                    }
                    (Some(i), None) => {
                        let table: BTreeSet<NodeId> = node.overlay.table_entries_enr().iter().map(|e| e.node_id()).collect();
                        let sure = (0..n).any(|j| !silent[j] && connected.contains(&j) && table.contains(&peers[j].enr.node_id()) && knows[j].contains(&i)) && !silent[i];
                        if sure {
                            ctx.event("found through a peer");
                            ctx.check(out.is_some(), "node-known-to-peer-not-found", detail);
                        }
                    }
                    (None, _) => {
                        ctx.event("unknown");
                        if !given.iter().any(|e| e.node_id() == target) && before.is_none() {
                            ctx.check(out.is_none(), "record-from-nowhere", detail);
                        }
                    }
                }
            }
            3 => {
                let target = if r.bool() { NodeId::new(&r.array()) } else { peers[r.index(n)].enr.node_id() };
                let o = node.overlay.clone();
                let Some(out) = clock::within(Duration::from_secs(90), async move { o.lookup_node(target).await }).await else {
                    ctx.violation("node-lookup-never-ended", String::new());
                    return;
                };
                ctx.event("node lookup");
                ctx.eval("lookup", &(n, out.len(), &connected));
                let ids: Vec<[u8; 32]> = out.iter().map(|e| e.node_id().raw()).collect();
                let distinct: BTreeSet<&[u8; 32]> = ids.iter().collect();
                ctx.check(distinct.len() == ids.len() && !distinct.contains(&me), "lookup-repeats-nodes", || format!("{} of {}", distinct.len(), ids.len()));
                if ids != [target.raw()] {
                    let sorted = ids.windows(2).all(|w| xor(&w[0], &target.raw()) < xor(&w[1], &target.raw()));
                    ctx.check(sorted, "lookup-not-closest-first", || format!("{}", ids.len()));
                    let answered: BTreeSet<[u8; 32]> = handed.lock().iter().map(|(i, _)| peers[*i].id()).collect();
                    ctx.check(ids.iter().all(|i| answered.contains(i)), "lookup-returns-silent-node", || format!("{} results, {} answered", ids.len(), answered.len()));
                    ctx.check(answered.len() > 16 || answered.iter().all(|i| ids.contains(i)), "lookup-forgets-node", || format!("{} results, {} answered", ids.len(), answered.len()));
                }
            }
            4 => {
                let i = r.index(n);
                let d: Vec<u16> = match r.below(5) {
                    0 => vec![],
                    1 => vec![257],
                    2 => vec![5, 5],
                    _ => {
                        let mut all: Vec<u16> = (0..=256).collect();
                        r.shuffle(&mut all);
                        all.truncate(r.usize_in(1, 256));
                        all
                    }
                };
                let bad = d.is_empty() || d.contains(&257) || d == [5, 5];
                let (o, enr, d2) = (node.overlay.clone(), peers[i].enr.clone(), d.clone());
                let out = clock::within(Duration::from_secs(30), async move { o.send_find_nodes(enr, d2).await }).await;
                ctx.event(if bad { "bad distances" } else { "asked directly" });
                ctx.eval("direct", &(bad, d.len(), silent[i]));
                let fine = match &out {
                    None => false,
                    Some(Err(_)) => (bad && peers[i].asked() == 0) || (!bad && silent[i]),
                    Some(Ok(x)) => !bad && !silent[i] && handed.lock().last().is_some_and(|(j, l)| *j == i && l.len() == x.enrs.len() && l.iter().zip(&x.enrs).all(|(a, b)| a.to_base64() == b.to_base64())),
                };
                ctx.check(fine, "direct-answer-wrong", || j!({"bad": bad, "count": d.len(), "silent": silent[i], "answered": out.as_ref().map(|x| x.is_ok())}));
            }
            _ => {
                let enr = versioned(&Peer::random(r), r.range(1, 9), &Versions::Absent);
                let id = enr.node_id();
                ctx.event("added and removed");
                ctx.eval("table", &id.raw());
                let o = &node.overlay;
                let before = o.get_enr(id).is_err() && !o.delete_enr(id);
                let added = o.add_enr(enr.clone()).is_ok();
                let there = o.get_enr(id).ok() == Some(enr.clone()) && o.table_entries_enr().contains(&enr) && o.routing_table_info().buckets.buckets.iter().any(|b| format!("{b:?}").contains(&format!("{id:?}")));
                let gone = o.delete_enr(id) && o.get_enr(id).is_err() && !o.table_entries_enr().contains(&enr);
                ctx.check(before && added && there && gone, "table-edit", || j!({"absent before": before, "added": added, "there": there, "gone": gone}));
                ctx.check(o.add_enr(node.enr()).is_err() && o.get_enr(node.enr().node_id()).ok() == Some(node.enr()), "own-record-in-table", || String::new());
            }
        }
    }
}

pub fn liveness(ctx: &mut Ctx) {
    ctx.rule("every connected peer is asked for signs of life once per interval; one that stops answering is soon neither named nor offered content, one heard from again is, and is watched again; a radius or a newer record it announces replaces the old one");
    let mut r = ctx.rng.fork("liveness");
    for case in 0..ctx.n(60, 1500) {
        if ctx.saturated() {
            break;
        }
        let mut r = r.fork(&format!("case{case}"));
        fresh(&mut r);
        clock::simulate(watch(ctx, &mut r));
    }
    for (k, n) in [("asked for signs of life", 100), ("fell silent", 50), ("gone", 50), ("back after silence", 20), ("gone again", 10), ("radius changed", 50), ("outside the new radius", 20), ("inside the new radius", 20), ("record changed", 30), ("record replaced", 20), ("named", 100)] {
        ctx.require(k, n);
    }
}
struct Life {
    alive: bool,
    seq: u64,
    radius: Distance,
    /// answers with the longer kind of message
    long: bool,
}
async fn watch(ctx: &mut Ctx, r: &mut Rng) {
    let every = Duration::from_secs(*r.pick(&[10u64, 30]));
    let node = Node::start(r, OverlayConfig { ping_queue_interval: Some(every), ..Default::default() }).await;
    let watcher = Scripted::start(r, &node, Versions::List(vec![0, 1])).await;
    watcher.behave();
    watcher.ask(Request::FindNodes(FindNodes { distances: vec![0] })).await;
    let n = r.usize_in(1, 5);
    let mut peers = vec![];
    let mut lives = vec![];
    for _ in 0..n {
        let p = Scripted::start(r, &node, Versions::List(vec![0, 1])).await;
        let life = Arc::new(Mutex::new(Life { alive: true, seq: 1, radius: Distance::MAX, long: r.bool() }));
        let (l, v) = (life.clone(), p.version.unwrap_or(0));
        let secret = p.peer.secret;
        let ip = p.peer.ip;
        let records: BTreeMap<u64, Enr> = (1..20).map(|s| (s, versioned(&Peer { secret, key: discv5::enr::CombinedKey::secp256k1_from_bytes(&mut secret.clone()).expect("key"), enr: p.enr.clone(), ip }, s, &Versions::List(vec![0, 1])))).collect();
        p.think(move |q| {
            let l = l.lock();
            if !l.alive {
                return Act::Silent;
            }
            match q {
                Request::Ping(_) => {
                    let (payload_type, payload) = if l.long {
                        (PingExtensionType::Capabilities, ClientInfoRadiusCapabilities::new(l.radius, vec![PingExtensionType::Capabilities, PingExtensionType::BasicRadius]).into())
                    } else {
                        (PingExtensionType::BasicRadius, BasicRadius { data_radius: l.radius }.into())
                    };
                    Act::Reply(Response::Pong(Pong { enr_seq: l.seq, payload_type, payload }))
                }
                Request::FindNodes(f) if f.distances.contains(&0) => Act::Reply(Response::Nodes(Nodes { total: 1, enrs: vec![SszEnr::new(records[&l.seq].clone())] })),
                q => polite(Distance::MAX, v, q),
            }
        });
        peers.push(p);
        lives.push(life);
    }
    let say = |i: usize| {
        let l = lives[i].lock();
        Request::Ping(Ping { enr_seq: l.seq, payload_type: PingExtensionType::BasicRadius, payload: BasicRadius { data_radius: l.radius }.into() })
    };
    for (i, p) in peers.iter().enumerate() {
        p.ask(say(i)).await;
    }
    let slack = Duration::from_secs(5);
    let mut gone_before = vec![false; n];
    for _ in 0..r.range(3, 7) {
        // something changes
        let mut back = BTreeSet::new();
        for i in 0..n {
            let was = lives[i].lock().alive;
            match r.below(5) {
                0 if was => {
                    lives[i].lock().alive = false;
                    ctx.event("fell silent");
                }
                1 | 2 if !was => {
                    lives[i].lock().alive = true;
                    back.insert(i);
                }
                1 => {
                    lives[i].lock().radius = Distance::from(alloy::primitives::U256::MAX >> r.below(4));
                    ctx.event("radius changed");
                }
                2 => {
                    lives[i].lock().seq += 1;
                    ctx.event("record changed");
                }
                _ => {}
            }
        }
        for i in &back {
            // heard from again; some request, not always one saying much
            if r.bool() {
                peers[*i].ask(say(*i)).await;
            } else {
                peers[*i].ask(Request::FindNodes(FindNodes { distances: vec![0] })).await;
            }
            ctx.event("back after silence");
        }
        for p in &peers {
            p.log.lock().clear();
        }
        let start = clock::now();
        clock::pass(every + slack).await;
        // everybody still there was asked, not too often
        for i in 0..n {
            let l = lives[i].lock();
            let pings: Vec<Duration> = peers[i].log.lock().iter().filter(|(_, q)| matches!(q, Request::Ping(_))).map(|(t, _)| *t - start).collect();
            ctx.eval("interval", &(every, l.alive, back.contains(&i), pings.len(), gone_before[i], l.seq, l.radius.to_string(), n));
            if l.alive {
                ctx.event("asked for signs of life");
                ctx.check(!pings.is_empty() && pings.len() <= 3, "peer-not-watched", || j!({"every": format!("{every:?}"), "times": format!("{pings:?}"), "back after silence": back.contains(&i), "was gone": gone_before[i]}));
            }
        }
        clock::pass(slack).await;
        // what the node tells others
        let key = Key::random(r, true);
        let answer = watcher.ask(Request::FindContent(FindContent { content_key: key.raw() })).await;
        let Some(Response::Content(Content::Enrs(named))) = answer.as_deref().and_then(message) else {
            ctx.violation("no-answer", format!("{answer:?}"));
            return;
        };
        for p in &peers {
            p.log.lock().clear();
        }
        let k2 = Key::random(r, true);
        let info = node.overlay.propagate_put_content(k2.clone(), RawContentValue::from(vec![1, 2, 3]));
        clock::pass(Duration::from_millis(500)).await;
        let _ = info;
        let mut lost = vec![];
        for i in 0..n {
            let l = lives[i].lock();
            let is_named = named.iter().any(|e| e.node_id() == peers[i].enr.node_id());
            let offered = peers[i].log.lock().iter().any(|(_, q)| matches!(q, Request::Offer(_)));
            let inside = XorMetric::distance(&peers[i].id(), &k2.id()) <= l.radius;
            let detail = || j!({"peer": i, "alive": l.alive, "named": is_named, "offered": offered, "inside": inside, "back": back.contains(&i), "every": format!("{every:?}"), "gone before": gone_before[i]});
            if l.alive {
                ctx.event("named");
                ctx.check(is_named, "living-peer-not-named", detail);
                ctx.event(if inside { "inside the new radius" } else { "outside the new radius" });
                ctx.check(inside || !offered, "offered-outside-announced-radius", detail);
                let known = node.overlay.get_enr(peers[i].enr.node_id()).ok().map(|e| e.seq());
                if l.seq > 1 {
                    ctx.event("record replaced");
                }
                ctx.check(known == Some(l.seq), "record-not-replaced", || format!("{known:?} instead of {}", l.seq));
            } else {
                ctx.event(if gone_before[i] { "gone again" } else { "gone" });
                ctx.check(!is_named && !offered, "silent-peer-still-trusted", detail);
                lost.push(i);
            }
        }
        let interested = (0..n).any(|i| lives[i].lock().alive && XorMetric::distance(&peers[i].id(), &k2.id()) <= lives[i].lock().radius);
        let some = peers.iter().any(|p| p.log.lock().iter().any(|(_, q)| matches!(q, Request::Offer(_)))) || watcher.log.lock().iter().any(|(_, q)| matches!(q, Request::Offer(o) if o.content_keys.contains(&k2.raw())));
        ctx.check(!interested || some, "nobody-offered", || String::new());
        for i in lost {
            gone_before[i] = true;
        }
    }
}
