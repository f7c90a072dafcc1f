//! Content offered to a running node, and the transfers that follow.
use std::{
    collections::{BTreeMap, BTreeSet},
    sync::Arc,
    time::Duration,
};

use ethportal_api::{
    types::{
        distance::{Distance, Metric, XorMetric},
        portal_wire::{Content, Offer, Request, Response},
    },
    OverlayContentKey,
};
use parking_lot::Mutex;
use portalnet::overlay::config::OverlayConfig;
use vcommon::{hex, Ctx, Rng};

use crate::{clock, world::*};

pub fn incoming(ctx: &mut Ctx) {
    ctx.rule("an offered item is accepted exactly if it is wanted, not stored, not being received and there is room for a transfer; only canonical content is stored and spread, unchanged; when a transfer fails another peer that offered the item is asked once; afterwards every item not stored is accepted again and no transfer place is lost");
    let mut r = ctx.rng.fork("incoming");
    for case in 0..ctx.n(150, 4000) {
        if ctx.saturated() {
            break;
        }
        let mut r = r.fork(&format!("case{case}"));
        fresh(&mut r);
        clock::simulate(one(ctx, &mut r));
    }
    for (k, n) in [
        ("accepted", 200), ("already stored", 50), ("outside the radius", 50), ("being received", 50), ("no room", 20), ("no common version", 5), ("offered twice at once", 5),
        ("complete transfer", 50), ("bad items", 30), ("cut frame", 20), ("wrong number of items", 20), ("no connection", 20), ("stalled", 20), ("asked an alternative", 20),
        ("stored from an alternative", 5), ("stored", 100), ("spread", 50), ("dropped spread", 5), ("dropped kept", 5), ("accepted after a failure", 20), ("accepted after a failure, without distance", 10),
    ] {
        ctx.require(k, n);
    }
}
#[derive(Clone, Copy, PartialEq, Debug)]
enum End {
    Complete,
    SomeBad,
    Cut,
    Count,
    NoConnection,
    Stalled,
}
/// What a peer answers when asked for content it offered.
#[derive(Clone, Copy, PartialEq, Debug)]
enum Gives {
    Inline(Worth),
    Stream(Worth),
    Ghost,
    Peers,
    Silence,
}
struct Running {
    who: usize,
    cid: u16,
    keys: Vec<Key>,
    end: End,
}
async fn one(ctx: &mut Ctx, r: &mut Rng) {
    let limit = *r.pick(&[1usize, 2, 50]);
    let gossip_dropped = r.bool();
    let node = Node::start(r, OverlayConfig { ping_queue_interval: Some(Duration::from_secs(86400)), utp_transfer_limit: limit, gossip_dropped, ..Default::default() }).await;
    node.store.lock().radius = if r.bool() { Distance::MAX } else { Distance::from(alloy::primitives::U256::MAX >> 1) };
    *node.judge.delay.lock() = Duration::from_millis(*r.pick(&[0u64, 0, 300, 2000]));
    let me = node.id();
    let radius = node.store.lock().radius;
    let n = r.usize_in(2, 6);
    let mut peers: Vec<Scripted> = vec![];
    for i in 0..n {
        let v = if i > 1 && r.chance(1, 12) { Versions::List(vec![2]) } else { some_versions(r) };
        peers.push(Scripted::start(r, &node, v).await);
    }
    let pool: Vec<Key> = (0..r.range(2, 8))
        .map(|_| {
            let near = r.chance(3, 4);
            Key::random(r, near)
        })
        .collect();
    let wanted = |k: &Key| !k.affected_by_radius() || XorMetric::distance(&me, &k.id()) <= radius;
    let mut stored: BTreeMap<Key, Vec<u8>> = BTreeMap::new();
    let mut failed: BTreeSet<Key> = BTreeSet::new();
    for round in 0..r.range(1, 4) {
        // what everybody has
        let gives: Vec<Gives> = peers
            .iter()
            .map(|_| match r.below(6) {
                0 => Gives::Inline(Worth::Canonical),
                1 => Gives::Stream(Worth::Canonical),
                2 => Gives::Inline(*r.pick(&[Worth::Bad, Worth::Matching])),
                3 => Gives::Stream(*r.pick(&[Worth::Bad, Worth::Matching])),
                4 => *r.pick(&[Gives::Peers, Gives::Silence]),
                _ => Gives::Ghost,
            })
            .collect();
        let handed: Arc<Mutex<Vec<(usize, Key, Option<Vec<u8>>)>>> = Default::default();
        for (i, p) in peers.iter().enumerate() {
            let (g, v, h) = (gives[i], p.version.unwrap_or(0), handed.clone());
            let mut r = r.fork(&format!("peer{round}-{i}"));
            p.think(move |q| {
                let Request::FindContent(f) = q else { return polite(Distance::MAX, v, q) };
                let Ok(k) = Key::try_from_bytes(&f.content_key) else { return Act::Silent };
                let (act, val) = match g {
                    Gives::Inline(w) => {
                        let x = value(&mut r, &k, w, 200);
                        (Act::Reply(Response::Content(Content::Content(x.clone().into()))), Some(x))
                    }
                    Gives::Stream(w) => {
                        let x = value(&mut r, &k, w, 3000);
                        (Act::Serve(if v >= 1 { frame(&[x.clone()]) } else { x.clone() }), Some(x))
                    }
                    Gives::Ghost => (Act::Ghost(r.u32() as u16), None),
                    Gives::Peers => (Act::Reply(Response::Content(Content::Enrs(vec![]))), None),
                    Gives::Silence => (Act::Silent, None),
                };
                h.lock().push((i, k, val));
                act
            });
            p.log.lock().clear();
        }
        // offers, possibly of the same items by several peers
        let mut busy: BTreeMap<Key, (usize, BTreeSet<usize>)> = BTreeMap::new();
        let mut running: Vec<Running> = vec![];
        let mut accepted_again = false;
        for _ in 0..r.range(1, 6) {
            let w = r.index(peers.len());
            let who = &peers[w];
            let mut keys: Vec<Key> = pool.iter().filter(|_| r.chance(1, 2)).cloned().collect();
            if keys.is_empty() {
                keys.push(r.pick(&pool).clone());
            }
            r.shuffle(&mut keys);
            if r.chance(1, 10) {
                keys.push(keys[0].clone());
                ctx.event("offered twice at once");
            }
            let ans = who.ask(Request::Offer(Offer { content_keys: keys.iter().map(|k| k.raw()).collect() })).await;
            let Some(version) = who.version else {
                ctx.event("no common version");
                ctx.check(ans == Some(vec![]), "accepted-without-common-version", || format!("{ans:?}"));
                continue;
            };
            let Some(Response::Accept(a)) = ans.as_deref().and_then(message) else {
                ctx.violation("offer-not-answered", format!("{} keys got {:?}", keys.len(), ans.map(|x| hex(&x))));
                continue;
            };
            let got = uncode(version, &a.content_keys);
            let room = running.len() < limit;
            let mut want = vec![];
            let mut mine = vec![];
            for k in &keys {
                want.push(if !room {
                    4
                } else if stored.contains_key(k) {
                    2
                } else if !wanted(k) {
                    3
                } else if let Some((origin, others)) = busy.get_mut(k) {
                    if *origin != w {
                        others.insert(w);
                    }
                    5
                } else {
                    busy.insert(k.clone(), (w, BTreeSet::new()));
                    mine.push(k.clone());
                    if failed.remove(k) {
                        accepted_again = true;
                        ctx.event(if k.affected_by_radius() { "accepted after a failure" } else { "accepted after a failure, without distance" });
                    }
                    0u8
                });
            }
            for c in &want {
                ctx.event(match c {
                    0 => "accepted",
                    2 => "already stored",
                    3 => "outside the radius",
                    4 => "no room",
                    _ => "being received",
                });
            }
            if version == 0 {
                want.iter_mut().for_each(|c| *c = (*c).min(1));
            }
            ctx.eval("offer", &(&want, version, limit, running.len()));
            if !ctx.check(got.as_ref() == Some(&want), "wrong-accept-codes", || j!({"want": want, "got": got, "version": version, "round": round, "running": running.len(), "limit": limit, "distance matters": keys.iter().map(|k| k.affected_by_radius()).collect::<Vec<_>>(), "offered again after a failure": accepted_again})) {
                return;
            }
            let cid = u16::from_be(a.connection_id);
            if mine.is_empty() {
                ctx.check(cid == 0, "transfer-announced-for-nothing", || format!("{cid}"));
                continue;
            }
            let end = *r.pick(&[End::Complete, End::Complete, End::Complete, End::SomeBad, End::Cut, End::Count, End::NoConnection, End::Stalled]);
            running.push(Running { who: w, cid, keys: mine, end });
        }
        // the transfers
        let mut order: Vec<usize> = (0..running.len()).collect();
        r.shuffle(&mut order);
        let mut canonical: BTreeMap<Key, Vec<u8>> = BTreeMap::new();
        let drop_key = Key::random(r, true);
        if r.chance(1, 3) {
            let v = value(r, &drop_key, Worth::Canonical, 60);
            node.store.lock().to_drop = vec![(drop_key.clone(), v)];
        } else {
            node.store.lock().to_drop.clear();
        }
        let puts_before = node.store.lock().puts.len();
        for i in order {
            let t = &running[i];
            let mut items: Vec<Vec<u8>> = vec![];
            for k in &t.keys {
                let w = if t.end == End::SomeBad && r.chance(2, 3) { *r.pick(&[Worth::Bad, Worth::Matching]) } else { Worth::Canonical };
                let len = *r.pick(&[33usize, 200, 20000]);
                items.push(value(r, k, w, len));
            }
            let data = match t.end {
                End::Cut => {
                    let f = frame(&items);
                    f[..f.len() - 1 - r.index(20)].to_vec()
                }
                End::Count => {
                    if r.bool() && items.len() > 1 {
                        frame(&items[1..])
                    } else {
                        let mut more = items.clone();
                        more.push(vec![1, 2, 3]);
                        frame(&more)
                    }
                }
                _ => frame(&items),
            };
            ctx.event(match t.end {
                End::Complete => "complete transfer",
                End::SomeBad => "bad items",
                End::Cut => "cut frame",
                End::Count => "wrong number of items",
                End::NoConnection => "no connection",
                End::Stalled => "stalled",
            });
            match t.end {
                End::NoConnection => {}
                End::Stalled => {
                    let part = data[..data.len() / 2].to_vec();
                    peers[t.who].send_stream(t.cid, part, false).await;
                }
                _ => {
                    let done = peers[t.who].send_stream(t.cid, data, true).await;
                    ctx.check(done == Some(true), "transfer-not-taken", || j!({"end": format!("{:?}", t.end), "done": done}));
                }
            }
            for (k, v) in t.keys.iter().zip(&items) {
                if matches!(t.end, End::Complete | End::SomeBad) && worth(k, v) == Worth::Canonical {
                    canonical.insert(k.clone(), v.clone());
                }
            }
        }
        clock::pass(Duration::from_secs(50)).await;
        // what happened to every item
        let handed = handed.lock().clone();
        for (k, (origin, others)) in &busy {
            let asked: Vec<&(usize, Key, Option<Vec<u8>>)> = handed.iter().filter(|h| h.1 == *k).collect();
            let now = node.store.lock().items.get(k).cloned();
            let detail = |what: &str| j!({"what": what, "key": k.to_string(), "origin": origin, "others": others, "asked": asked.iter().map(|h| h.0).collect::<Vec<_>>(), "end": running.iter().find(|t| t.keys.contains(k)).map(|t| format!("{:?}", t.end)), "gives": gives.iter().map(|g| format!("{g:?}")).collect::<Vec<_>>(), "stored": now.as_ref().map(|v| v.len())});
            if let Some(v) = canonical.get(k) {
                ctx.event("stored");
                ctx.check(now.as_ref() == Some(v), "good-content-not-stored", || detail("received"));
                ctx.check(asked.is_empty(), "asked-others-needlessly", || detail("received"));
                stored.insert(k.clone(), v.clone());
                continue;
            }
            let expect = if k.affected_by_radius() && !others.is_empty() { 1 } else { 0 };
            let right = asked.len() == expect && asked.iter().all(|h| others.contains(&h.0));
            if expect == 1 {
                ctx.event("asked an alternative");
            }
            if !ctx.check(right, "alternatives-asked-wrongly", || detail("failed")) {
                continue;
            }
            let good = asked.first().and_then(|h| h.2.clone()).filter(|v| worth(k, v) == Worth::Canonical);
            if good.is_some() {
                ctx.event("stored from an alternative");
            }
            ctx.check(now == good, "alternative-stored-wrongly", || detail("failed"));
            match good {
                Some(v) => {
                    canonical.insert(k.clone(), v.clone());
                    stored.insert(k.clone(), v);
                }
                None => {
                    failed.insert(k.clone());
                }
            }
        }
        // nothing else was stored
        {
            let s = node.store.lock();
            let puts = s.puts[puts_before..].to_vec();
            ctx.check(puts.len() == canonical.len(), "stored-more-or-twice", || j!({"puts": puts.len(), "expected": canonical.len()}));
            ctx.check(s.items == stored, "store-differs", || j!({"has": s.items.len(), "expected": stored.len()}));
        }
        // what was spread
        let mut spread: BTreeMap<Key, usize> = BTreeMap::new();
        for p in &peers {
            for (_, q) in p.log.lock().iter() {
                if let Request::Offer(o) = q {
                    for k in &o.content_keys {
                        if let Ok(k) = Key::try_from_bytes(k) {
                            *spread.entry(k).or_default() += 1;
                        }
                    }
                }
            }
        }
        let dropping = node.store.lock().to_drop.is_empty() && !canonical.is_empty();
        for k in spread.keys() {
            let fine = canonical.contains_key(k) || (gossip_dropped && *k == drop_key && dropping);
            ctx.check(fine, "spread-unproven-content", || j!({"key": k.to_string(), "dropped": *k == drop_key}));
        }
        for k in canonical.keys() {
            // a peer that did not answer is not connected, and with few transfer places not everybody is offered everything
            if limit < 50 || gives.contains(&Gives::Silence) {
                continue;
            }
            ctx.event("spread");
            ctx.check(spread.contains_key(k), "content-not-spread", || j!({"key": k.to_string(), "limit": limit, "peers": peers.len()}));
        }
        if dropping && spread.contains_key(&drop_key) {
            ctx.event("dropped spread");
        } else if dropping && !gossip_dropped {
            ctx.event("dropped kept");
        }
    }
}
