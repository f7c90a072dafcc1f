//! Content the node offers to others.
use std::time::Duration;

use ethportal_api::{
    types::{
        accept_code::AcceptCodeList,
        distance::{Distance, Metric, XorMetric},
        ping_extensions::{extension_types::PingExtensionType, extensions::type_1::BasicRadius},
        portal_wire::{FindNodes, OfferTrace, OfferTraceMultipleItems, Ping, Request, Response},
    },
    OverlayContentKey, RawContentKey, RawContentValue,
};
use portalnet::overlay::config::OverlayConfig;
use vcommon::{Ctx, Rng};

use crate::{clock, world::*};

pub fn sending(ctx: &mut Ctx) {
    ctx.rule("a peer receives exactly the offered items it accepted, in order and unchanged, and nothing if it accepted none; the reported outcome matches what the peer answered and whether the transfer succeeded; content put into the network is stored if wanted, offered only to connected peers whose radius covers it, and to as many as reported; failures use up no transfer places");
    let mut r = ctx.rng.fork("sending");
    for case in 0..ctx.n(250, 6000) {
        if ctx.saturated() {
            break;
        }
        let mut r = r.fork(&format!("case{case}"));
        fresh(&mut r);
        clock::simulate(one(ctx, &mut r));
    }
    for (k, n) in [
        ("offered", 100), ("traced", 50), ("single traced", 20), ("put", 50), ("items received", 100), ("all declined", 20), ("part accepted", 20), ("transfer failed", 20), ("silent", 20), ("garbage", 20), ("no common version", 10),
        ("outside a peer's radius", 20), ("peer not connected", 20), ("put stored", 20), ("put not stored", 10), ("accepted codes miscounted", 10), ("spread after failures", 20),
    ] {
        ctx.require(k, n);
    }
}
#[derive(Clone, PartialEq, Debug)]
enum Mood {
    Take(Vec<u8>),
    Ghost(Vec<u8>),
    Silent,
    Garbage,
    Other,
    Miscount(Vec<u8>),
}
fn list(c: &AcceptCodeList) -> Vec<u8> {
    c.iter().map(|x| u8::from(*x)).collect()
}
async fn one(ctx: &mut Ctx, r: &mut Rng) {
    let limit = *r.pick(&[1usize, 2, 50]);
    let node = Node::start(r, OverlayConfig { ping_queue_interval: Some(Duration::from_secs(86400)), utp_transfer_limit: limit, ..Default::default() }).await;
    node.store.lock().radius = if r.bool() { Distance::MAX } else { Distance::from(alloy::primitives::U256::MAX >> 1) };
    let (me, radius) = (node.id(), node.store.lock().radius);
    let mut peers = vec![];
    let mut radii = vec![];
    let mut connected = vec![];
    for _ in 0..r.usize_in(1, 5) {
        let v = if r.chance(1, 12) { Versions::List(vec![2]) } else { some_versions(r) };
        let p = Scripted::start(r, &node, v).await;
        p.behave();
        // known to the node with some radius, or not at all
        let own = Distance::from(alloy::primitives::U256::MAX >> r.below(3));
        connected.push(r.chance(5, 6));
        if *connected.last().unwrap() {
            if r.chance(1, 4) {
                p.ask(Request::FindNodes(FindNodes { distances: vec![0] })).await;
                radii.push(Distance::MAX);
            } else {
                p.ask(Request::Ping(Ping { enr_seq: 1, payload_type: PingExtensionType::BasicRadius, payload: BasicRadius { data_radius: own }.into() })).await;
                radii.push(own);
            }
        } else {
            radii.push(own);
        }
        peers.push(p);
    }
    let mut known = connected.clone();
    for step in 0..r.range(2, 8) {
        let n = r.usize_in(1, 5);
        let mut items: Vec<(Key, Vec<u8>)> = vec![];
        for _ in 0..n {
            let near = r.chance(3, 4);
            let k = Key::random(r, near);
            let len = *r.pick(&[0usize, 40, 500, 9000]);
            items.push((k.clone(), value(r, &k, Worth::Canonical, len)));
        }
        let i = r.index(peers.len());
        let what = r.below(4);
        let n = if what >= 2 { 1 } else { n };
        items.truncate(n);
        let raw: Vec<(RawContentKey, RawContentValue)> = items.iter().map(|(k, v)| (k.raw(), RawContentValue::from(v.clone()))).collect();
        let mut moods = vec![];
        for p in &peers {
            let c: Vec<u8> = (0..n).map(|_| if r.bool() { 0 } else { *r.pick(&[1u8, 2, 3, 4, 5]) }).collect();
            let mood = match r.below(9) {
                0..=4 => Mood::Take(c),
                5 => Mood::Ghost(c),
                6 => Mood::Silent,
                7 => {
                    let odd: Vec<u8> = (0..if r.bool() { n - 1 } else { n + 1 }).map(|_| *r.pick(&[0u8, 1])).collect();
                    if r.chance(1, 3) || what == 3 { Mood::Garbage } else { Mood::Miscount(odd) }
                }
                _ => Mood::Other,
            };
            let v = p.version.unwrap_or(0);
            let m = mood.clone();
            let mut r = r.fork("brain");
            p.think(move |q| {
                if !matches!(q, Request::Offer(_)) {
                    return polite(Distance::MAX, v, q);
                }
                match &m {
                    Mood::Take(c) | Mood::Miscount(c) => {
                        if c.contains(&0) {
                            Act::Accept(codes(v, c))
                        } else {
                            Act::Reply(Response::Accept(ethportal_api::types::portal_wire::Accept { connection_id: 0, content_keys: codes(v, c).into() }))
                        }
                    }
                    Mood::Ghost(c) => Act::AcceptGhost(codes(v, c)),
                    Mood::Silent => Act::Silent,
                    Mood::Garbage => Act::Raw(r.bytes(5).into_iter().map(|b| b | 0x80).collect()),
                    Mood::Other => Act::Reply(Response::Nodes(ethportal_api::types::portal_wire::Nodes { total: 1, enrs: vec![] })),
                }
            });
            p.log.lock().clear();
            p.got.lock().clear();
            moods.push(mood);
        }
        let seen = |c: &[u8], v: u8| -> Vec<u8> { if v >= 1 { c.to_vec() } else { c.iter().map(|x| (*x).min(1)).collect() } };
        let (o, enr, version) = (node.overlay.clone(), peers[i].enr.clone(), peers[i].version);
        let mood = moods[i].clone();
        ctx.eval("step", &(what, format!("{mood:?}"), version, limit));
        let describe = || j!({"step": step, "what": what, "mood": format!("{mood:?}"), "version": version, "items": n, "limit": limit});
        match mood {
            Mood::Silent => ctx.event("silent"),
            Mood::Garbage | Mood::Other => ctx.event("garbage"),
            Mood::Miscount(_) => ctx.event("accepted codes miscounted"),
            _ => {}
        }
        if what < 3 && version.is_none() {
            ctx.event("no common version");
        }
        // what the peer said, if it could be understood
        let said = match (&mood, version) {
            (_, None) => None,
            (Mood::Take(c) | Mood::Ghost(c) | Mood::Miscount(c), Some(v)) => Some(seen(c, v)),
            _ => None,
        };
        match what {
            0 => {
                ctx.event("offered");
                let out = clock::within(Duration::from_secs(30), async move { o.send_offer(enr, raw).await }).await;
                let Some(out) = out else {
                    ctx.violation("offer-never-ended", describe());
                    return;
                };
                ctx.check(out.as_ref().ok().map(list) == said, "wrong-outcome", || format!("{out:?} {}", describe()));
                if version.is_none() {
                    ctx.check(peers[i].asked() == 0, "offered-without-common-version", describe);
                }
                clock::pass(Duration::from_secs(3)).await;
            }
            1 | 2 => {
                let single = what == 2;
                ctx.event(if single { "single traced" } else { "traced" });
                let out = clock::within(Duration::from_secs(60), async move {
                    if single {
                        let (k, v) = raw.into_iter().next().unwrap();
                        o.send_offer_trace(enr, k, v).await.map(|x| match x {
                            OfferTrace::Success(c) => Some(vec![u8::from(c)]),
                            OfferTrace::Failed => None,
                        })
                    } else {
                        o.send_offer_trace_with_multiple_items(enr, raw).await.map(|x| match x {
                            OfferTraceMultipleItems::Success(c) => Some(list(&c)),
                            OfferTraceMultipleItems::Failed => None,
                        })
                    }
                })
                .await;
                let Some(out) = out else {
                    ctx.violation("offer-never-ended", describe());
                    return;
                };
                let want = said.clone().map(|c| match &mood {
                    Mood::Ghost(_) if c.contains(&0) => {
                        ctx.event("transfer failed");
                        None
                    }
                    _ => Some(c),
                });
                let fine = match (&want, &out) {
                    (None, Err(_)) => true,
                    // a list of the wrong length cannot be the outcome for one item
                    (Some(Some(c)), Err(_)) if single => c.len() != 1,
                    (Some(w), Ok(g)) => g == w,
                    _ => false,
                };
                ctx.check(fine, "wrong-outcome", || format!("{out:?} {}", describe()));
                clock::pass(Duration::from_secs(1)).await;
            }
            _ => {
                ctx.event("put");
                let (k, v) = items[0].clone();
                let wanted = !k.affected_by_radius() || XorMetric::distance(&me, &k.id()) <= radius;
                let info = node.overlay.propagate_put_content(k.clone(), RawContentValue::from(v.clone()));
                ctx.event(if wanted { "put stored" } else { "put not stored" });
                ctx.check(info.stored_locally == wanted && node.store.lock().items.get(&k) == wanted.then_some(&v), "put-stored-wrongly", describe);
                clock::pass(Duration::from_secs(16)).await;
                let mut offered = 0;
                let mut interested = 0;
                for (j, p) in peers.iter().enumerate() {
                    let got = p.log.lock().iter().filter(|(_, q)| matches!(q, Request::Offer(o) if o.content_keys.contains(&k.raw()))).count();
                    offered += (got > 0) as u32;
                    ctx.check(got <= 1, "put-offered-repeatedly", describe);
                    let inside = !k.affected_by_radius() || XorMetric::distance(&p.id(), &k.id()) <= radii[j];
                    if connected[j] && inside {
                        interested += 1;
                    } else {
                        ctx.event(if connected[j] { "outside a peer's radius" } else { "peer not connected" });
                        ctx.check(got == 0, "put-offered-to-uninterested-peer", || j!({"connected": connected[j], "inside": inside, "step": step}));
                    }
                }
                ctx.check(offered == info.peer_count && (offered > 0) == (interested > 0), "put-count-wrong", || j!({"offered": offered, "reported": info.peer_count, "interested": interested, "step": step}));
                if interested > 0 && step > 0 {
                    ctx.event("spread after failures");
                }
            }
        }
        // what arrived
        for (j, p) in peers.iter().enumerate() {
            let was_offered = p.log.lock().iter().any(|(_, q)| matches!(q, Request::Offer(_)));
            let got = p.got.lock().clone();
            let want: Vec<Vec<u8>> = match (&moods[j], p.version) {
                (Mood::Take(c) | Mood::Miscount(c), Some(_)) if was_offered => c.iter().zip(&items).filter(|(c, _)| **c == 0).map(|(_, (_, v))| v.clone()).collect(),
                _ => vec![],
            };
            let expects = was_offered && p.version.is_some() && matches!(&moods[j], Mood::Take(c) if c.contains(&0));
            if expects {
                ctx.event("items received");
                if want.len() < n {
                    ctx.event("part accepted");
                }
            } else if was_offered && matches!(&moods[j], Mood::Take(_)) && p.version.is_some() {
                ctx.event("all declined");
            }
            let fine = match (&moods[j], expects) {
                (Mood::Miscount(_), _) => got.len() <= 1 && got.iter().all(|b| unframe(b).is_some_and(|x| x == want)),
                (_, true) => got.len() == 1 && unframe(&got[0]).as_ref() == Some(&want),
                (_, false) => got.is_empty(),
            };
            ctx.check(fine, "wrong-items-received", || j!({"peer": j, "mood": format!("{:?}", moods[j]), "version": p.version, "transfers": got.len(), "what": what, "offered": was_offered, "unframed": got.first().and_then(|b| unframe(b)).map(|x| x.len()), "want": want.len()}));
            // no answer, or none that makes sense, disconnects; any other answer connects
            if was_offered {
                let is = !matches!(moods[j], Mood::Silent | Mood::Garbage);
                // the last radius heard of stays
                if is && !known[j] {
                    radii[j] = Distance::MAX;
                    known[j] = true;
                }
                connected[j] = is;
            }
        }
    }
}
