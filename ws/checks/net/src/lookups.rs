//! Looking up content among peers of every kind.
use std::{
    collections::{BTreeMap, BTreeSet},
    sync::Arc,
    time::Duration,
};

use ethportal_api::{
    types::{
        distance::{Distance, Metric, XorMetric},
        enr::{Enr, SszEnr},
        portal_wire::{Content, FindNodes, Nodes, Request, Response},
    },
    OverlayContentKey,
};
use parking_lot::Mutex;
use portalnet::overlay::{
    config::{FindContentConfig, OverlayConfig},
    errors::OverlayRequestError,
};
use vcommon::{Ctx, Rng};

use crate::{clock, peers::Peer, world::*};

pub fn contents(ctx: &mut Ctx) {
    ctx.rule("a lookup ends within its time limit, and promptly when nobody keeps it waiting; it returns a valid value some peer sent for that key, names its sender, and finds it whenever a responsive chain of peers leads to a holder; only canonical wanted content is stored; unanswered or bad replies of others change nothing");
    let mut r = ctx.rng.fork("contents");
    for case in 0..ctx.n(800, 20000) {
        if ctx.saturated() {
            break;
        }
        let mut r = r.fork(&format!("case{case}"));
        fresh(&mut r);
        clock::simulate(one(ctx, &mut r));
    }
    for (k, n) in [
        ("found", 100), ("not found", 50), ("found although others misbehave", 40), ("found by transfer", 20), ("merely valid", 10), ("already here", 10), ("nobody connected", 5), ("stored", 30),
        ("outside the radius", 5), ("traced", 50), ("prompt", 50), ("own limit", 20), ("no common version", 5), ("asked directly", 100), ("bad value refused", 20), ("nonexistent peer", 30), ("garbage answer", 30), ("late answer", 30), ("broken transfer", 20), ("silent", 30),
    ] {
        ctx.require(k, n);
    }
}
#[derive(Clone, PartialEq, Debug)]
enum Kind {
    Enrs(Vec<usize>, bool),
    Late(u64, Vec<usize>),
    Inline(Worth),
    Stream(Worth),
    Broken,
    Ghost,
    Silent,
    Garbage,
    Other,
}
use Kind::*;
type Handed = Arc<Mutex<BTreeMap<(Key, usize), (Vec<u8>, bool)>>>;
async fn one(ctx: &mut Ctx, r: &mut Rng) {
    let disable_poke = r.bool();
    let node = Node::start(r, OverlayConfig { ping_queue_interval: Some(Duration::from_secs(86400)), disable_poke, ..Default::default() }).await;
    node.store.lock().radius = if r.bool() { Distance::MAX } else { Distance::from(alloy::primitives::U256::MAX >> 1) };
    let delay = *r.pick(&[0u64, 0, 300, 1500]);
    *node.judge.delay.lock() = Duration::from_millis(delay);
    let (me, radius) = (node.id(), node.store.lock().radius);
    let n = r.usize_in(1, 12);
    let mut peers: Vec<Scripted> = vec![];
    for _ in 0..n {
        let v = if r.chance(1, 15) { Versions::List(vec![2]) } else { some_versions(r) };
        peers.push(Scripted::start(r, &node, v).await);
    }
    let absent: Vec<Enr> = (0..r.below(4)).map(|_| Peer::random(r).enr).collect();
    let mut records: Vec<Enr> = peers.iter().map(|p| p.enr.clone()).collect();
    records.extend(absent.clone());
    let calm = r.chance(1, 3);
    // who knows and has what
    let keys: Vec<Key> = (0..r.range(1, 3))
        .map(|_| {
            let near = r.chance(4, 5);
            Key::random(r, near)
        })
        .collect();
    let rich = r.bool();
    let mut kinds: BTreeMap<Key, Vec<Kind>> = BTreeMap::new();
    for k in &keys {
        let mut ghosts = 0;
        let list = (0..n)
            .map(|_| {
                let some: Vec<usize> = (0..records.len()).filter(|i| (!calm || *i < n) && r.chance(1, 3)).collect();
                match r.below(if rich { 24 } else { 18 }) {
                    0..=8 => Enrs(some, r.chance(1, 5)),
                    9 => Silent,
                    10 => Late(r.range(200, 3500), some),
                    11 => Garbage,
                    12 => Other,
                    13 => Inline(Worth::Bad),
                    14 => Stream(Worth::Bad),
                    15 => Broken,
                    16 => Ghost,
                    17 => Enrs(vec![], false),
                    18 | 19 => Inline(Worth::Canonical),
                    20 | 21 => Stream(Worth::Canonical),
                    22 => Inline(Worth::Matching),
                    _ => Stream(Worth::Matching),
                }
            })
            .map(|x| match x {
                Silent | Late(..) | Ghost | Other | Garbage if calm => Enrs(vec![], false),
                Ghost if ghosts >= 2 => Enrs(vec![], false),
                Ghost => {
                    ghosts += 1;
                    Ghost
                }
                x => x,
            })
            .collect();
        kinds.insert(k.clone(), list);
    }
    let handed: Handed = Default::default();
    for (i, p) in peers.iter().enumerate() {
        let (kinds, handed, records, v, own) = (kinds.clone(), handed.clone(), records.clone(), p.version.unwrap_or(0), node.enr());
        let mut r = r.fork(&format!("peer{i}"));
        let name = |l: &[usize], records: &[Enr]| -> Vec<SszEnr> { l.iter().map(|i| SszEnr::new(records[*i].clone())).collect() };
        p.think(move |q| {
            let Request::FindContent(f) = q else { return polite(Distance::MAX, v, q) };
            let Ok(k) = Key::try_from_bytes(&f.content_key) else { return Act::Silent };
            let Some(kind) = kinds.get(&k).map(|l| &l[i]) else { return Act::Silent };
            match kind {
                Enrs(l, with_own) => {
                    let mut l = name(l, &records);
                    if *with_own {
                        l.push(SszEnr::new(own.clone()));
                    }
                    Act::Reply(Response::Content(Content::Enrs(l)))
                }
                Late(ms, l) => Act::Late(Duration::from_millis(*ms), Response::Content(Content::Enrs(name(l, &records)))),
                Inline(w) => {
                    let len = *r.pick(&[33usize, 200, 1100]);
                    let x = value(&mut r, &k, *w, len);
                    handed.lock().insert((k, i), (x.clone(), false));
                    Act::Reply(Response::Content(Content::Content(x.into())))
                }
                Stream(w) => {
                    let len = *r.pick(&[33usize, 3000, 40000]);
                    let x = value(&mut r, &k, *w, len);
                    handed.lock().insert((k, i), (x.clone(), true));
                    Act::Serve(if v >= 1 { frame(&[x]) } else { x })
                }
                Broken => Act::Serve(match r.below(3) {
                    0 => vec![],
                    1 => vec![0xff; 10],
                    _ => {
                        let x = value(&mut r, &k, Worth::Canonical, 32);
                        let f = frame(&[x]);
                        f[..20].to_vec()
                    }
                }),
                Ghost => Act::Ghost(r.u32() as u16),
                Silent => Act::Silent,
                Garbage => {
                    let len = r.index(40);
                    Act::Raw(r.bytes(len).into_iter().map(|b| b | 0x80).collect())
                }
                Other => Act::Reply(Response::Nodes(Nodes { total: 1, enrs: vec![] })),
            }
        });
    }
    // some are connected
    let mut connected: BTreeSet<usize> = BTreeSet::new();
    if !r.chance(1, 20) {
        for (i, p) in peers.iter().enumerate() {
            if i == 0 || r.chance(1, 3) {
                p.ask(Request::FindNodes(FindNodes { distances: vec![0] })).await;
                connected.insert(i);
            }
        }
    }
    for p in &peers {
        p.log.lock().clear();
    }
    let mut here: BTreeMap<Key, Vec<u8>> = BTreeMap::new();
    if r.chance(1, 6) {
        let v = value(r, &keys[0], Worth::Canonical, 100);
        here.insert(keys[0].clone(), v.clone());
        node.store.lock().items.insert(keys[0].clone(), v);
    }
    // all at once
    let own_limit = if r.chance(1, 4) { Some(Duration::from_secs(r.range(3, 20))) } else { None };
    let start = clock::now();
    let mut tasks = vec![];
    for k in &keys {
        let (o, k2, is_trace) = (node.overlay.clone(), k.clone(), r.bool());
        tasks.push((k.clone(), is_trace, tokio::spawn(async move {
            let x = o.lookup_content(k2, FindContentConfig { is_trace, timeout: own_limit }).await;
            (x, clock::now())
        })));
    }
    for (k, is_trace, task) in tasks {
        let limit = own_limit.unwrap_or(Duration::from_secs(60));
        let out = clock::within(limit + Duration::from_secs(120), task).await;
        let list = &kinds[&k];
        let describe = || j!({"key": k.to_string(), "kinds": list.iter().map(|x| format!("{x:?}")).collect::<Vec<_>>(), "versions": peers.iter().map(|p| p.version).collect::<Vec<_>>(), "connected": connected, "delay": delay, "limit": format!("{limit:?}"), "keys": keys.len(), "absent": absent.len()});
        let Some(Ok((Ok(result), end))) = out else {
            ctx.violation("lookup-never-ended", describe());
            continue;
        };
        let took = end - start;
        ctx.eval("lookup", &format!("{list:?}{connected:?}{own_limit:?}{delay}"));
        if own_limit.is_some() {
            ctx.event("own limit");
        }
        ctx.check(took <= limit + Duration::from_millis(1500), "lookup-overran", || format!("{took:?} {}", describe()));
        // who can be reached without anybody's cooperation beyond answering in time
        let mut reach: BTreeSet<usize> = connected.clone();
        let mut todo: Vec<usize> = reach.iter().copied().collect();
        let mut waits = false;
        while let Some(i) = todo.pop() {
            let next = match &list[i] {
                Enrs(l, _) => l.clone(),
                Late(ms, l) if *ms < 1800 => l.clone(),
                _ => vec![],
            };
            waits |= matches!(list[i], Silent | Late(..) | Ghost | Garbage | Other);
            waits |= matches!(list[i], Stream(_) | Broken) && peers[i].version.is_none();
            if matches!(list[i], Stream(_)) && peers[i].version.is_none() {
                ctx.event("no common version");
            }
            for j in next {
                if j >= n {
                    ctx.event("nonexistent peer");
                    waits = true;
                } else if reach.insert(j) {
                    todo.push(j);
                }
            }
        }
        for i in &reach {
            match list[*i] {
                Garbage | Other => ctx.event("garbage answer"),
                Late(..) => ctx.event("late answer"),
                Broken | Ghost => ctx.event("broken transfer"),
                Silent => ctx.event("silent"),
                _ => {}
            }
        }
        let findable = reach.iter().any(|i| match &list[*i] {
            Inline(w) => *w != Worth::Bad,
            Stream(w) => *w != Worth::Bad && peers[*i].version.is_some(),
            _ => false,
        });
        let all = handed.lock().clone();
        let given: Vec<(usize, Vec<u8>, bool)> = all.iter().filter(|((x, _), _)| *x == k).map(|((_, i), (v, u))| (*i, v.clone(), *u)).collect();
        let stored = node.store.lock().items.get(&k).cloned();
        let wanted = !k.affected_by_radius() || XorMetric::distance(&me, &k.id()) <= radius;
        if let Some(v) = here.get(&k) {
            ctx.event("already here");
            ctx.check(matches!(&result, Ok((c, false, _)) if c.to_vec() == *v), "own-content-not-returned", describe);
            ctx.check(peers.iter().all(|p| !p.log.lock().iter().any(|(_, q)| matches!(q, Request::FindContent(f) if f.content_key == k.raw()))), "asked-for-own-content", describe);
            continue;
        }
        if connected.is_empty() {
            ctx.event("nobody connected");
            ctx.check(matches!(result, Err(OverlayRequestError::ContentNotFound { .. })), "found-among-nobody", describe);
            ctx.check(took < Duration::from_secs(1), "lookup-overran", describe);
            continue;
        }
        if !waits {
            ctx.event("prompt");
            let bound = Duration::from_millis(2000 + (delay + 600) * n as u64);
            ctx.check(took <= bound, "lookup-stalled", || format!("{took:?} {}", describe()));
        }
        match &result {
            Ok((c, utp, trace)) => {
                ctx.event("found");
                if waits {
                    ctx.event("found although others misbehave");
                }
                let c = c.to_vec();
                ctx.sample("lookup", || vcommon::json!({"took ms": took.as_millis() as u64, "kinds": list.iter().map(|x| format!("{x:?}")).collect::<Vec<_>>(), "transfer": utp}));
                let w = worth(&k, &c);
                if !ctx.check(w != Worth::Bad, "invalid-content-returned", describe) {
                    continue;
                }
                let from = given.iter().find(|(_, v, _)| *v == c);
                if !ctx.check(from.is_some(), "content-nobody-sent", describe) {
                    continue;
                }
                let (i, _, by_transfer) = from.unwrap();
                let several = given.iter().filter(|(_, v, _)| worth(&k, v) != Worth::Bad).count() > 1;
                if *by_transfer {
                    ctx.event("found by transfer");
                }
                ctx.check(several || utp == by_transfer, "transfer-flag-wrong", describe);
                ctx.check(trace.is_some() == is_trace, "trace-presence", describe);
                if let Some(t) = trace {
                    ctx.event("traced");
                    let sender = t.received_from.map(|x| x.raw());
                    let fine = if several { given.iter().any(|(j, v, _)| worth(&k, v) != Worth::Bad && sender == Some(peers[*j].id())) } else { sender == Some(peers[*i].id()) };
                    ctx.check(fine, "trace-names-wrong-sender", || format!("{:?} {}", sender.map(|x| vcommon::hex(&x)), describe()));
                    ctx.check(t.origin.raw() == me && t.target_id.0 == k.id(), "trace-origin", describe);
                }
                if w == Worth::Matching {
                    ctx.event("merely valid");
                }
                if w == Worth::Canonical && wanted {
                    ctx.event("stored");
                    ctx.check(stored.is_some(), "found-but-not-stored", describe);
                }
                if !wanted {
                    ctx.event("outside the radius");
                }
            }
            Err(e) => {
                ctx.event("not found");
                ctx.check(matches!(e, OverlayRequestError::ContentNotFound { .. }), "wrong-error", || format!("{e:?} {}", describe()));
                let OverlayRequestError::ContentNotFound { trace, .. } = e else { continue };
                ctx.check(trace.is_some() == is_trace && trace.as_ref().is_none_or(|t| t.received_from.is_none()), "trace-presence", describe);
                if own_limit.is_none() && findable {
                    ctx.violation("reachable-content-not-found", format!("{took:?} {}", describe()));
                }
            }
        }
        let trace = match &result {
            Ok((_, _, t)) => t,
            Err(OverlayRequestError::ContentNotFound { trace, .. }) => trace,
            _ => &None,
        };
        if let Some(t) = trace {
            for (id, f) in &t.failures {
                let who = peers.iter().position(|p| p.id() == id.raw());
                let deserved = who.is_some_and(|i| match &list[i] {
                    Inline(w) | Stream(w) => *w == Worth::Bad || peers[i].version.is_none(),
                    Broken | Ghost => true,
                    _ => false,
                });
                ctx.check(deserved, "trace-blames-wrong-peer", || format!("{who:?} {f:?} {}", describe()));
            }
            for id in t.responses.keys() {
                let known = id.raw() == me || peers.iter().any(|p| p.id() == id.raw() && p.log.lock().iter().any(|(_, q)| matches!(q, Request::FindContent(f) if f.content_key == k.raw())));
                ctx.check(known, "trace-of-unasked-peer", describe);
            }
        }
        match stored {
            Some(v) => {
                ctx.check(wanted && worth(&k, &v) == Worth::Canonical && given.iter().any(|(_, x, _)| *x == v), "stored-wrongly", describe);
            }
            None => {}
        }
        if given.iter().any(|(_, v, _)| worth(&k, v) == Worth::Bad) {
            ctx.event("bad value refused");
        }
        // nobody is asked twice for the same
        for p in &peers {
            let times = p.log.lock().iter().filter(|(_, q)| matches!(q, Request::FindContent(f) if f.content_key == k.raw())).count();
            ctx.check(times <= 1, "peer-asked-repeatedly", || format!("{times} {}", describe()));
        }
    }
    clock::pass(Duration::from_secs(5)).await;
    // only valid content is passed on
    for p in &peers {
        for (_, q) in p.log.lock().iter() {
            let Request::Offer(o) = q else { continue };
            for key in &o.content_keys {
                let k = keys.iter().find(|k| k.raw() == *key);
                let fine = k.is_some_and(|k| handed.lock().iter().any(|((x, _), (v, _))| x == k && worth(k, v) != Worth::Bad));
                ctx.check(fine, "offered-unproven-content", || format!("{key}"));
                if disable_poke {
                    ctx.check(k.is_some_and(|k| node.store.lock().items.contains_key(k)), "offered-although-disabled", || format!("{key}"));
                }
            }
        }
    }
    // asked directly, a single peer's answer is returned, if valid
    let puts = node.store.lock().puts.len();
    for _ in 0..r.range(1, 4) {
        let i = r.index(n);
        let k = r.pick(&keys).clone();
        let (o, enr, raw) = (node.overlay.clone(), peers[i].enr.clone(), k.raw());
        handed.lock().remove(&(k.clone(), i));
        let before = peers[i].asked();
        let out = clock::within(Duration::from_secs(40), async move { o.send_find_content(enr, raw).await }).await;
        ctx.event("asked directly");
        let kind = &kinds[&k][i];
        ctx.eval("direct", &format!("{kind:?}{:?}", peers[i].version));
        let sent = handed.lock().get(&(k.clone(), i)).cloned();
        let Some(out) = out else {
            ctx.violation("request-never-ended", format!("{kind:?}"));
            continue;
        };
        let fine = match (kind, peers[i].version) {
            (_, None) => out.is_err() && peers[i].asked() == before,
            (Enrs(l, own), _) => matches!(&out, Ok((Content::Enrs(e), false)) if e.len() == l.len() + *own as usize && l.iter().zip(e).all(|(i, e)| records[*i].node_id() == e.node_id())),
            (Late(ms, l), _) => match &out {
                Ok((Content::Enrs(e), false)) => e.len() == l.len(),
                Ok(_) => false,
                Err(_) => *ms > 2900,
            },
            (Inline(Worth::Bad) | Stream(Worth::Bad), _) => matches!(out, Err(OverlayRequestError::FailedValidation(_))),
            (Inline(_) | Stream(_), _) => matches!(&out, Ok((Content::Content(c), u)) if Some(&(c.to_vec(), *u)) == sent.as_ref()),
            _ => out.is_err(),
        };
        ctx.check(fine, "direct-answer-wrong", || format!("{kind:?} version {:?} gave {out:?}", peers[i].version));
    }
    ctx.check(node.store.lock().puts.len() == puts, "direct-answer-stored", || String::new());
}
