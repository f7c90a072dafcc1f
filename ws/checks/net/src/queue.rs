//! The record of transfers in progress.
use std::{collections::BTreeMap, time::Duration};

use ethportal_api::{
    types::{content_key::overlay::IdentityContentKey, enr::Enr},
    OverlayContentKey,
};
use portalnet::accept_queue::AcceptQueue;
use vcommon::{Ctx, Rng};

use crate::clock;

pub fn peers(n: usize) -> Vec<Enr> {
    (0..n).map(|_| ethportal_api::types::enr::generate_random_remote_enr().1).collect()
}
struct Held {
    origin: usize,
    others: Vec<usize>,
    /// when the key was last offered
    since: Duration,
}

pub fn offers(ctx: &mut Ctx) {
    ctx.rule("at most one transfer per key; other peers that offered it are remembered once each; a failed key gives one of them; a key that nobody has offered for two minutes and one second can be taken again");
    discv5::seeded::reseed(ctx.seed);
    let peers = peers(12);
    let mut r = ctx.rng.fork("queue");
    for case in 0..ctx.n(2000, 30_000) {
        let mut r = r.fork(&format!("case{case}"));
        let trace = clock::simulate(history(ctx, &mut r, &peers));
        ctx.eval("history", &trace);
    }
    for (k, n) in [("first offer", 1000), ("repeated offer", 500), ("fallback given", 200), ("no fallback", 200), ("expired key taken again", 50), ("several expired at once", 20)] {
        ctx.require(k, n);
    }
}
async fn history(ctx: &mut Ctx, r: &mut Rng, peers: &[Enr]) -> Vec<String> {
    let limit = Duration::from_secs(120);
    let slack = Duration::from_secs(1);
    let mut q = AcceptQueue::<IdentityContentKey>::default();
    let keys: Vec<IdentityContentKey> = (0..r.usize_in(1, 6)).map(|_| IdentityContentKey::new(r.array())).collect();
    let mut model: BTreeMap<usize, Held> = BTreeMap::new();
    let mut trace = vec![];
    let t0 = clock::now();
    for _ in 0..r.usize_in(5, 60) {
        if ctx.saturated() {
            break;
        }
        let k = r.index(keys.len());
        let now = clock::now() - t0;
        match r.below(10) {
            0..=5 => {
                let p = r.index(peers.len());
                let got = q.add_key_to_queue(&keys[k], &peers[p]);
                trace.push(format!("{}s offer {k} by {p} -> {got}", now.as_secs()));
                let stale = model.values().filter(|h| now > h.since + limit + slack).count();
                if stale > 1 {
                    ctx.event("several expired at once");
                }
                match model.get_mut(&k) {
                    None => {
                        ctx.event("first offer");
                        ctx.check(got, "queue/free-key-refused", || j!({"history": trace}));
                        model.insert(k, Held { origin: p, others: vec![], since: now });
                    }
                    Some(h) if now + slack < h.since + limit => {
                        ctx.event("repeated offer");
                        ctx.check(!got, "queue/two-transfers", || j!({"history": trace}));
                        if p != h.origin && !h.others.contains(&p) {
                            h.others.push(p);
                        }
                        h.since = now;
                    }
                    Some(h) if now > h.since + limit + slack => {
                        ctx.event("expired key taken again");
                        ctx.check(got, "queue/stuck-key", || j!({"history": trace}));
                        *h = Held { origin: p, others: vec![], since: now };
                    }
                    // too close to the limit to say
                    Some(h) => {
                        if got {
                            *h = Held { origin: p, others: vec![], since: now };
                        } else {
                            if p != h.origin && !h.others.contains(&p) {
                                h.others.push(p);
                            }
                            h.since = now;
                        }
                    }
                }
            }
            6 => {
                q.remove_key(&keys[k]);
                trace.push(format!("{}s done {k}", now.as_secs()));
                model.remove(&k);
            }
            7 => {
                let got = q.process_failed_key(&keys[k]);
                let id = got.as_ref().map(|e| peers.iter().position(|p| p == e));
                trace.push(format!("{}s failed {k} -> {id:?}", now.as_secs()));
                match model.remove(&k) {
                    Some(h) if now + slack < h.since + limit => match id {
                        Some(p) => {
                            ctx.event("fallback given");
                            ctx.check(p.is_some_and(|p| h.others.contains(&p)), "queue/wrong-fallback", || j!({"history": trace, "origin": h.origin, "others": h.others}));
                        }
                        None => {
                            ctx.event("no fallback");
                            ctx.check(h.others.is_empty(), "queue/fallback-forgotten", || j!({"history": trace, "others": h.others}));
                        }
                    },
                    Some(_) => {}
                    None => {
                        ctx.event("no fallback");
                        ctx.check(id.is_none(), "queue/fallback-from-nowhere", || j!({"history": trace}));
                    }
                }
            }
            _ => {
                let d = Duration::from_secs(*r.pick(&[1, 10, 60, 118, 122, 130, 300]));
                clock::step(d);
                tokio::time::advance(d).await;
                clock::settle().await;
                trace.push(format!("{}s pass", d.as_secs()));
            }
        }
    }
    let _ = keys[0].to_bytes();
    trace
}
