//! Routing table views and the choice of peers to pass content on to.
use std::{
    collections::{BTreeMap, BTreeSet, HashMap},
    time::Duration,
};

use discv5::{
    enr::NodeId,
    kbucket::{ConnectionDirection, ConnectionState, KBucketsTable, Key, NodeStatus},
};
use ethportal_api::{
    types::{
        content_key::{
            beacon::{BeaconContentKey, LightClientBootstrapKey, LightClientUpdatesByRangeKey},
            overlay::IdentityContentKey,
        },
        distance::{Distance, XorMetric},
        enr::Enr,
    },
    OverlayContentKey, RawContentKey, RawContentValue,
};
use portalnet::{
    gossip::gossip_recipients,
    types::{
        kbucket::{Entry, SharedKBucketsTable},
        node::Node,
    },
};
use vcommon::{hex, Ctx, Rng};

use crate::{
    clock,
    peers::{log2, xor, Peer},
};

struct World {
    local: Peer,
    peers: Vec<Peer>,
    table: SharedKBucketsTable,
}
#[derive(Clone, Debug, PartialEq)]
struct Seen {
    enr: Enr,
    radius: [u8; 32],
    connected: bool,
}
fn status(connected: bool, outgoing: bool) -> NodeStatus {
    NodeStatus {
        state: if connected { ConnectionState::Connected } else { ConnectionState::Disconnected },
        direction: if outgoing { ConnectionDirection::Outgoing } else { ConnectionDirection::Incoming },
    }
}
fn radius(r: &mut Rng) -> [u8; 32] {
    match r.below(6) {
        0 => [0; 32],
        1 | 2 => [0xff; 32],
        _ => {
            let mut v: [u8; 32] = r.array();
            v[0] >>= r.below(6);
            v
        }
    }
}
fn dist(b: &[u8; 32]) -> Distance {
    Distance::from(alloy::primitives::U256::from_be_bytes(*b))
}
impl World {
    fn new(r: &mut Rng, n: usize) -> Self {
        let local = Peer::random(r);
        let peers = (0..n).map(|_| Peer::random(r)).collect();
        let table = SharedKBucketsTable::new(KBucketsTable::new(Key::from(local.id()), Duration::from_secs(60), 16, None, None));
        Self { local, peers, table }
    }
    /// What the table says about each peer, one by one.
    fn members(&self) -> BTreeMap<[u8; 32], Seen> {
        self.peers
            .iter()
            .filter_map(|p| match self.table.entry(p.id()) {
                Entry::Present(n, s) => Some((p.id().raw(), Seen { enr: n.enr(), radius: n.data_radius().big_endian(), connected: s.state == ConnectionState::Connected })),
                _ => None,
            })
            .collect()
    }
    fn fill(&self, r: &mut Rng) {
        for p in &self.peers {
            if r.chance(4, 5) {
                let (c, o) = (r.chance(3, 4), r.bool());
                let _ = self.table.insert_or_update(Node::new(p.enr.clone(), dist(&radius(r))), status(c, o));
            }
        }
    }
}
fn ids(v: &[Enr]) -> Vec<[u8; 32]> {
    v.iter().map(|e| e.node_id().raw()).collect()
}
fn nearest(m: &BTreeMap<[u8; 32], Seen>, target: &[u8; 32], limit: usize) -> Vec<Enr> {
    let mut v: Vec<_> = m.iter().filter(|(_, s)| s.connected).collect();
    v.sort_by_key(|(id, _)| xor(id, target));
    v.into_iter().take(limit).map(|(_, s)| s.enr.clone()).collect()
}

pub fn views(ctx: &mut Ctx) {
    ctx.rule("membership, records, radii and status are read peer by peer; each view must list exactly the connected peers that fit it, once, nearest first where it is ordered, up to the limit");
    let mut r = ctx.rng.fork("views");
    for case in 0..ctx.n(300, 4000) {
        let mut r = r.fork(&format!("case{case}"));
        clock::simulate(async {
            let n = r.usize_in(0, 120);
            let w = World::new(&mut r, n);
            w.fill(&mut r);
            for _ in 0..12 {
                if ctx.saturated() {
                    return;
                }
                look(ctx, &mut r, &w);
                change(ctx, &mut r, &w);
            }
        });
    }
    for (k, n) in [("closest to node", 300), ("closest to content", 300), ("by distance", 300), ("interested", 300), ("random", 300), ("record replaced", 50), ("older record ignored", 50), ("discovered node added", 50), ("disconnected peer left out", 100)] {
        ctx.require(k, n);
    }
}
fn look(ctx: &mut Ctx, r: &mut Rng, w: &World) {
    let m = w.members();
    let connected: BTreeSet<[u8; 32]> = m.iter().filter(|(_, s)| s.connected).map(|(i, _)| *i).collect();
    if connected.len() < m.len() {
        ctx.event("disconnected peer left out");
    }
    let limit = *r.pick(&[0usize, 1, 2, 5, 16, 20, 32, 1000]);
    let target: [u8; 32] = if r.bool() || w.peers.is_empty() { r.array() } else { r.pick(&w.peers).id().raw() };
    let state = || format!("{} known, {} connected, target {}, limit {limit}", m.len(), connected.len(), hex(&target[..4]));

    let want = nearest(&m, &target, limit);
    ctx.eval("closest to node", &(&target, limit, ids(&want)));
    let got = w.table.closest_to_node_id(NodeId::new(&target), limit);
    ctx.check(got == want, "table/closest-to-node", || j!({"state": state(), "got": got.len(), "want": want.len()}));
    ctx.eval("closest to content", &(&target, limit, ids(&want)));
    let got = w.table.closest_to_content_id::<XorMetric>(&target, limit);
    ctx.check(got == want, "table/closest-to-content", || j!({"state": state(), "got": got.len(), "want": want.len()}));

    let local = w.local.id().raw();
    let limit = *r.pick(&[16usize, 20, 32, 1000]);
    let mut ds: Vec<u16> = (0..r.usize_in(0, 6)).map(|_| if r.chance(5, 6) { r.range(248, 256) as u16 } else { r.range(0, 247) as u16 }).collect();
    if r.chance(1, 4) {
        ds.push(0);
    }
    if r.chance(1, 4) && !ds.is_empty() {
        ds.push(ds[0]);
    }
    r.shuffle(&mut ds);
    ctx.eval("by distance", &(&ds, limit, ids(&want)));
    let got = w.table.nodes_by_distances(w.local.enr.clone(), &ds, limit);
    let mut fit: Vec<Enr> = m.iter().filter(|(id, s)| s.connected && ds.contains(&log2(id, &local))).map(|(_, s)| s.enr.clone()).collect();
    if ds.contains(&0) {
        fit.push(w.local.enr.clone());
    }
    let distinct: BTreeSet<_> = ids(&got).into_iter().collect();
    let ok = distinct.len() == got.len() && got.iter().all(|e| fit.contains(e)) && got.len() == fit.len().min(limit);
    ctx.check(ok, "table/by-distance", || j!({"state": state(), "distances": ds, "limit": limit, "got": got.len(), "fit": fit.len()}));
    // nearer distances come first
    let order: Vec<u16> = got.iter().map(|e| log2(&e.node_id().raw(), &local)).collect();
    ctx.check(order.windows(2).all(|p| p[0] <= p[1]), "table/by-distance-order", || j!({"state": state(), "order": order}));

    let contents: Vec<[u8; 32]> = (0..r.usize_in(1, 4)).map(|_| r.array()).collect();
    let refs: Vec<&[u8; 32]> = contents.iter().collect();
    let got = w.table.batch_interested_enrs::<XorMetric>(&refs);
    ctx.check(got.len() == contents.len(), "table/interested-keys", || j!({"state": state(), "got": got.len()}));
    for c in &contents {
        let want: BTreeSet<[u8; 32]> = m.iter().filter(|(id, s)| s.connected && xor(id, c) <= s.radius).map(|(id, _)| *id).collect();
        ctx.eval("interested", &(c, &want));
        let g = got.get(c).cloned().unwrap_or_default();
        let gs: BTreeSet<_> = ids(&g).into_iter().collect();
        ctx.check(gs == want && g.len() == want.len(), "table/interested", || j!({"state": state(), "content": hex(&c[..4]), "got": g.len(), "want": want.len()}));
    }

    let limit = *r.pick(&[0usize, 1, 4, 8, 1000]);
    ctx.eval("random", &(limit, connected.len(), r.u64()));
    let got = w.table.random_peers(limit);
    let gs: BTreeSet<_> = ids(&got).into_iter().collect();
    ctx.check(gs.len() == got.len() && gs.is_subset(&connected) && got.len() == connected.len().min(limit), "table/random", || j!({"state": state(), "limit": limit, "got": got.len()}));
    let all: BTreeSet<_> = ids(&w.table.enrs()).into_iter().collect();
    ctx.check(all == m.keys().copied().collect(), "table/all", || j!({"state": state(), "got": all.len()}));
    let shown = ethportal_api::KBucketsTable::from(&w.table);
    let per_bucket: Vec<usize> = shown.buckets.iter().map(|b| b.node_ids.len()).collect();
    let want: Vec<usize> = (1..=256).map(|d| m.keys().filter(|id| log2(id, &local) == d).count()).collect();
    ctx.check(per_bucket == want, "table/shown", || j!({"state": state()}));
    ctx.check(w.table.buckets_count() == 256, "table/buckets", || j!({"count": w.table.buckets_count()}));
}
fn change(ctx: &mut Ctx, r: &mut Rng, w: &World) {
    if w.peers.is_empty() {
        return;
    }
    match r.below(5) {
        0 => {
            let p = r.pick(&w.peers);
            let was = w.members().contains_key(&p.id().raw());
            let pending = matches!(w.table.entry(p.id()), Entry::Pending(..));
            let got = w.table.remove(p.id());
            // a peer still waiting for a place is not in the table yet
            if pending {
                return;
            }
            ctx.check_eq(&got, &was, "table/removed", || "removal of a peer".into());
            ctx.check(matches!(w.table.entry(p.id()), Entry::Absent), "table/still-there", || j!({"peer": p.id().to_string()}));
        }
        1 => {
            for _ in 0..r.usize_in(1, 6) {
                let p = r.pick(&w.peers).id();
                let s = if r.bool() { ConnectionState::Connected } else { ConnectionState::Disconnected };
                let _ = w.table.update_node_status(p, s, None);
            }
        }
        2 => w.fill(r),
        _ => {
            // records heard of from other peers
            let before = w.members();
            let heard: Vec<Enr> = (0..r.usize_in(1, 20)).map(|_| r.pick(&w.peers).at(r.range(1, 5))).collect();
            let res = w.table.insert_or_update_discovered_nodes(heard.clone());
            let after = w.members();
            let mut best: HashMap<[u8; 32], Enr> = HashMap::new();
            for e in &heard {
                let b = best.entry(e.node_id().raw()).or_insert_with(|| e.clone());
                if b.seq() < e.seq() {
                    *b = e.clone();
                }
            }
            for (id, s) in &after {
                match before.get(id) {
                    Some(b) => {
                        let want = match best.get(id) {
                            Some(e) if e.seq() > b.enr.seq() => {
                                ctx.event("record replaced");
                                e.clone()
                            }
                            Some(_) => {
                                ctx.event("older record ignored");
                                b.enr.clone()
                            }
                            None => b.enr.clone(),
                        };
                        ctx.check(*s == Seen { enr: want.clone(), ..b.clone() }, "table/discovered-update", || j!({"had": b.enr.seq(), "now": s.enr.seq(), "want": want.seq(), "status": [b.connected, s.connected]}));
                    }
                    None => {
                        ctx.event("discovered node added");
                        let ok = !s.connected && s.radius == [0xff; 32] && best.get(id) == Some(&s.enr);
                        ctx.check(ok, "table/discovered-insert", || j!({"connected": s.connected, "radius": hex(&s.radius), "seq": s.enr.seq()}));
                        ctx.check(res.inserted_nodes.iter().any(|n| n.raw() == *id), "table/discovered-report", || j!({"peer": hex(id)}));
                    }
                }
            }
            let gone = before.keys().filter(|id| !after.contains_key(*id)).count();
            ctx.check(gone == 0 || !res.removed_nodes.is_empty(), "table/discovered-loss", || j!({"gone": gone}));
            ctx.check(res.inserted_nodes.iter().all(|n| after.contains_key(&n.raw()) && !before.contains_key(&n.raw())), "table/discovered-report", || j!({"inserted": res.inserted_nodes.len()}));
        }
    }
}

pub fn gossip(ctx: &mut Ctx) {
    ctx.rule("content with a radius goes to connected peers whose radius covers it: all of them up to eight, else the nearest four and four others; other content goes to eight connected peers; no peer gets more than 64 items, in the given order, each with its own value");
    let mut r = ctx.rng.fork("gossip");
    for case in 0..ctx.n(1000, 12_000) {
        let mut r = r.fork(&format!("case{case}"));
        clock::simulate(async {
            let n = *r.pick(&[0usize, 1, 5, 8, 9, 12, 40, 100]);
            let w = World::new(&mut r, n);
            w.fill(&mut r);
            for _ in 0..4 {
                if ctx.saturated() {
                    return;
                }
                let n = *r.pick(&[1usize, 1, 2, 5, 63, 64, 65, 100]);
                if r.chance(3, 4) {
                    let near = r.chance(1, 3);
                    let base: [u8; 32] = r.array();
                    let content = (0..n)
                        .map(|_| {
                            let mut id: [u8; 32] = r.array();
                            if near {
                                id[0] = base[0];
                            }
                            let len = r.usize_in(0, 20);
                            (IdentityContentKey::new(id), RawContentValue::from(r.bytes(len)))
                        })
                        .collect::<Vec<_>>();
                    judge(ctx, &w, content, true);
                } else {
                    let content = (0..n)
                        .map(|i| {
                            let key = if r.bool() {
                                BeaconContentKey::LightClientBootstrap(LightClientBootstrapKey { block_hash: r.array() })
                            } else {
                                BeaconContentKey::LightClientUpdatesByRange(LightClientUpdatesByRangeKey { start_period: i as u64, count: 1 })
                            };
                            let len = r.usize_in(0, 20);
                            (key, RawContentValue::from(r.bytes(len)))
                        })
                        .collect::<Vec<_>>();
                    judge(ctx, &w, content, false);
                }
            }
        });
    }
    for (k, n) in [("radius content", 200), ("content without radius", 50), ("choice among many", 100), ("everyone interested", 50), ("offer cut at limit", 20), ("nobody interested", 20)] {
        ctx.require(k, n);
    }
}
fn judge<K: OverlayContentKey>(ctx: &mut Ctx, w: &World, content: Vec<(K, RawContentValue)>, by_radius: bool) {
    let m = w.members();
    let connected: BTreeSet<[u8; 32]> = m.iter().filter(|(_, s)| s.connected).map(|(i, _)| *i).collect();
    let items: Vec<([u8; 32], RawContentKey, RawContentValue)> = content.iter().map(|(k, v)| (k.content_id(), k.to_bytes(), v.clone())).collect();
    let got = gossip_recipients::<K, XorMetric>(content, &w.table);
    ctx.eval(if by_radius { "radius content" } else { "content without radius" }, &(items.iter().map(|i| i.0).collect::<Vec<_>>(), connected.len()));
    let what = || format!("{} items, {} connected peers, {} recipients", items.len(), connected.len(), got.len());
    for (e, sent) in &got {
        let id = e.node_id().raw();
        ctx.check(connected.contains(&id) && m.get(&id).is_some_and(|s| s.enr == *e), "gossip/unknown-recipient", what);
        ctx.check(!sent.is_empty() && sent.len() <= 64, "gossip/offer-size", || format!("{}: {}", what(), sent.len()));
        let mut at = 0;
        for (k, v) in sent {
            match items.iter().skip(at).position(|(_, ik, iv)| ik == k && iv == v) {
                Some(p) => at += p + 1,
                None => {
                    ctx.violation("gossip/items", format!("{}: item missing, repeated, out of order or with another value", what()));
                    break;
                }
            }
        }
        if sent.len() == 64 {
            ctx.event("offer cut at limit");
        }
    }
    let sent_to = |key: &RawContentKey| -> BTreeSet<[u8; 32]> { got.iter().filter(|(_, s)| s.iter().any(|(k, _)| k == key)).map(|(e, _)| e.node_id().raw()).collect() };
    if by_radius {
        for (id, key, _) in &items {
            let mut fit: Vec<[u8; 32]> = m.iter().filter(|(n, s)| s.connected && xor(n, id) <= s.radius).map(|(n, _)| *n).collect();
            fit.sort_by_key(|n| xor(n, id));
            let to = sent_to(key);
            ctx.check(to.iter().all(|n| fit.contains(n)), "gossip/uninterested", || format!("{}: item {}", what(), hex(&id[..4])));
            ctx.check(to.len() <= 8, "gossip/too-many", || format!("{}: {}", what(), to.len()));
            if fit.is_empty() {
                ctx.event("nobody interested");
            }
            // with up to 64 items nothing is cut
            if items.len() <= 64 {
                if fit.len() <= 8 {
                    ctx.event("everyone interested");
                    ctx.check(to.len() == fit.len(), "gossip/left-out", || format!("{}: {} of {}", what(), to.len(), fit.len()));
                } else {
                    ctx.event("choice among many");
                    ctx.check(to.len() == 8 && fit[..4].iter().all(|n| to.contains(n)), "gossip/nearest", || format!("{}: {} of {}", what(), to.len(), fit.len()));
                }
            }
        }
    } else {
        ctx.check(got.len() == connected.len().min(8), "gossip/random-count", what);
        for s in got.values() {
            ctx.check(s.len() == items.len().min(64), "gossip/random-items", || format!("{}: {}", what(), s.len()));
        }
        if connected.is_empty() {
            ctx.event("nobody interested");
        }
    }
}
