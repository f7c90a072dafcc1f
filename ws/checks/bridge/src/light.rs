//! A bridge that follows the head of the beacon chain.
use std::{
    collections::{BTreeMap, HashMap},
    sync::Arc,
    time::Duration,
};

use alloy::primitives::U256;
use ethportal_api::types::{distance::Distance, network::Subnetwork};
use oracle::{
    schema::{self, Fork, T, V},
    ssz as ossz,
};
use portal_bridge::{bridge::beacon::BeaconBridge, census::Census, types::mode::BridgeMode};
use reqwest::Told;
use vcommon::{hex, json, Ctx, Rng, Value};

use crate::{
    census::end,
    clock,
    providers::{about, consensus, not_found, root, serve, spoil, told, Bad, Log, JSON, SSZ},
    town::{Town, BEACON},
};

pub const GENESIS: u64 = 1_606_824_023;
pub const PERIOD: u64 = 8192;

pub fn put(v: &mut V, t: &T, path: &[&str], to: V) {
    let V::Items(x) = v else { panic!("composite") };
    let i = t.field(path[0]);
    if path.len() == 1 {
        x[i] = to;
    } else {
        put(&mut x[i], t.ty(path[0]), &path[1..], to);
    }
}
pub fn num(n: u64) -> V {
    V::Raw(n.to_le_bytes().to_vec())
}
fn versioned(ssz: Vec<u8>) -> Vec<u8> {
    [&Fork::Electra.digest()[..], &ssz].concat()
}
fn key(selector: u8, n: &[u64]) -> Vec<u8> {
    let mut b = vec![selector];
    n.iter().for_each(|n| b.extend(n.to_le_bytes()));
    b
}
/// What became final.
struct Final {
    /// from this slot on it is the latest
    from: u64,
    slot: u64,
    root: [u8; 32],
    state_root: [u8; 32],
    state: Vec<u8>,
    summaries: Vec<u8>,
    boot: V,
}
/// The questions.
const KINDS: [&str; 7] = ["optimistic", "finality", "updates", "root", "bootstrap", "state root", "state"];
#[derive(Clone, Copy, Debug, PartialEq)]
enum Outage {
    None,
    First(Bad),
    Both(Bad),
    Slow(u64),
    /// answers with what was the latest in the beginning
    Behind,
}
struct Chain {
    s0: u64,
    optimistic: Vec<V>,
    finality: Vec<V>,
    finals: Vec<Final>,
    /// per period the update for it before and after something in it was final
    updates: HashMap<u64, (Option<V>, V)>,
    outages: Vec<[Outage; 7]>,
    types: [T; 5],
}
impl Chain {
    fn at(&self, slot: u64) -> usize {
        (slot.saturating_sub(self.s0) as usize).min(self.optimistic.len() - 1)
    }
    fn latest(&self, slot: u64) -> &Final {
        self.finals.iter().rev().find(|f| f.from <= slot).unwrap_or(&self.finals[0])
    }
    fn outage(&self, kind: usize, slot: u64) -> Outage {
        self.outages[self.at(slot)][kind]
    }
    fn healthy(&self, kind: usize, slot: u64) -> bool {
        !matches!(self.outage(kind, slot), Outage::Both(_) | Outage::Behind)
    }
}
pub fn slot_now() -> u64 {
    (clock::wall() - GENESIS) / 12
}
fn made(r: &mut Rng, case: u64) -> Chain {
    let e = Fork::Electra;
    let types = [schema::lc_optimistic_update(e), schema::lc_finality_update(e), schema::lc_update(e), schema::lc_bootstrap(e), schema::beacon_state(e)];
    let len = r.range(14, 24);
    let boundary = r.range(1420, 1600) * PERIOD;
    // the boundary of a period lies ahead, or not
    let ahead = case % 3 != 0;
    let s0 = if ahead { boundary - r.range(1, len - 6) } else { boundary + r.range(100, 8000) };
    // some cases are about one finalised block, the items of which come hard
    let hard = case % 4 == 3;
    let n = if hard { 1 } else { r.usize_in(1, 3) };
    let mut from = s0;
    let mut slot = s0 - 70 - r.below(200);
    let mut base = types[4].gen(r, 0);
    let mut finals = vec![];
    for i in 0..n {
        if i > 0 {
            from += r.range(2, 11);
            // later ones may belong to the next period
            let next = (slot | 31) + 1 + 32 * r.below(3);
            slot = if ahead && from > boundary + 1 && r.bool() { boundary + r.below(from - boundary) } else { next.min(from - 1) };
            if slot / 32 <= finals.last().map_or(0, |f: &Final| f.slot / 32) {
                continue;
            }
        }
        put(&mut base, &types[4], &["slot"], num(slot));
        let summaries = V::Items((0..r.range(1, 40)).map(|_| V::Items(vec![V::Raw(r.bytes(32)), V::Raw(r.bytes(32))])).collect());
        put(&mut base, &types[4], &["historical_summaries"], summaries.clone());
        let proof = types[4].field_proof(&base, "historical_summaries");
        let content = V::Items(vec![num(slot / 32), summaries, V::Items(proof.iter().map(|h| V::Raw(h.to_vec())).collect())]);
        finals.push(Final {
            from,
            slot,
            root: r.array(),
            state_root: r.array(),
            state: types[4].ser(&base),
            summaries: versioned(schema::historical_summaries_with_proof().ser(&content)),
            boot: types[3].gen(r, 1),
        });
    }
    let mut chain = Chain { s0, optimistic: vec![], finality: vec![], finals, updates: HashMap::new(), outages: vec![], types };
    for s in s0..s0 + len {
        let mut o = chain.types[0].gen(r, 1);
        put(&mut o, &chain.types[0], &["signature_slot"], num(s));
        put(&mut o, &chain.types[0], &["attested_header", "beacon", "slot"], num(s - 1));
        chain.optimistic.push(o);
        let mut f = chain.types[1].gen(r, 1);
        put(&mut f, &chain.types[1], &["finalized_header", "beacon", "slot"], num(chain.latest(s).slot));
        put(&mut f, &chain.types[1], &["signature_slot"], num(s));
        chain.finality.push(f);
    }
    for p in [s0 / PERIOD, s0 / PERIOD + 1] {
        let mut mk = |slot| {
            let mut u = chain.types[2].gen(r, 1);
            put(&mut u, &chain.types[2], &["finalized_header", "beacon", "slot"], num(slot));
            u
        };
        let early = mk(p * PERIOD - 1);
        let late = mk(p * PERIOD + 40);
        chain.updates.insert(p, (r.bool().then_some(early), late));
    }
    // outages, most of them over before the end
    let mut outages = vec![[Outage::None; 7]; len as usize];
    if case % 4 != 1 {
        for _ in 0..r.range(1, 5) {
            let kind = r.index(7);
            let b = *r.pick(&[Bad::NoConnection, Bad::ServerError, Bad::NotFound, Bad::OtherType, Bad::Garbage, Bad::BrokenOff, Bad::OtherJson]);
            let o = match r.below(4) {
                0 => Outage::First(b),
                1 => Outage::Slow(r.range(1, 11)),
                _ => Outage::Both(b),
            };
            let a = r.index(len as usize);
            let z = (a + r.usize_in(1, 5)).min(len as usize);
            outages[a..z].iter_mut().for_each(|x| x[kind] = o);
        }
    }
    if hard {
        outages.iter_mut().for_each(|x| (3..7).for_each(|k| x[k] = Outage::None));
        let b = *r.pick(&[Bad::NoConnection, Bad::ServerError, Bad::Garbage]);
        let slow = Outage::Slow(r.range(13, 18));
        if case % 8 == 3 {
            outages[..4].iter_mut().for_each(|x| (x[4], x[6]) = (Outage::Both(b), Outage::Both(b)));
        } else {
            outages.iter_mut().for_each(|x| (x[4], x[6]) = (slow, slow));
        }
    }
    // a provider that lags behind must not turn anything back
    if case % 4 == 1 && chain.finals.len() > 1 {
        let a = (chain.finals[1].from - s0) as usize + 1 + r.index(3);
        if a + 1 < len as usize {
            outages[a][1] = Outage::Behind;
        }
    }
    chain.outages = outages;
    chain
}
fn answer(c: &Chain, first: bool, path: &str, binary: bool) -> Option<Told> {
    let slot = slot_now();
    let f = c.latest(slot);
    let i = c.at(slot);
    let one = |h: &[u8; 32]| about(&root(), &V::Items(vec![V::Raw(h.to_vec())]), binary);
    let (kind, good) = match path {
        "/eth/v1/node/version" => return Some(told(JSON, b"{\"data\":{\"version\":\"x/1\"}}".to_vec())),
        "/eth/v1/beacon/light_client/optimistic_update" => (0, about(&c.types[0], &c.optimistic[i], binary)),
        "/eth/v1/beacon/light_client/finality_update" => (1, about(&c.types[1], &c.finality[i], binary)),
        "/eth/v1/beacon/blocks/finalized/root" => (3, one(&f.root)),
        "/eth/v1/beacon/states/finalized/root" => (5, one(&f.state_root)),
        "/eth/v2/debug/beacon/states/finalized" => (6, told(SSZ, f.state.clone())),
        p if p.starts_with("/eth/v1/beacon/light_client/bootstrap/0x") => {
            let root = p.rsplit("0x").next().unwrap_or("");
            match c.finals.iter().find(|f| hex(&f.root) == root) {
                Some(f) => (4, about(&c.types[3], &f.boot, binary)),
                None => (4, not_found()),
            }
        }
        p if p.starts_with("/eth/v1/beacon/light_client/updates?start_period=") => {
            let period: u64 = p.split('=').nth(1)?.split('&').next()?.parse().ok()?;
            let list: Vec<&V> = match c.updates.get(&period) {
                _ if p.ends_with("count=0") => vec![],
                Some((_, late)) if f.slot / PERIOD == period => vec![late],
                Some((early, _)) => early.iter().collect(),
                None => vec![],
            };
            let list: Vec<Value> = list.iter().map(|v| json!({"version": "electra", "data": c.types[2].json(v)})).collect();
            (2, told(JSON, Value::Array(list).to_string().into_bytes()))
        }
        _ => return Some(not_found()),
    };
    match c.outage(kind, slot) {
        Outage::None => Some(good),
        Outage::First(b) if first => spoil(b, good),
        Outage::First(_) => Some(good),
        Outage::Behind => Some(about(&c.types[1], &c.finality[0], binary)),
        Outage::Both(b) => spoil(b, good),
        Outage::Slow(s) => Some(Told { after: Duration::from_secs(s), ..good }),
    }
}
pub fn follow(ctx: &mut Ctx) {
    ctx.rule("each slot the newest optimistic update is offered to all peers; a finality update, a bootstrap and the historical summaries with their proof once for each newly finalised block, and the update of a sync committee period once its finalised header is in it; nothing else is offered and everything as the provider gave it; while a provider fails some items are late, but as soon as it answers again what is then the latest is offered");
    let mut r = ctx.rng.fork("light");
    for case in 0..ctx.n(24, 500) {
        if ctx.saturated() {
            break;
        }
        let mut r = r.fork(&format!("case{case}"));
        clock::simulate(one(ctx, &mut r, case));
    }
    reqwest::provided_by(None);
    for (k, n) in [("optimistic update", 100), ("finality update", 15), ("bootstrap", 8), ("summaries", 12), ("period update", 6), ("outage", 20), ("second provider", 3), ("provider behind", 1), ("item received", 300), ("no update yet", 1)] {
        ctx.require(k, n);
    }
}
async fn one(ctx: &mut Ctx, r: &mut Rng, case: u64) {
    let chain = Arc::new(made(r, case));
    let c2 = chain.clone();
    let s0 = chain.s0;
    let len = chain.optimistic.len() as u64;
    // everything else is ready one slot before
    clock::set(GENESIS + s0 * 12 - 400);
    let log: Log = Default::default();
    serve(log.clone(), move |first, p, _, binary| answer(&c2, first, p, binary));
    let mut town = Town::found(r, BEACON);
    let n = r.usize_in(1, 4);
    for _ in 0..n {
        let radius = Distance::from(U256::MAX >> *r.pick(&[0usize, 0, 8, 256]));
        town.join(r, radius, true).await;
    }
    let config = town.config(&(0..n).collect::<Vec<_>>(), &["--mode", "latest"]);
    let overlays = town.open(&config).await;
    town.wait(30).await;
    let mut census = Census::new(overlays.clone(), &config);
    let Some((census, Ok(_watch))) = end(async move {
        let h = census.init([Subnetwork::Beacon]).await;
        (census, h)
    })
    .await
    else {
        ctx.inconclusive("the first look around failed");
        return;
    };
    let Some(api) = consensus().await else {
        ctx.check(false, "cannot-begin", String::new);
        return;
    };
    // somewhere within the slot before
    let begin = GENESIS + s0 * 12 - r.range(1, 7);
    town.wait(begin.saturating_sub(clock::wall())).await;
    for p in &town.people {
        p.forget();
    }
    let t0 = clock::now();
    let w0 = clock::wall();
    let network = overlays.beacon.clone().expect("the network runs");
    tokio::spawn(async move { BeaconBridge::new(api, BridgeMode::Latest, network, census).launch().await });
    town.wait(GENESIS + (s0 + len) * 12 - w0).await;
    let slots = || chain.outages.iter().enumerate().flat_map(|(i, o)| o.iter().enumerate().filter(|(_, o)| **o != Outage::None).map(move |(k, o)| format!("{i} {}: {o:?}", KINDS[k]))).collect::<Vec<_>>();
    let what = |x: String| j!({"what": x, "first slot": s0, "slots": len, "final": chain.finals.iter().map(|f| format!("{} from {}", f.slot, f.from - s0)).collect::<Vec<_>>(), "outages": slots()});
    let tick = |s: u64| t0 + Duration::from_secs(GENESIS + s * 12 + 4 - w0);
    // everything there is to offer
    let mut known: BTreeMap<Vec<u8>, Vec<Vec<u8>>> = BTreeMap::new();
    for s in s0..s0 + len {
        let i = chain.at(s);
        known.entry(key(0x13, &[s])).or_default().push(versioned(chain.types[0].ser(&chain.optimistic[i])));
        known.entry(key(0x12, &[chain.latest(s).slot])).or_default().push(versioned(chain.types[1].ser(&chain.finality[i])));
    }
    for f in &chain.finals {
        known.insert([&[0x10u8][..], &f.root].concat(), vec![versioned(chain.types[3].ser(&f.boot))]);
        known.insert(key(0x14, &[f.slot / 32]), vec![f.summaries.clone()]);
    }
    for (p, (_, late)) in &chain.updates {
        known.insert(key(0x11, &[*p, 1]), vec![ossz::var_list(&[versioned(chain.types[2].ser(late))])]);
    }
    for (i, p) in town.people.iter().enumerate() {
        let offered = p.offered();
        let took = p.took();
        for (_, k) in &offered {
            if !ctx.check(known.contains_key(k), "unknown-item-offered", || what(format!("peer {i} was offered {}", hex(k)))) {
                break;
            }
        }
        for (_, k, v) in &took {
            ctx.event("item received");
            if !ctx.check(known.get(k).is_some_and(|w| w.contains(v)), "wrong-content", || what(format!("peer {i} took {}", hex(k)))) {
                break;
            }
        }
        let mut by_key: BTreeMap<&Vec<u8>, Vec<Duration>> = BTreeMap::new();
        for (t, k) in &offered {
            by_key.entry(k).or_default().push(*t);
        }
        // those that are offered once
        for (k, t) in &by_key {
            let kinds: &[usize] = match k[0] {
                0x10 => &[3, 4],
                0x11 => &[2],
                0x12 => &[1],
                0x14 => &[5, 6],
                _ => &[0],
            };
            let calm = kinds.iter().all(|k| chain.outages.iter().all(|o| matches!(o[*k], Outage::None | Outage::Behind))) || (chain.finals.len() == 1 && k[0] != 0x13 && kinds.iter().all(|k| chain.outages.iter().all(|o| matches!(o[*k], Outage::None | Outage::Slow(_)))));
            ctx.check(t.len() == 1 || !calm, "offered-again", || what(format!("peer {i}: {} at {t:?}", hex(k))));
        }
        let by = |k: &Vec<u8>, t: Duration| by_key.get(k).is_some_and(|x| x.iter().any(|x| *x <= t));
        for s in s0..s0 + len - 2 {
            let due = tick(s) + Duration::from_secs(20);
            let f = chain.latest(s);
            ctx.eval("slot", &(case, s, i, f.slot));
            if (0..7).any(|k| !chain.healthy(k, s)) {
                ctx.event("outage");
            }
            if chain.outage(1, s) == Outage::Behind {
                ctx.event("provider behind");
            }
            if (0..7).any(|k| matches!(chain.outage(k, s), Outage::First(_))) {
                ctx.event("second provider");
            }
            // a slow provider may speak of the next slot
            if chain.healthy(0, s) {
                ctx.event("optimistic update");
                ctx.check(by(&key(0x13, &[s]), due), "optimistic-update-not-offered", || what(format!("peer {i}, slot {}", s - s0)));
            }
            if chain.healthy(1, s) {
                ctx.event("finality update");
                ctx.check(by(&key(0x12, &[f.slot]), due), "finality-update-not-offered", || what(format!("peer {i}, slot {}, final {}", s - s0, f.slot)));
            }
            if chain.healthy(2, s) {
                if f.slot / PERIOD == s / PERIOD {
                    ctx.event("period update");
                    ctx.check(by(&key(0x11, &[s / PERIOD, 1]), due), "period-update-not-offered", || what(format!("peer {i}, slot {}, period {}", s - s0, s / PERIOD)));
                } else {
                    ctx.event("no update yet");
                }
            }
            // these take longer
            let calm = |k: usize, d: u64| (s..=s + d).all(|x| x < s0 + len && chain.healthy(k, x) && chain.latest(x).from == f.from);
            if calm(3, 7) && calm(4, 7) {
                ctx.event("bootstrap");
                ctx.check(by(&[&[0x10u8][..], &f.root].concat(), tick(s + 7)), "bootstrap-not-offered", || what(format!("peer {i}, slot {}, final {}", s - s0, f.slot)));
            }
            if calm(5, 6) && calm(6, 6) {
                ctx.event("summaries");
                ctx.check(by(&key(0x14, &[f.slot / 32]), tick(s + 6)), "summaries-not-offered", || what(format!("peer {i}, slot {}, final {}", s - s0, f.slot)));
            }
        }
        for f in &chain.finals {
            let boot = by_key.get(&[&[0x10u8][..], &f.root].concat()).and_then(|x| x.first());
            let finality = by_key.get(&key(0x12, &[f.slot])).and_then(|x| x.first());
            if let (Some(b), Some(f)) = (boot, finality) {
                ctx.check(b >= f || chain.outages.iter().any(|o| o[1] != Outage::None), "bootstrap-before-finality-update", || what(format!("peer {i}: {b:?} before {f:?}")));
            }
        }
    }
    ctx.sample("case", || json!({"first": s0, "slots": len, "outages": slots()}));
}
