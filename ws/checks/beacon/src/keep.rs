//! C02: what the node keeps through histories of storing, expiry and restarts.
use std::{
    collections::BTreeMap,
    sync::{
        atomic::{AtomicU64, Ordering},
        Arc,
    },
    time::Duration,
};

use ethportal_api::{types::portal_wire::{Content, FindContent, Request, Response}, BeaconContentKey, BeaconContentValue, ContentValue, OverlayContentKey};
use oracle::{lc::PERIOD, schema::{self, Fork, FORKS}, H};
use vcommon::{hex, json, Ctx, Rng, Value};

use crate::{
    clock,
    make::{self, Net},
    serve::{start, Running},
    sub::{Call, Dir, Ground},
    things::{self, Sums},
    world::{fresh, message, unframe, Scripted},
};

const AGE: u64 = 120 * 24 * 3600 / 12;
/// Summaries every node knows.
const EMBEDDED: usize = 664;
const DAY: u64 = 24 * 3600;
/// First slot whose block root is summarised.
const CAPELLA: u64 = 194_048 * 32;

/// Statements run for the call at hand; too many are cut off.
static WORK: AtomicU64 = AtomicU64::new(0);
const MUCH: u64 = 4_000;

/// What could be in a place that holds one thing; an older one may or may not displace a newer one.
#[derive(Clone, Default)]
struct Latest(Vec<(u64, Vec<u8>)>);
impl Latest {
    fn put(&mut self, at: u64, v: Vec<u8>) {
        if self.0.iter().all(|(n, _)| *n <= at) {
            self.0.clear();
        }
        self.0.push((at, v));
    }
    fn answers(&self, asked: u64) -> Vec<Option<&Vec<u8>>> {
        if self.0.is_empty() {
            return vec![None];
        }
        self.0.iter().map(|(n, v)| (*n >= asked).then_some(v)).collect()
    }
}
#[derive(Default)]
struct Model {
    boots: BTreeMap<H, (u64, Vec<u8>)>,
    updates: BTreeMap<u64, Vec<u8>>,
    finality: Latest,
    optimistic: Latest,
    sums: Latest,
    /// slot and header root of the newest header told of
    newest: u64,
    finalized: u64,
    longest: Vec<(H, H)>,
    /// which list was there at the start is not known
    unsure: bool,
}
impl Model {
    fn answers(&self, k: &Key) -> Vec<Option<Vec<u8>>> {
        match k {
            Key::Boot(h) => vec![self.boots.get(h).map(|x| x.1.clone())],
            Key::Range(s, n) => {
                let mut items = vec![];
                for i in 0..(*n).min(200) {
                    match s.checked_add(i).and_then(|p| self.updates.get(&p)) {
                        Some(v) => items.push(v.clone()),
                        None => return vec![None],
                    }
                }
                vec![(*n <= 128).then(|| oracle::ssz::var_list(&items))]
            }
            Key::Finality(s) => self.finality.answers(*s).into_iter().map(|v| v.cloned()).collect(),
            Key::Optimistic(s) => self.optimistic.answers(*s).into_iter().map(|v| v.cloned()).collect(),
            Key::Sums(s) => self.sums.answers(*s).into_iter().map(|v| v.cloned()).collect(),
        }
    }
    fn follow(&mut self, v: &[u8]) {
        let list = &v[4 + 8 + 4 + 192..];
        if list.len() / 64 > self.longest.len().max(EMBEDDED) {
            self.longest = list.chunks(64).map(|c| (c[..32].try_into().unwrap(), c[32..].try_into().unwrap())).collect();
        }
    }
    fn expire(&mut self, now: u64) -> usize {
        let n = self.boots.len();
        self.boots.retain(|_, (s, _)| *s + AGE >= now);
        n - self.boots.len()
    }
}
#[derive(Clone, Debug, Hash)]
enum Key {
    Boot(H),
    Range(u64, u64),
    Finality(u64),
    Optimistic(u64),
    Sums(u64),
}
impl Key {
    fn code(&self) -> BeaconContentKey {
        match self {
            Key::Boot(h) => things::of_boot(h),
            Key::Range(s, n) => things::of_range(*s, *n),
            Key::Finality(s) => things::of_finality(*s),
            Key::Optimistic(s) => things::of_optimistic(*s),
            Key::Sums(s) => things::of_summaries(*s),
        }
    }
}
fn wall_slot() -> u64 {
    (clock::wall() - Net::Mainnet.genesis_time()) / 12
}
/// Lets a long time pass at once.
async fn leap(secs: u64) {
    let d = Duration::from_secs(secs);
    clock::step(d);
    tokio::time::advance(d).await;
    clock::settle().await;
    clock::settle().await;
}

pub fn histories(ctx: &mut Ctx) {
    ctx.rule("what was stored is answered for its key and for no other until it expires, across restarts, and updates kept in memory are only ever answered when recent enough");
    rusqlite::hook::set(Some(Arc::new(|_: &str| (WORK.fetch_add(1, Ordering::Relaxed) > MUCH).then_some(9))));
    let mut rng = ctx.rng.fork("beacon keeping");
    for _ in 0..ctx.n(50, 400) {
        if ctx.saturated() {
            break;
        }
        let r = &mut rng;
        let now = Net::Mainnet.electra_slot() + 900_000 + r.below(1 << 20);
        clock::set(Net::Mainnet.time_of(now));
        let dir = Arc::new(Dir::new());
        let mut secret: [u8; 32] = r.array();
        secret[0] = secret[0].clamp(1, 0x7f);
        let mut m = Model::default();
        let lives = r.range(1, 4);
        for life in 0..lives {
            if ctx.saturated() {
                break;
            }
            fresh(r);
            clock::simulate(live(ctx, r, &mut m, secret, dir.clone()));
            if life + 1 < lives {
                m.unsure = false;
                ctx.event("restart");
                m.finality = Latest::default();
                m.optimistic = Latest::default();
                m.newest = 0;
                m.finalized = 0;
                m.longest.clear();
                match &m.sums.0[..] {
                    [] => {}
                    [(_, v)] => m.follow(&v.clone()),
                    _ => m.unsure = true,
                }
            }
        }
    }
    rusqlite::hook::set(None);
    for (k, n) in [
        ("answered", 100), ("absent", 100), ("restart", 10), ("expired", 5), ("outlived", 5), ("first-kept", 5), ("put-new", 20), ("put-known", 10), ("served", 10),
        ("summaries-after-restart", 2), ("head-seen", 10), ("long-range", 10), ("unreadable", 5),
    ] {
        ctx.require(k, n);
    }
}
async fn live(ctx: &mut Ctx, r: &mut Rng, m: &mut Model, secret: [u8; 32], dir: Arc<Dir>) {
    let config = portalnet::config::PortalnetConfig { private_key: secret.into(), ..Default::default() };
    let ground = Ground::again(&config, dir).await;
    // what is too old goes when the node starts, and once a day
    let begun = clock::now().as_secs();
    let mut next = begun + DAY;
    let node = start(ground, Some(r.array())).await;
    clock::settle().await;
    let gone = m.expire(wall_slot());
    if gone > 0 {
        ctx.event("expired");
    }
    let peer = node.node.peer(r).await;
    peer.behave();
    let chain = make::chain(r, Net::Mainnet, wall_slot() / PERIOD - 1, 3);
    let mut log: Vec<String> = vec![format!("start at slot {}", wall_slot())];
    if let Some((_, v)) = m.sums.0.first().filter(|_| m.sums.0.len() == 1) {
        // the list is known again from the start
        let n = (v.len() - 4 - 8 - 4 - 192) / 64;
        if n > EMBEDDED {
            let at = 4 + 8 + 4 + 192 + (n - 1) * 64;
            let last = CAPELLA + (n as u64 - 1) * 8192;
            let got = node.head.historical_summary(last).map(|s| (s.block_summary_root.0, s.state_summary_root.0));
            let want = Some((v[at..at + 32].try_into().unwrap(), v[at + 32..at + 64].try_into().unwrap()));
            ctx.check(got == want, "summaries-lost-at-restart", || j!({"entries": n}));
            ctx.event("summaries-after-restart");
        }
    }
    for _ in 0..r.range(15, 45) {
        if ctx.saturated() {
            return;
        }
        let now = wall_slot();
        WORK.store(0, Ordering::Relaxed);
        let what = r.below(20);
        let mut stored = None;
        if what < 9 {
            // something new
            let (k, v): (Key, Vec<u8>) = match r.below(6) {
                0 => {
                    let s = match r.below(4) {
                        0 if r.bool() => now - AGE + r.below(4),
                        0 => now - AGE + r.below(10_000),
                        1 => now - AGE - 1 - r.below(50_000),
                        _ => now - r.below(AGE),
                    };
                    let b = chain.boot(r, s);
                    (Key::Boot(b.head.root()), things::boot(&b))
                }
                1 => {
                    // of an earlier fork
                    let f = *r.pick(&FORKS[..3]);
                    let t = schema::lc_bootstrap(f);
                    let mut v = t.gen(r, 3);
                    let s = now - r.below(AGE);
                    set(&mut v, &[0, 0, 0], s);
                    (Key::Boot(schema::beacon_block_header().root(v.item(0).item(0))), things::versioned(f, t.ser(&v)))
                }
                2 => {
                    let from = now / PERIOD - 6 + r.below(8);
                    let n = r.range(1, 4);
                    let items: Vec<Vec<u8>> = (0..n)
                        .map(|_| {
                            let f = *r.pick(&[Fork::Electra, Fork::Electra, Fork::Deneb, Fork::Capella]);
                            let t = schema::lc_update(f);
                            let v = t.gen(r, 3);
                            things::versioned(f, t.ser(&v))
                        })
                        .collect();
                    (Key::Range(from, n), oracle::ssz::var_list(&items))
                }
                3 => {
                    let s = now - r.below(300);
                    let f = s - r.below(90);
                    let u = chain.update(r, s, Some(f), s + 1, false, 300);
                    (Key::Finality(u.finalized_slot()), things::update(&u))
                }
                4 => {
                    let s = now - r.below(20);
                    let u = chain.update(r, s, None, s + 1, false, 300);
                    (Key::Optimistic(u.signature_slot), things::update(&u))
                }
                _ => {
                    let epoch = now / 32 - r.below(40);
                    let n = if r.chance(1, 3) { 660 + r.usize_in(0, 40) } else { r.usize_in(0, 9) };
                    (Key::Sums(epoch), Sums::random(r, epoch, n).content())
                }
            };
            stored = Some((k, v));
        } else if what == 9 && !m.boots.is_empty() {
            // again, or something else in its place
            let (h, (_, v)) = m.boots.iter().nth(r.index(m.boots.len())).map(|(a, b)| (*a, b.clone())).unwrap();
            stored = Some((Key::Boot(h), v));
        }
        if let Some((k, v)) = stored {
            let code = k.code();
            log.push(format!("store {k:?}"));
            ctx.eval("store", &(hex(&secret), log.len(), hex(&code.to_bytes())));
            let before = m.answers(&k);
            let holds_some = match &k {
                Key::Range(s, n) => (*s..s + n).any(|p| m.updates.contains_key(&p)),
                _ => before.iter().any(|b| b.is_some()),
            };
            let value = BeaconContentValue::decode(&code, &v).expect("harness content");
            let by_put = r.bool();
            let got = call(ctx, &node, if by_put { Call::PutContent(code.clone(), value) } else { Call::Store(code.clone(), value) }, &log).await;
            let Some(got) = got else { return };
            let mut taken = true;
            if by_put {
                let kept = got.as_ref().ok().map(|v| v["storedLocally"].clone());
                taken = kept == Some(json!(true));
                let sure = before.len() == 1;
                let fits = if !holds_some { taken } else if sure && before[0].is_some() { !taken } else { kept.is_some() };
                if !ctx.check(fits, "put-answer-wrong", || j!({"history": log, "got": format!("{got:?}"), "held": holds_some})) {
                    return;
                }
                ctx.event(if taken { "put-new" } else { "put-known" });
            } else if !ctx.check(got == Ok(json!(true)), "content-not-stored", || j!({"history": log, "got": format!("{got:?}")})) {
                return;
            }
            if taken {
                note(ctx, m, &k, &v);
                if !heads(ctx, &node, m, &log) {
                    return;
                }
            }
            continue;
        }
        match what {
            10 => {
                // what cannot be read is not kept
                let k = match r.below(3) {
                    0 => Key::Finality(now),
                    1 => Key::Sums(now),
                    _ => Key::Range(now / PERIOD + 50, 1),
                };
                let ans = peer.ask(Request::Offer(ethportal_api::types::portal_wire::Offer { content_keys: vec![k.code().to_bytes()] })).await;
                let Some(Response::Accept(a)) = ans.as_deref().and_then(message) else {
                    ctx.violation("offer-not-answered", j!({"history": log}));
                    return;
                };
                log.push(format!("unreadable {k:?}"));
                let junk = r.bytes(40);
                let _ = peer.send_stream(u16::from_be(a.connection_id), crate::world::frame(&[junk]), true).await;
                clock::pass(Duration::from_secs(3)).await;
                ctx.event("unreadable");
            }
            11 | 12 => {
                let d = match r.below(3) {
                    0 => r.range(1, DAY - 1),
                    1 => next - clock::now().as_secs(),
                    _ => DAY * r.range(1, 9),
                };
                log.push(format!("{d} s pass"));
                leap(d).await;
                let held: Vec<_> = m.boots.keys().copied().collect();
                if clock::now().as_secs() >= next {
                    next = clock::now().as_secs() - (clock::now().as_secs() - begun) % DAY + DAY;
                    ctx.event(if m.expire(wall_slot()) > 0 { "expired" } else { "outlived" });
                } else {
                    ctx.event("outlived");
                }
                for h in held {
                    let gone = !m.boots.contains_key(&h);
                    if !gone && r.chance(2, 3) {
                        continue;
                    }
                    let Some(g) = call(ctx, &node, Call::LocalContent(Key::Boot(h).code()), &log).await else { return };
                    if !ctx.check(g.is_err() == gone, "expiry-wrong", || j!({"history": log, "gone": gone, "got": g.is_ok()})) {
                        return;
                    }
                }
            }
            _ => {
                let k = some_key(r, m, now);
                log.push(format!("get {k:?}"));
                ctx.eval("get", &(hex(&secret), log.len(), k.clone()));
                let want = m.answers(&k);
                if let Key::Range(_, n) = k {
                    if n > 128 {
                        ctx.event("long-range");
                    }
                }
                let by_wire = r.chance(1, 3);
                let got = if by_wire { served(&peer, &k).await } else {
                    let Some(g) = call(ctx, &node, Call::LocalContent(k.code()), &log).await else { return };
                    g.ok().and_then(|v| v.as_str().map(|s| vcommon::unhex(s.trim_start_matches("0x"))))
                };
                if WORK.load(Ordering::Relaxed) > MUCH {
                    ctx.violation("endless-lookup", j!({"history": log}));
                    return;
                }
                if !ctx.check(want.contains(&got), "answer-wrong", || j!({"history": log, "got": got.as_ref().map(|g| hex(&g[..g.len().min(60)])), "length": got.as_ref().map(|g| g.len()), "expected": want.iter().map(|w| w.as_ref().map(|g| (g.len(), hex(&g[..g.len().min(60)])))).collect::<Vec<_>>(), "by wire": by_wire})) {
                    return;
                }
                // an observed answer settles what is held
                let held = |l: &mut Latest| l.0.retain(|(_, v)| got.as_ref() == Some(v));
                match (&k, &got) {
                    (Key::Finality(_), Some(_)) => held(&mut m.finality),
                    (Key::Optimistic(_), Some(_)) => held(&mut m.optimistic),
                    (Key::Sums(_), Some(_)) => held(&mut m.sums),
                    (Key::Finality(s), None) => m.finality.0.retain(|x| x.0 < *s),
                    (Key::Optimistic(s), None) => m.optimistic.0.retain(|x| x.0 < *s),
                    (Key::Sums(s), None) => m.sums.0.retain(|x| x.0 < *s),
                    _ => {}
                }
                ctx.event(if got.is_some() { "answered" } else { "absent" });
                if by_wire && got.is_some() {
                    ctx.event("served");
                }
                // whether something would be taken, for keys that ask for much
                if let Key::Range(s, n) = k {
                    if n > 128 || s > 1 << 60 {
                        WORK.store(0, Ordering::Relaxed);
                        log.push(format!("offer {k:?}"));
                        let _ = peer.ask(Request::Offer(ethportal_api::types::portal_wire::Offer { content_keys: vec![k.code().to_bytes()] })).await;
                        if WORK.load(Ordering::Relaxed) > MUCH {
                            ctx.violation("endless-lookup", j!({"history": log}));
                            return;
                        }
                    }
                }
            }
        }
    }
    ctx.sample("life", || json!(log));
}
fn set(v: &mut schema::V, path: &[usize], n: u64) {
    match (v, path) {
        (schema::V::Items(l), [i, rest @ ..]) => set(&mut l[*i], rest, n),
        (v, _) => *v = schema::V::Raw(n.to_le_bytes().to_vec()),
    }
}
fn some_key(r: &mut Rng, m: &Model, now: u64) -> Key {
    match r.below(8) {
        0 | 1 if !m.boots.is_empty() => {
            let mut h = *m.boots.keys().nth(r.index(m.boots.len())).unwrap();
            if r.chance(1, 4) {
                h[r.index(32)] ^= 1;
            }
            Key::Boot(h)
        }
        2 | 3 => {
            let s = now / PERIOD - 7 + r.below(9);
            match r.below(6) {
                0 => Key::Range(if r.bool() { s } else { r.below(1 << 40) }, *r.pick(&[128, 129, 200, 5_000, 900_000, 1 << 33, u64::MAX])),
                1 => Key::Range(*r.pick(&[u64::MAX, u64::MAX - 1, 1 << 63, 0]), *r.pick(&[1, 2, 7, u64::MAX])),
                _ => Key::Range(s, r.range(1, 4)),
            }
        }
        4 => Key::Finality(near(r, &m.finality, now)),
        5 => Key::Optimistic(near(r, &m.optimistic, now)),
        6 => Key::Sums(near(r, &m.sums, now / 32)),
        _ => Key::Boot(r.array()),
    }
}
fn near(r: &mut Rng, l: &Latest, now: u64) -> u64 {
    let at = l.0.last().map_or(now, |x| x.0);
    match r.below(6) {
        0 => 0,
        1 => at + 1,
        2 => at - 1,
        3 => r.edgy_u64(),
        _ => at,
    }
}
async fn call(ctx: &mut Ctx, node: &Running, c: Call<BeaconContentKey, BeaconContentValue>, log: &[String]) -> Option<Result<Value, String>> {
    let got = node.node.call(c).await;
    if got.is_none() {
        ctx.violation("call-not-answered", j!({"history": log}));
    }
    got
}
/// What a peer that asks gets.
async fn served(peer: &Scripted, k: &Key) -> Option<Vec<u8>> {
    let ans = peer.ask(Request::FindContent(FindContent { content_key: k.code().to_bytes() })).await;
    match ans.as_deref().and_then(message) {
        Some(Response::Content(Content::Content(c))) => Some(c.to_vec()),
        Some(Response::Content(Content::ConnectionId(id))) => peer.read_stream(u16::from_be(id)).await.flatten().and_then(|b| unframe(&b)).and_then(|mut v| v.pop()),
        _ => None,
    }
}
/// The model after something was stored.
fn note(ctx: &mut Ctx, m: &mut Model, k: &Key, v: &[u8]) {
    let word = |at: usize| u64::from_le_bytes(v[at..at + 8].try_into().unwrap());
    match k {
        Key::Boot(h) => {
            // the slot leads the header, which the first offset points to
            let at = 4 + u32::from_le_bytes(v[4..8].try_into().unwrap()) as usize;
            let bellatrix = v[..4] == Fork::Bellatrix.digest();
            let slot = if bellatrix { word(4) } else { word(at) };
            m.boots.entry(*h).or_insert((slot, v.to_vec()));
        }
        Key::Range(s, n) => {
            let items = oracle::ssz::split_var_list(v, 128).expect("list");
            for i in 0..*n {
                if m.updates.contains_key(&(s + i)) {
                    ctx.event("first-kept");
                }
                m.updates.entry(s + i).or_insert(items[i as usize].clone());
            }
        }
        Key::Finality(s) => {
            m.finality.put(*s, v.to_vec());
            m.finalized = m.finalized.max(*s);
            // attested header is the first variable part
            let at = 4 + u32::from_le_bytes(v[4..8].try_into().unwrap()) as usize;
            m.newest = m.newest.max(word(at));
        }
        Key::Optimistic(s) => {
            m.optimistic.put(*s, v.to_vec());
            m.newest = m.newest.max(s - 1);
        }
        Key::Sums(s) => {
            m.sums.put(*s, v.to_vec());
            m.follow(v);
        }
    }
}
/// The head of the chain as the rest of the node sees it.
fn heads(ctx: &mut Ctx, node: &Running, m: &Model, log: &[String]) -> bool {
    let (newest, finalized) = (node.head.latest_beacon_header().slot, node.head.finalized_beacon_header().slot);
    let start = Net::Mainnet.electra_slot();
    ctx.event("head-seen");
    let ok = ctx.check(newest == m.newest.max(start) && finalized == m.finalized.max(start), "head-not-followed", || j!({"history": log, "newest": newest, "expected": m.newest, "finalized": finalized, "expected finalized": m.finalized}));
    if let (Some(l), n, false) = (m.longest.last(), m.longest.len() as u64, m.unsure) {
        let got = node.head.historical_summary(CAPELLA + (n - 1) * 8192).map(|s| (s.block_summary_root.0, s.state_summary_root.0));
        return ok && ctx.check(got == Some(*l), "summaries-not-followed", || j!({"history": log, "entries": n}));
    }
    ok
}
