//! C04: a running node finds its way to the head of the chain and stays there.
use std::{
    collections::HashMap,
    sync::{Arc, Mutex},
    time::Duration,
};

use ethportal_api::{
    types::{
        distance::Distance,
        jsonrpc::endpoints::BeaconEndpoint,
        portal_wire::{Content, Offer, Request, Response},
    },
    OverlayContentKey,
};
use oracle::lc::{period, Chain, Store, Update, PERIOD};
use vcommon::{hex, json, Ctx, Rng, Value};

use crate::{
    clock,
    make::{self, Net},
    serve::{start, Running},
    sub::{Call, Dir, Ground},
    things,
    world::{frame, fresh, message, polite, Act, Scripted},
};

const NET: Net = Net::Mainnet;
/// How long an answer may take that needs nothing from others.
const PROMPT: Duration = Duration::from_secs(5);

/// What the rest of the network has.
#[derive(Default)]
struct Shelf {
    exact: HashMap<Vec<u8>, Vec<u8>>,
    finality: Option<(u64, Vec<u8>)>,
    /// by signature slot
    optimistic: HashMap<u64, Vec<u8>>,
}
impl Shelf {
    fn find(&self, key: &[u8]) -> Option<Vec<u8>> {
        let slot = || u64::from_le_bytes(key[1..9].try_into().unwrap());
        match key[0] {
            0x12 => self.finality.as_ref().filter(|f| f.0 >= slot()).map(|f| f.1.clone()),
            0x13 => self.optimistic.get(&slot()).cloned(),
            _ => self.exact.get(key).cloned(),
        }
    }
}
type Shared = Arc<Mutex<Shelf>>;

fn library(p: &Scripted, shelf: &Shared) {
    let shelf = shelf.clone();
    p.think(move |q| match q {
        Request::FindContent(f) => match shelf.lock().unwrap().find(&f.content_key) {
            Some(v) if v.len() < 1000 => Act::Reply(Response::Content(Content::Content(v.into()))),
            Some(v) => Act::Serve(frame(&[v])),
            None => polite(Distance::MAX, 1, q),
        },
        _ => polite(Distance::MAX, 1, q),
    });
}
fn slot_now() -> u64 {
    (clock::wall() - NET.genesis_time()) / 12
}
/// Waits until `secs` into the slot, or of the next one.
async fn until(secs: u64) {
    let at = (clock::wall() - NET.genesis_time()) % 12;
    clock::pass(Duration::from_secs((secs + 12 - at) % 12)).await;
}
/// Offers content to the node and sends it if wanted.
async fn gossip(p: &Scripted, key: Vec<u8>, value: Vec<u8>) -> bool {
    let Some(a) = p.ask(Request::Offer(Offer { content_keys: vec![key.into()] })).await else { return false };
    let Some(Response::Accept(a)) = message(&a) else { return false };
    if a.content_keys.first() != Some(&0) {
        return false;
    }
    p.send_stream(u16::from_be(a.connection_id), frame(&[value]), true).await;
    true
}
struct World {
    chain: Chain,
    shelf: Shared,
    model: Store,
    /// the updates that carry the next committee
    full: HashMap<u64, Update>,
    /// the finality update the node has at hand
    finality: Option<Update>,
    log: Vec<String>,
}
impl World {
    fn full_update(&mut self, r: &mut Rng, attested: u64) {
        let n = 380 + r.usize_in(0, 132);
        let f = attested.saturating_sub(64 + r.below(32)).max(period(attested) * PERIOD);
        let u = self.chain.update(r, attested, Some(f), attested + 1, true, n);
        self.shelf.lock().unwrap().exact.insert(things::of_range(period(attested), 1).to_bytes().to_vec(), things::range(&[u.clone()]));
        self.full.insert(period(attested), u);
    }
    /// What a round of following does to the state, given the newest optimistic update if it can be had.
    fn advance(&mut self, optimistic: Option<&Update>, now: u64) {
        if let Some(f) = &self.finality {
            if self.model.refuses(&self.chain.rules, f, now).is_some() {
                return;
            }
            self.model.apply(f);
        }
        let Some(o) = optimistic else { return };
        if self.model.refuses(&self.chain.rules, o, now).is_some() {
            return;
        }
        self.model.apply(o);
        if self.model.next.is_none() {
            if let Some(u) = self.full.get(&period(self.model.finalized.slot)) {
                if self.model.refuses(&self.chain.rules, u, now).is_none() {
                    self.model.apply(u);
                }
            }
        }
    }
}

pub fn heads(ctx: &mut Ctx) {
    ctx.rule("a node given a trusted block and peers that have the chain's light client data reaches the head, follows it slot by slot, adopts nothing forged and answers questions about it at any time");
    ctx.level("random chains, positions, peers and forgeries over tens of slots");
    let mut rng = ctx.rng.fork("beacon following");
    for _ in 0..ctx.n(60, 700) {
        if ctx.saturated() {
            break;
        }
        let r = &mut rng;
        let here = NET.electra_slot() / PERIOD + 110 + r.below(400);
        let into = match r.below(3) {
            0 => PERIOD - 2 - r.below(12),
            1 => 60 + r.below(12),
            _ => r.below(PERIOD),
        };
        let now = here * PERIOD + into;
        clock::set(NET.time_of(now) + r.below(7));
        let back = r.below(4);
        let chain = make::chain(r, NET, here - back, back as usize + 4);
        let at = if back == 0 { here * PERIOD + r.below(into + 1) } else { make::slot_in(r, here - back) };
        let dir = Arc::new(Dir::new());
        let mut secret: [u8; 32] = r.array();
        secret[0] = secret[0].clamp(1, 0x7f);
        let boot = chain.boot(r, at);
        let mut w = World { model: Store::boot(&boot), chain, shelf: Shared::default(), full: HashMap::new(), finality: None, log: vec![] };
        w.shelf.lock().unwrap().exact.insert(things::of_boot(&boot.head.root()).to_bytes().to_vec(), things::boot(&boot));
        for p in here - back..here {
            let a = make::slot_in(r, p).clamp(p * PERIOD + 100, (p + 1) * PERIOD - 3);
            w.full_update(r, a);
        }
        if into > 200 {
            let a = here * PERIOD + 101 + r.below(into - 150);
            w.full_update(r, a);
        }
        let lives = r.range(1, 2);
        for life in 0..lives {
            if ctx.saturated() {
                break;
            }
            fresh(r);
            // afterwards the node knows by itself where to begin
            let trusted = (life == 0).then(|| boot.head.root());
            if life > 0 {
                ctx.event("again");
                w.model = Store::boot(&boot);
                w.finality = None;
                w.shelf.lock().unwrap().finality = None;
                w.log.push("restart".into());
            }
            clock::simulate(follow(ctx, r, &mut w, secret, dir.clone(), trusted, life > 0));
        }
    }
    for (k, n) in [("reached", 8), ("again", 2), ("followed", 50), ("skipped", 5), ("finality-followed", 10), ("forged", 20), ("asked", 200), ("committee-changed", 1), ("asked-during-round", 20), ("update-told", 10)] {
        ctx.require(k, n);
    }
}
async fn follow(ctx: &mut Ctx, r: &mut Rng, w: &mut World, secret: [u8; 32], dir: Arc<Dir>, trusted: Option<[u8; 32]>, again: bool) {
    let config = portalnet::config::PortalnetConfig { private_key: secret.into(), ..Default::default() };
    let node = start(Ground::again(&config, dir).await, trusted).await;
    let mut peers = vec![];
    for _ in 0..r.range(2, 4) {
        let p = node.node.peer(r).await;
        library(&p, &w.shelf);
        peers.push(p);
    }
    let rogue = node.node.peer(r).await;
    rogue.behave();
    // nothing is known before the first peer is
    let early = node.ask(BeaconEndpoint::FinalizedHeader, PROMPT).await;
    if !again {
        ctx.check(matches!(early, Some(Err(_))), "head-known-without-peers", || j!({"got": format!("{early:?}")}));
    }
    for p in &peers {
        let _ = node.node.call(Call::AddEnr(p.enr.clone())).await;
    }
    // the chain goes on while the node looks for its head
    let mut rounds = 0;
    let newest = loop {
        if slot_now() % 4 == 0 && r.chance(1, 3) {
            clock::pass(Duration::from_secs(1)).await;
        }
        let s = slot_now();
        let n = 400 + r.usize_in(0, 112);
        // published when its slot begins
        let o = w.chain.update(r, s - 1, None, s, false, n);
        w.shelf.lock().unwrap().optimistic.insert(s, things::update(&o));
        if rounds == 0 {
            let f = (s - 1).saturating_sub(70 + r.below(30));
            let u = w.chain.update(r, s - 2, Some(f), s - 1, false, n);
            if w.model.refuses(&w.chain.rules, &u, s).is_none() || period(f) > period(w.model.finalized.slot) {
                w.shelf.lock().unwrap().finality = Some((f, things::update(&u)));
                w.finality = Some(u);
            }
        }
        until(11).await;
        rounds += 1;
        if let Some(Ok(_)) = node.ask(BeaconEndpoint::LightClientStore, PROMPT).await {
            break o;
        }
        if rounds > 12 {
            ctx.violation("head-not-reached", j!({"history": w.log, "slot": s, "bootstrap": w.model.finalized.slot, "finality": w.finality.as_ref().map(|f| f.finalized_slot())}));
            return;
        }
        clock::pass(Duration::from_secs(1)).await;
    };
    let s = slot_now();
    // the sync, and the first round right after it
    for p in period(w.model.finalized.slot)..period(s) {
        let u = w.full[&p].clone();
        if w.model.refuses(&w.chain.rules, &u, s).is_none() {
            w.model.apply(&u);
        }
    }
    w.advance(Some(&newest), s);
    w.advance(Some(&newest), s);
    w.log.push(format!("reached at slot {s} after {rounds}"));
    if !told(ctx, &node, w, Some(&newest)).await {
        return;
    }
    ctx.event("reached");
    let mut seen = newest;
    let before = w.model.current.root;
    for _ in 0..r.range(4, 14) {
        until(0).await;
        let s = slot_now();
        ctx.eval("slot", &(hex(&secret), s, w.log.len()));
        if s % PERIOD > 200 && !w.full.contains_key(&period(s)) {
            w.full_update(r, s - 2);
        }
        let missing = r.chance(1, 6);
        let n = if r.chance(1, 8) { r.usize_in(1, 300) } else { 400 + r.usize_in(0, 112) };
        let o = w.chain.update(r, s - 1, None, s, false, n);
        // forged news, handed around and as answers
        if r.chance(1, 2) {
            ctx.event("forged");
            let finality = r.bool();
            let f = s - 40 - r.below(60);
            let mut u = w.chain.update(r, s - 1, finality.then_some(f), s, false, 511);
            let how = r.index(make::SPOILS);
            make::spoil(r, &w.chain, &mut u, how);
            if w.model.refuses(&w.chain.rules, &u, s).is_some() && u.finalized.is_some() == finality {
                let key = if finality { things::of_finality(u.finalized_slot()) } else { things::of_optimistic(u.signature_slot) };
                let wanted = gossip(&rogue, key.to_bytes().to_vec(), things::update(&u)).await;
                w.log.push(format!("slot {s}: forged {how} finality {finality} wanted {wanted}"));
            }
        }
        // news of finality
        if r.chance(1, 3) {
            let f = (s - 66 - r.below(20)).max(w.finality.as_ref().map_or(0, |f| f.finalized_slot() + 1));
            if f < s - 1 {
                let n = 400 + r.usize_in(0, 112);
                let u = w.chain.update(r, s - 1, Some(f), s, false, n);
                let good = w.model.refuses(&w.chain.rules, &u, s).is_none();
                let wanted = gossip(&peers[0], things::of_finality(f).to_bytes().to_vec(), things::update(&u)).await;
                w.log.push(format!("slot {s}: finality {f} good {good} wanted {wanted}"));
                if good && !ctx.check(wanted, "finality-not-wanted", || j!({"history": w.log})) {
                    return;
                }
                if good {
                    w.finality = Some(u);
                    ctx.event("finality-followed");
                }
            }
        }
        if !missing {
            if r.chance(1, 3) {
                let wanted = gossip(&peers[0], things::of_optimistic(s).to_bytes().to_vec(), things::update(&o)).await;
                w.log.push(format!("slot {s}: optimistic handed over, wanted {wanted}"));
            }
            w.shelf.lock().unwrap().optimistic.insert(s, things::update(&o));
        }
        if slot_now() != s {
            // handing over took too long to say what the round saw
            ctx.inconclusive("a transfer took more than a slot");
            return;
        }
        // questions at any time, also while the node is busy with its round
        for at in [6, 8, 8, 9] {
            let here = (clock::wall() - NET.genesis_time()) % 12;
            if at > here {
                clock::pass(Duration::from_secs(at - here)).await;
            }
            if at == 8 {
                tokio::task::yield_now().await;
                ctx.event("asked-during-round");
            }
            if !ask(ctx, r, &node, w).await {
                return;
            }
        }
        until(11).await;
        let o = (!missing).then_some(&o);
        w.advance(o, s);
        w.log.push(format!("slot {s}: {}", if missing { "nothing".into() } else { format!("{n} signers") }));
        if let Some(o) = o {
            seen = o.clone();
        }
        if !told(ctx, &node, w, Some(&seen)).await {
            return;
        }
        ctx.event(if missing { "skipped" } else { "followed" });
        if w.model.current.root != before {
            ctx.event("committee-changed");
        }
        clock::pass(Duration::from_secs(1)).await;
    }
    ctx.sample("history", || json!(w.log));
}
/// Any question is answered at once.
async fn ask(ctx: &mut Ctx, r: &mut Rng, node: &Running, w: &World) -> bool {
    ctx.event("asked");
    let what = r.below(6);
    let (name, q) = match what {
        0 => ("store", BeaconEndpoint::LightClientStore),
        1 => ("finalized header", BeaconEndpoint::FinalizedHeader),
        2 => ("finalized state root", BeaconEndpoint::FinalizedStateRoot),
        3 => ("optimistic state root", BeaconEndpoint::OptimisticStateRoot),
        4 => ("finality update", BeaconEndpoint::FinalityUpdate),
        _ => ("optimistic update", BeaconEndpoint::OptimisticUpdate),
    };
    let a = node.ask(q, PROMPT).await;
    if !ctx.check(a.is_some(), "question-not-answered", || j!({"history": w.log, "question": name, "second of slot": (clock::wall() - NET.genesis_time()) % 12})) {
        return false;
    }
    if let (4, Some(Ok(v)), Some(f)) = (what, &a, &w.finality) {
        ctx.event("update-told");
        let want = json!(ethportal_api::light_client::finality_update::LightClientFinalityUpdate::Electra(make::finality(f)));
        return ctx.check(v == &want, "told-another-finality-update", || j!({"history": w.log, "got": v.to_string().chars().take(500).collect::<String>(), "expected": f.finalized_slot()}));
    }
    true
}
/// Compares all the node says about the head with the model.
async fn told(ctx: &mut Ctx, node: &Running, w: &World, newest: Option<&Update>) -> bool {
    let want = json!(make::store(&w.model));
    let mut say: Vec<(&str, Option<Result<Value, String>>, Value)> = vec![];
    say.push(("finalized header", node.ask(BeaconEndpoint::FinalizedHeader, PROMPT).await, want["finalized_header"].clone()));
    say.push(("finalized state root", node.ask(BeaconEndpoint::FinalizedStateRoot, PROMPT).await, json!(format!("0x{}", hex(&w.model.finalized.state)))));
    say.push(("store", node.ask(BeaconEndpoint::LightClientStore, PROMPT).await, want));
    let lag = slot_now() - w.model.optimistic.slot;
    if lag <= 10 {
        say.push(("optimistic state root", node.ask(BeaconEndpoint::OptimisticStateRoot, PROMPT).await, json!(format!("0x{}", hex(&w.model.optimistic.state)))));
    }
    for (name, got, want) in say {
        let Some(got) = got else {
            ctx.violation("question-not-answered", j!({"history": w.log, "question": name}));
            return false;
        };
        let short = |v: &Value| v.to_string().chars().take(700).collect::<String>();
        if !ctx.check(got.as_ref() == Ok(&want), &format!("{}-wrong", name.replace(' ', "-")), || {
            let parts = |v: &Value| {
                let part = |k: &str| v.get(k).map_or("".into(), |x| short(&x.get("slot").cloned().unwrap_or(x.clone())));
                ["finalized_header", "optimistic_header", "previous_max_active_participants", "current_max_active_participants"].map(part)
            };
            j!({"history": w.log, "slot": slot_now(), "got": got.as_ref().map(parts), "expected": parts(&want), "raw": got.as_ref().map(short)})
        }) {
            return false;
        }
    }
    // the rest of the node sees the same head
    if let Some(o) = newest {
        let n = node.head.latest_beacon_header().slot;
        let f = node.head.finalized_beacon_header().slot;
        let fin = w.finality.as_ref().map_or(0, |f| f.finalized_slot());
        return ctx.check(n >= o.attested.slot && f >= fin, "head-not-passed-on", || j!({"history": w.log, "newest": n, "expected": o.attested.slot, "finalized": f, "expected finalized": fin}));
    }
    true
}
