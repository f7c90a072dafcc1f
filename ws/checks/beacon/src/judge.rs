//! C01: which contents are accepted for a key, given what the node's light client knows.
use std::sync::{Arc, Mutex};

use ethportal_api::{
    types::jsonrpc::{endpoints::BeaconEndpoint, request::BeaconJsonRpcRequest},
    BeaconContentKey, OverlayContentKey,
};
use oracle::{
    lc::{period, Head, Store, PERIOD},
    schema::{self, Fork, V},
    H,
};
use tokio::sync::{mpsc, RwLock};
use trin_beacon::validation::BeaconValidator;
use trin_validation::{
    oracle::HeaderOracle,
    validator::{ValidationResult, Validator},
};
use vcommon::{hex, json, Ctx, Rng, Value};

use crate::{
    clock,
    make::{self, Net},
    things::{self, Sums},
};

/// What the node's light client says when asked.
#[derive(Clone, Default)]
struct Known {
    header: Option<Value>,
    store: Option<Value>,
    state: Option<Value>,
    /// how it does not answer
    mute: u64,
}
type Told = Arc<Mutex<Known>>;

fn oracle(told: Told) -> Arc<RwLock<HeaderOracle>> {
    let (tx, mut rx) = mpsc::unbounded_channel::<BeaconJsonRpcRequest>();
    tokio::spawn(async move {
        while let Some(q) = rx.recv().await {
            let k = told.lock().unwrap().clone();
            let a = match &q.endpoint {
                BeaconEndpoint::FinalizedHeader => k.header,
                BeaconEndpoint::LightClientStore => k.store,
                BeaconEndpoint::FinalizedStateRoot => k.state,
                _ => None,
            };
            match (a, k.mute) {
                (Some(v), _) => drop(q.resp.send(Ok(v))),
                (None, 0) => drop(q.resp.send(Err("Beacon client not initialized".into()))),
                (None, 1) => drop(q.resp.send(Ok(json!("nothing")))),
                _ => drop(q),
            }
        }
    });
    Arc::new(RwLock::new(HeaderOracle { beacon_jsonrpc_tx: Some(tx), ..Default::default() }))
}
struct Judge<'a> {
    ctx: &'a mut Ctx,
    with: BeaconValidator,
    alone: BeaconValidator,
    told: Told,
}
impl Judge<'_> {
    /// `want`: why it has to be refused, if so.
    async fn ask(&mut self, known: Option<&Known>, key: &BeaconContentKey, content: &[u8], want: Option<&str>, about: &str) {
        let v = match known {
            Some(k) => {
                *self.told.lock().unwrap() = k.clone();
                &self.with
            }
            None => &self.alone,
        };
        let got = v.validate_content(key, content).await;
        let kind = ["bootstrap", "updates", "finality", "optimistic", "summaries"][(key.to_bytes()[0] - 0x10) as usize % 5];
        self.ctx.eval(kind, &(key.to_bytes().to_vec(), content));
        self.ctx.event(&format!("{kind}-{}", if want.is_some() { "refused" } else { "accepted" }));
        if let Some(w) = want {
            self.ctx.event(&format!("{kind}: {w}"));
        }
        let what = || j!({"key": hex(&key.to_bytes()), "expected": want, "answer": format!("{got:?}").chars().take(300).collect::<String>(), "case": about, "content": hex(&content[..content.len().min(200)])});
        match want {
            None => {
                self.ctx.check(got == ValidationResult::CanonicallyValid, &format!("valid-{kind}-refused"), what);
            }
            Some(w) => {
                self.ctx.check(!got.is_valid(), &format!("{kind}-accepted-though-{}", w.replace(' ', "-")), what);
            }
        }
        self.ctx.sample(kind, || json!({"expected": want, "about": about}));
    }
}
const AGE: u64 = 120 * 24 * 3600 / 12;
fn flip(r: &mut Rng, h: &mut H) {
    let i = r.index(32);
    h[i] ^= 1 << r.below(8);
}
fn state_of(j: &mut Known, s: &Store) {
    j.store = Some(json!(make::store(s)));
}

pub fn contents(ctx: &mut Ctx) {
    ctx.rule("content is accepted for a key exactly when it can be read, answers the key and agrees with what the light client has verified so far");
    let mut rng = ctx.rng.fork("beacon contents");
    for _ in 0..ctx.n(120, 1200) {
        if ctx.saturated() {
            break;
        }
        let r = &mut rng;
        clock::simulate(world(ctx, r));
    }
    for k in ["bootstrap", "updates", "finality", "optimistic", "summaries"] {
        ctx.require(&format!("{k}-accepted"), 20);
        ctx.require(&format!("{k}-refused"), 20);
        ctx.require(&format!("{k}: unreadable"), 5);
    }
    for k in ["too old", "other block", "committee unproven", "execution unproven", "not finalized"] {
        ctx.require(&format!("bootstrap: {k}"), 5);
    }
    for k in ["wrong number", "wrong period", "unverifiable", "signature wrong", "committee unproven", "finality unproven", "execution unproven"] {
        ctx.require(&format!("updates: {k}"), 3);
    }
    for k in ["other fork", "older than asked", "signature wrong", "finality unproven", "execution unproven"] {
        ctx.require(&format!("finality: {k}"), 3);
    }
    for k in ["other fork", "other slot", "signature wrong", "execution unproven"] {
        ctx.require(&format!("optimistic: {k}"), 3);
    }
    for k in ["other epoch", "unproven"] {
        ctx.require(&format!("summaries: {k}"), 5);
    }
}

async fn world(ctx: &mut Ctx, r: &mut Rng) {
    let net = Net::Mainnet;
    let first = net.electra_slot() / PERIOD + r.below(900);
    let chain = make::chain(r, net, first, 5);
    let here = first + 1;
    let slot = make::slot_in(r, here);
    let at = chain.boot(r, slot);
    let mut store = Store::boot(&at);
    if r.chance(2, 3) {
        store.next = Some(chain.committee(here + 1));
    }
    let told = Told::default();
    let with = BeaconValidator::new(oracle(told.clone()));
    let alone = BeaconValidator::new(Arc::new(RwLock::new(HeaderOracle::new())));
    let mut j = Judge { ctx, with, alone, told };
    let plain = |r: &mut Rng| Known { mute: r.below(3), ..Default::default() };

    for _ in 0..12 {
        // bootstraps
        let mut b = if r.bool() { at.clone() } else { { let s = make::slot_in(r, here); chain.boot(r, s) } };
        let mut why = None;
        let how = r.below(10);
        match how {
            0 => b.committee = b.committee.altered(r),
            1 => {
                let i = r.index(b.branch.len());
                flip(r, &mut b.branch[i]);
            }
            2 => {
                let other = chain.committee(here + 1);
                b.committee = other;
            }
            3 => {
                let i = r.index(b.head.execution_branch.len());
                flip(r, &mut b.head.execution_branch[i]);
            }
            4 => b.head.execution = Head::new(r, b.head.slot, b.head.state).execution,
            _ => {}
        }
        if !b.committee_proven() {
            why = Some("committee unproven");
        }
        if !b.head.execution_proven() {
            why = Some("execution unproven");
        }
        let root = b.head.root();
        let mut named = root;
        match r.below(6) {
            0 if r.bool() => named[*r.pick(&[0, 31])] ^= 1 << r.below(8),
            0 => flip(r, &mut named),
            1 if how > 5 => named = *r.pick(&[b.head.parent, b.head.state, b.head.body, [0; 32]]),
            _ => {}
        }
        if named != root {
            why = Some("other block");
        }
        let now = match r.below(6) {
            0 => b.head.slot + AGE,
            1 => b.head.slot + AGE + 1 + r.below(3),
            2 => b.head.slot + AGE + r.below(1 << 22),
            3 => b.head.slot,
            _ => b.head.slot + r.below(AGE),
        };
        if now > b.head.slot + AGE {
            why = Some("too old");
        }
        clock::set(net.time_of(now) + r.below(12));
        let mut known = plain(r);
        let mut finalized = b.head.clone();
        if r.chance(2, 3) {
            match r.below(4) {
                0 => finalized = Head::new(r, b.head.slot, b.head.state),
                1 => flip(r, &mut finalized.parent),
                _ => {}
            }
            known.header = Some(json!(make::header(&finalized)));
            if finalized.beacon() != b.head.beacon() {
                why = Some("not finalized");
            }
        }
        let mut content = things::boot(&b);
        if r.chance(1, 8) {
            content = if r.bool() { things::break_bytes(r, &content) } else { things::versioned(*r.pick(&[Fork::Deneb, Fork::Capella, Fork::Bellatrix]), b.ssz()) };
            why = Some("unreadable");
        }
        let lone = known.header.is_none() && r.bool();
        j.ask((!lone).then_some(&known), &things::of_boot(&named), &content, why, &format!("bootstrap {how} now {now} slot {}", b.head.slot)).await;
    }
    for _ in 0..14 {
        // updates, against a store or without one
        let kind = r.below(3);
        let mut known = plain(r);
        let knows = r.chance(3, 4);
        if knows {
            state_of(&mut known, &store);
        }
        let n = if kind == 0 { r.usize_in(1, 3) } else { 1 };
        let start = if r.chance(1, 5) { here - 1 + r.below(3) } else { here };
        let mut list = vec![];
        for i in 0..n {
            let p = start + i as u64;
            let attested = if p == here { (store.finalized.slot + 1 + r.below(300)).min((here + 1) * PERIOD - 2) } else { make::slot_in(r, p).min((p + 1) * PERIOD - 2) };
            let f = (kind < 2).then(|| attested.saturating_sub(r.below(100)));
            let take = make::participants(r);
            list.push(chain.update(r, attested, f, attested + 1, kind == 0, take));
        }
        let mut how = 99;
        if r.chance(1, 6) {
            let i = r.index(n);
            let head = match &mut list[i].finalized {
                Some(f) if r.bool() => &mut f.0,
                _ => &mut list[i].attested,
            };
            if r.bool() {
                head.execution = Head::new(r, head.slot, head.state).execution;
            } else {
                let i = r.index(head.execution_branch.len());
                flip(r, &mut head.execution_branch[i]);
            }
        } else if r.chance(3, 5) {
            how = r.index(make::SPOILS);
            let i = r.index(n);
            make::spoil(r, &chain, &mut list[i], how);
        }
        let last = list.iter().map(|u| u.signature_slot).max().unwrap();
        let now = if r.chance(1, 6) { last.saturating_sub(1) } else { last.saturating_add(r.below(2000)) };
        clock::set(net.time_of(now) + r.below(12));
        let refused = list.iter().find_map(|u| store.refuses(&chain.rules, u, now));
        let about = format!("kind {kind} n {n} spoil {how} now {now} store {} knows {knows} next {} attested {:?}", store.finalized.slot, store.next.is_some(), list.iter().map(|u| u.attested.slot).collect::<Vec<_>>());
        let mut why = if knows { refused } else { None };
        if !list.iter().all(|u| u.executions_proven()) {
            if kind == 0 && !knows {
                // the whole list waits for the light client
                continue;
            }
            why = why.or(Some("execution unproven"));
        }
        let lone = !knows && r.bool();
        let (key, mut content) = match kind {
            0 => {
                let mut from = start;
                if r.chance(1, 4) {
                    from = from.wrapping_add(*r.pick(&[1, u64::MAX, 4]));
                }
                if knows && why.is_none() && list.iter().enumerate().any(|(i, u)| period(u.attested.slot) != from.wrapping_add(i as u64)) {
                    why = Some("wrong period");
                }
                let mut count = n as u64;
                if r.chance(1, 6) {
                    count = *r.pick(&[count + 1, count - 1, 128, 1 << 40, u64::MAX]);
                    why = Some("wrong number");
                }
                (things::of_range(from, count), things::range(&list))
            }
            1 => {
                let f = list[0].finalized_slot();
                let asked = match r.below(5) {
                    0 => f.saturating_add(1 + r.below(3)),
                    1 => 0,
                    2 => f.saturating_sub(1),
                    3 => *r.pick(&[f, u64::MAX]),
                    _ => f,
                };
                if asked > f {
                    why = Some("older than asked");
                }
                (things::of_finality(asked), things::update(&list[0]))
            }
            _ => {
                let s = list[0].signature_slot;
                let asked = if r.chance(1, 3) { *r.pick(&[s + 1, s - 1, 0, list[0].attested.slot]) } else { s };
                if asked != s {
                    why = Some("other slot");
                }
                (things::of_optimistic(asked), things::update(&list[0]))
            }
        };
        if r.chance(1, 8) {
            content = things::break_bytes(r, &content);
            why = Some("unreadable");
        }
        j.ask((!lone).then_some(&known), &key, &content, why, &about).await;
    }
    for _ in 0..4 {
        // contents of earlier forks
        let f = *r.pick(&[Fork::Bellatrix, Fork::Capella, Fork::Deneb]);
        let mut known = plain(r);
        state_of(&mut known, &store);
        let get = |v: &V, path: &[usize]| {
            let mut v = v.clone();
            for i in path {
                v = v.item(*i).clone();
            }
            u64::from_le_bytes(v.raw().try_into().unwrap())
        };
        match r.below(4) {
            0 => {
                let t = schema::lc_finality_update(f);
                let v = t.gen(r, 4);
                let slot = get(&v, &[1, 0, 0]);
                let known = r.bool().then_some(known);
                j.ask(known.as_ref(), &things::of_finality(slot), &things::versioned(f, t.ser(&v)), Some("other fork"), "earlier finality").await;
            }
            1 => {
                let t = schema::lc_optimistic_update(f);
                let v = t.gen(r, 4);
                let slot = get(&v, &[2]);
                let known = r.bool().then_some(known);
                j.ask(known.as_ref(), &things::of_optimistic(slot), &things::versioned(f, t.ser(&v)), Some("other fork"), "earlier optimistic").await;
            }
            2 => {
                let t = schema::lc_update(f);
                let v = t.gen(r, 4);
                let slot = get(&v, &[0, 0, 0]);
                let item = things::versioned(f, t.ser(&v));
                j.ask(Some(&known), &things::of_range(period(slot), 1), &oracle::ssz::var_list(&[item]), Some("unverifiable"), "earlier update").await;
            }
            _ => {
                // nothing proves a random committee
                let t = schema::lc_bootstrap(f);
                let v = t.gen(r, 4);
                let slot = get(&v, &[0, 0, 0]);
                let root = schema::beacon_block_header().root(v.item(0).item(0));
                clock::set(net.time_of(here * PERIOD));
                let why = if slot.saturating_add(AGE) < here * PERIOD { "too old" } else { "committee unproven" };
                j.ask(None, &things::of_boot(&root), &things::versioned(f, t.ser(&v)), Some(why), "earlier bootstrap").await;
            }
        }
    }
    for _ in 0..8 {
        let epoch = match r.below(4) {
            0 => r.edgy_u64(),
            _ => slot / 32,
        };
        let n = r.usize_in(0, 12);
        let s = Sums::random(r, epoch, n);
        let mut given = s.clone();
        let mut why = None;
        match r.below(6) {
            0 => {
                let i = r.index(6);
                flip(r, &mut given.proof[i]);
            }
            1 => given.proof.swap(0, 1),
            2 if n > 0 => {
                let i = r.index(n);
                flip(r, &mut given.list[i].1);
            }
            3 => given.list.push((r.array(), r.array())),
            4 if n > 0 => {
                given.list.pop();
            }
            _ => {}
        }
        let mut known = plain(r);
        if r.chance(3, 4) {
            known.state = Some(json!(format!("0x{}", hex(&s.state()))));
            if given.state() != s.state() {
                why = Some("unproven");
            }
        }
        let asked = if r.chance(1, 4) { *r.pick(&[epoch.wrapping_add(1), epoch.wrapping_sub(1), 0]) } else { epoch };
        if asked != epoch {
            why = Some("other epoch");
        }
        let mut content = given.content();
        if r.chance(1, 8) {
            content = if r.bool() { things::break_bytes(r, &content) } else { [&[1u8, 2, 3, 4][..], &content[4..]].concat() };
            why = Some("unreadable");
        }
        let lone = known.state.is_none() && r.bool();
        j.ask((!lone).then_some(&known), &things::of_summaries(asked), &content, why, "summaries").await;
    }
}
