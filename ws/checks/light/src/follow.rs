//! L02: what following a chain does to the store, over whole histories.
use std::sync::Arc;

use light_client::consensus::ConsensusLightClient;
use oracle::lc::{period, Boot, Chain, Store, Update, PERIOD};
use vcommon::{json, Ctx, Rng};

use crate::{
    clock,
    make::{self, Net, Said, Source},
};

/// The model of one client: the store the protocol prescribes and what was last announced.
struct Model {
    store: Store,
    checkpoint: Option<[u8; 32]>,
    told: [Option<Vec<u8>>; 3],
}
impl Model {
    fn take(&mut self, chain: &Chain, u: &Update, now: u64) -> Result<(), &'static str> {
        if let Some(why) = self.store.refuses(&chain.rules, u, now) {
            return Err(why);
        }
        let (f, o) = (self.store.finalized.slot, self.store.optimistic.slot);
        self.store.apply(u);
        let (fin, opt) = (self.store.finalized.slot > f, self.store.optimistic.slot > o);
        let (lane, moved) = match (u.next.is_some(), u.finalized.is_some()) {
            (true, _) => (0, fin || opt),
            (_, true) => (1, fin || opt),
            _ => (2, opt),
        };
        if moved {
            self.told[lane] = Some(u.ssz());
        }
        if fin && self.store.finalized.slot % 32 == 0 {
            self.checkpoint = Some(self.store.finalized.root());
        }
        Ok(())
    }
}

struct Offer {
    finality: Option<Update>,
    optimistic: Option<Update>,
}
fn latest(r: &mut Rng, chain: &Chain, now: u64) -> Offer {
    let signed = now - r.below(3);
    let attested = signed - *r.pick(&[1, 1, 1, 2]);
    let back = *r.pick(&[64, 64, 70, 95, 96, 200, 8000]);
    let finalized = attested.saturating_sub(back);
    let finalized = if r.bool() { finalized / 32 * 32 } else { finalized };
    let (a, b) = (make::participants(r), make::participants(r));
    let mut finality = (!r.chance(1, 8)).then(|| chain.update(r, attested, Some(finalized), signed, false, a));
    let mut optimistic = (!r.chance(1, 12)).then(|| chain.update(r, attested, None, signed, false, b));
    if r.chance(1, 6) {
        for u in [&mut finality, &mut optimistic].into_iter().flatten() {
            if r.bool() {
                let how = r.index(make::SPOILS);
                make::spoil(r, chain, u, how);
            }
        }
    }
    Offer { finality, optimistic }
}
fn period_update(r: &mut Rng, chain: &Chain, p: u64, now: u64) -> Update {
    let top = now.saturating_sub(2).min((p + 1) * PERIOD - 2).max(p * PERIOD);
    let attested = top.saturating_sub(r.below(500)).max(p * PERIOD);
    let finalized = attested.saturating_sub(*r.pick(&[32, 64, 96, 200])).max(if r.chance(1, 8) { 0 } else { p * PERIOD });
    let finalized = if r.chance(1, 10) { finalized.saturating_sub(400) } else { finalized };
    let n = if r.chance(1, 8) { make::participants(r) } else { r.usize_in(342, 512) };
    let mut u = chain.update(r, attested, Some(finalized), attested + 1, true, n);
    if r.chance(1, 25) {
        let how = r.index(make::SPOILS);
        make::spoil(r, chain, &mut u, how);
    }
    u
}

fn compare(ctx: &mut Ctx, client: &ConsensusLightClient<Source>, m: &Model, at: &str, told: &[Option<Vec<u8>>; 3], log: &[String]) {
    let want = make::store(&m.store);
    let got = client.get_light_client_store();
    let tail = || log.iter().rev().take(6).rev().cloned().collect::<Vec<_>>();
    let brief = || j!({"at": at, "finalized": [got.finalized_header.slot, want.finalized_header.slot], "optimistic": [got.optimistic_header.slot, want.optimistic_header.slot], "knows next": [got.next_sync_committee.is_some(), want.next_sync_committee.is_some()], "max": [[got.previous_max_active_participants, got.current_max_active_participants], [want.previous_max_active_participants, want.current_max_active_participants]], "history": tail()});
    ctx.check(got.finalized_header == want.finalized_header, "finalized-header-wrong", brief);
    ctx.check(got.optimistic_header == want.optimistic_header, "optimistic-header-wrong", brief);
    ctx.check(got.current_sync_committee == want.current_sync_committee, "current-committee-wrong", brief);
    ctx.check(got.next_sync_committee == want.next_sync_committee, "next-committee-wrong", brief);
    ctx.check(
        got.previous_max_active_participants == want.previous_max_active_participants
            && got.current_max_active_participants == want.current_max_active_participants,
        "participation-record-wrong",
        brief,
    );
    ctx.check(client.get_header() == &got.optimistic_header && client.get_finalized_header() == &got.finalized_header, "headers-reported-differ-from-store", brief);
    ctx.check(client.last_checkpoint.map(|c| c.0) == m.checkpoint, "checkpoint-wrong", brief);
    for (i, n) in ["update", "finality", "optimistic"].iter().enumerate() {
        ctx.check(told[i] == m.told[i], &format!("announced-{n}-wrong"), || format!("{} announced {} expected {}", brief(), told[i].is_some(), m.told[i].is_some()));
    }
}

fn said(b: &Boot, name: &'static str, net: Net) -> Said {
    Said { any_boot: Some(make::boot(b)), chain: Some(net.id()), name, ..Default::default() }
}

pub fn chain(ctx: &mut Ctx) {
    ctx.rule("after every synchronization step the store, the checkpoint and the announcements are what the sync protocol prescribes for the answers received");
    let mut r = ctx.rng.fork("follow");
    for _ in 0..ctx.n(80, 800) {
        if ctx.saturated() {
            return;
        }
        clock::simulate(one(ctx, &mut r));
    }
    ctx.require("synced", 10);
    ctx.require("sync-refused", 3);
    ctx.require("signed-in-first-slot-of-fork", 1);
    ctx.require("advance-ok", 30);
    ctx.require("advance-refused", 10);
    ctx.require("committee-changed", 3);
    ctx.require("finalized-moved", 20);
    ctx.require("optimistic-moved", 20);
}

async fn one(ctx: &mut Ctx, r: &mut Rng) {
    use ssz::Encode;
    let net = if r.chance(1, 4) { Net::Sepolia } else { Net::Mainnet };
    let edge = net.electra_slot() / PERIOD;
    // around the fork with its change of signature version, or later
    let first = if r.chance(1, 3) { edge - 1 } else { edge + 1 + r.below(40) };
    let chain = make::chain(r, net, first, 8);
    let boot = {
        let s = make::slot_in(r, first);
        chain.boot(r, s)
    };
    let root = boot.head.root();
    let portal = r.bool();
    let mut now = match r.below(4) {
        _ if first < edge && r.bool() => (net.electra_slot() + r.below(3)).max(boot.head.slot + 3),
        0 => boot.head.slot + r.range(3, 200),
        _ => {
            let p = first + r.below(4);
            make::slot_in(r, p).max(boot.head.slot + 3)
        }
    };
    clock::set(net.time_of(now) + r.below(12));
    // on networks other than the main one, "now" is what the network's own genesis makes it
    let source = Source::of(said(&boot, if portal { "portal" } else { "other" }, net));
    let mut client = ConsensusLightClient::with_custom_rpc(source.clone(), root.into(), Arc::new(net.config()));
    let watch = client.get_watch_receivers();
    let told = || {
        [
            watch.update.borrow().as_ref().map(|u| u.as_ssz_bytes()),
            watch.finality_update.borrow().as_ref().map(|u| u.as_ssz_bytes()),
            watch.optimistic_update.borrow().as_ref().map(|u| u.as_ssz_bytes()),
        ]
    };
    let mut m = Model { store: Store::boot(&boot), checkpoint: None, told: [None, None, None] };
    let mut log = vec![];

    // first contact
    let mut updates: Vec<Update> = vec![];
    let last = if portal { period(now) } else { period(now) + 1 };
    let gap = r.chance(1, 12);
    for p in first..last {
        if gap && p + 1 == last {
            break;
        }
        updates.push(period_update(r, &chain, p, now));
    }
    let offer = latest(r, &chain, now);
    source.say(|s| {
        for u in &updates {
            s.updates.entry(period(u.attested.slot)).or_default();
        }
        for (i, u) in updates.iter().enumerate() {
            s.updates.insert(first + i as u64, vec![make::full(u)]);
        }
        s.updates.retain(|p, v| !v.is_empty() && *p < last);
        s.finality = offer.finality.as_ref().map(make::finality);
        s.optimistic = offer.optimistic.as_ref().map(make::optimistic);
    });
    let want: Result<(), &'static str> = (|| {
        if portal && gap && last > first {
            return Err("a period is missing");
        }
        for u in &updates {
            m.take(&chain, u, now)?;
        }
        if let Some(u) = &offer.finality {
            m.take(&chain, u, now)?;
        }
        let u = offer.optimistic.as_ref().ok_or("no optimistic update")?;
        m.take(&chain, u, now)
    })();
    ctx.eval("sync", &(root, now, updates.iter().map(|u| u.ssz()).collect::<Vec<_>>()));
    log.push(format!("sync at {now} ({net:?}) from {} with {} updates: {want:?}", boot.head.slot, updates.len()));
    let Ok(got) = catch(ctx, client.sync(), &log).await else { return };
    ctx.event(if want.is_ok() { "synced" } else { "sync-refused" });
    if want.is_ok() && offer.optimistic.as_ref().is_some_and(|u| u.signature_slot == net.electra_slot()) {
        ctx.event("signed-in-first-slot-of-fork");
    }
    ctx.check(got.is_ok() == want.is_ok(), "sync-outcome-wrong", || j!({"history": log, "got": got.as_ref().err().map(|e| e.to_string())}));
    compare(ctx, &client, &m, "sync", &told(), &log);
    if got.is_err() || want.is_err() {
        return;
    }
    for _ in 0..r.range(3, 14) {
        if ctx.saturated() {
            return;
        }
        now += match r.below(6) {
            0 => r.range(100, 4000),
            1 => ((period(now) + 1) * PERIOD).saturating_sub(now) + r.below(80),
            _ => r.range(1, 40),
        };
        clock::set(net.time_of(now) + r.below(12));
        let offer = latest(r, &chain, now);
        let here = period(m.store.finalized.slot);
        let p = here + r.below(2) * r.below(2);
        let mut fresh = (!r.chance(1, 5)).then(|| period_update(r, &chain, p, now));
        if r.chance(1, 10) {
            fresh = fresh.map(|mut u| {
                let how = r.index(make::SPOILS);
                make::spoil(r, &chain, &mut u, how);
                u
            });
        }
        // asked for the period of the finalized header as it then is
        source.say(|s| {
            s.updates.clear();
            if let Some(u) = &fresh {
                for p in here..here + 3 {
                    s.updates.insert(p, vec![make::full(u)]);
                }
            }
            s.finality = offer.finality.as_ref().map(make::finality);
            s.optimistic = offer.optimistic.as_ref().map(make::optimistic);
        });
        let (f0, o0, c0) = (m.store.finalized.slot, m.store.optimistic.slot, m.store.current.root);
        let want: Result<(), &'static str> = (|| {
            if let Some(u) = &offer.finality {
                m.take(&chain, u, now)?;
            }
            let u = offer.optimistic.as_ref().ok_or("no optimistic update")?;
            m.take(&chain, u, now)?;
            if m.store.next.is_none() {
                match &fresh {
                    Some(u) => {
                        // a bad answer here is simply not taken
                        let _ = m.take(&chain, u, now);
                    }
                    None if portal => return Err("no period update"),
                    None => {}
                }
            }
            Ok(())
        })();
        ctx.eval("advance", &(root, now, offer.finality.as_ref().map(|u| u.ssz()), offer.optimistic.as_ref().map(|u| u.ssz())));
        log.push(format!("advance at {now}: {want:?}"));
        let Ok(got) = catch(ctx, client.advance(), &log).await else { return };
        ctx.event(if want.is_ok() { "advance-ok" } else { "advance-refused" });
        if m.store.finalized.slot > f0 {
            ctx.event("finalized-moved");
        }
        if m.store.optimistic.slot > o0 {
            ctx.event("optimistic-moved");
        }
        if m.store.current.root != c0 {
            ctx.event("committee-changed");
        }
        ctx.check(got.is_ok() == want.is_ok(), "advance-outcome-wrong", || j!({"history": log, "got": got.as_ref().err().map(|e| e.to_string())}));
        compare(ctx, &client, &m, "advance", &told(), &log);
        if ctx.violated() {
            return;
        }
    }
    ctx.sample("history", || json!(log));
}

async fn catch<T>(ctx: &mut Ctx, f: impl std::future::Future<Output = T>, log: &[String]) -> Result<T, ()> {
    use std::{future::poll_fn, pin::pin, task::Poll};
    let mut f = pin!(f);
    poll_fn(|cx| {
        match ctx.no_panic("panic-in-client", || j!(log), || f.as_mut().poll(cx)) {
            Some(Poll::Pending) => Poll::Pending,
            Some(Poll::Ready(v)) => Poll::Ready(Ok(v)),
            None => Poll::Ready(Err(())),
        }
    })
    .await
}
