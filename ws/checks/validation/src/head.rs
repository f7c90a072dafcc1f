//! The head of the chain only moves forward.
use std::sync::Arc;

use ethportal_api::consensus::{
    fork::ForkName,
    historical_summaries::{HistoricalSummaries, HistoricalSummary},
};
use ethportal_api::light_client::{
    finality_update::LightClientFinalityUpdate, optimistic_update::LightClientOptimisticUpdate, update::LightClientUpdate,
};
use oracle::{
    schema::{self, Fork, FORKS, T, V},
    H,
};
use ssz::Encode;
use trin_validation::chain_head::ChainHead;
use vcommon::{hex, json, Ctx, Rng};

const CAPELLA_SLOT: u64 = 194_048 * 32;

fn name(f: Fork) -> ForkName {
    match f {
        Fork::Bellatrix => ForkName::Bellatrix,
        Fork::Capella => ForkName::Capella,
        Fork::Deneb => ForkName::Deneb,
        Fork::Electra => ForkName::Electra,
    }
}

fn set_slot(t: &T, v: &mut V, header: &str, slot: u64) -> Vec<u8> {
    let i = t.field(header);
    let V::Items(f) = v else { panic!("container") };
    let V::Items(h) = &mut f[i] else { panic!("header") };
    let V::Items(b) = &mut h[0] else { panic!("beacon header") };
    b[0] = V::Raw(slot.to_le_bytes().to_vec());
    schema::beacon_block_header().ser(&h[0])
}

enum Msg {
    Full(LightClientUpdate),
    Optimistic(LightClientOptimisticUpdate),
    Finality(LightClientFinalityUpdate),
    Summaries(HistoricalSummaries),
}

/// A message with the beacon headers it carries: (attested, finalized), each with slot and bytes.
type Carried = (Option<(u64, Vec<u8>)>, Option<(u64, Vec<u8>)>);

fn message(r: &mut Rng, around: (u64, u64)) -> (Msg, Carried, Vec<(H, H)>) {
    let f = *r.pick(&FORKS);
    let mut near = |s: u64| match r.below(6) {
        0 => s,
        1 => s + 1,
        2 => s.saturating_sub(1),
        3 => r.edgy_u64() >> 20,
        4 => s + r.below(100),
        _ => s.saturating_sub(r.below(100)),
    };
    let (sa, sf) = (near(around.0), near(around.1));
    match r.below(4) {
        0 => {
            let t = schema::lc_update(f);
            let mut v = t.gen(r, 2);
            let a = set_slot(&t, &mut v, "attested_header", sa);
            let b = set_slot(&t, &mut v, "finalized_header", sf);
            let m = LightClientUpdate::from_ssz_bytes(&t.ser(&v), name(f)).expect("update of the checker is readable");
            (Msg::Full(m), (Some((sa, a)), Some((sf, b))), vec![])
        }
        1 => {
            let t = schema::lc_optimistic_update(f);
            let mut v = t.gen(r, 2);
            let a = set_slot(&t, &mut v, "attested_header", sa);
            let m = LightClientOptimisticUpdate::from_ssz_bytes(&t.ser(&v), name(f)).expect("update of the checker is readable");
            (Msg::Optimistic(m), (Some((sa, a)), None), vec![])
        }
        2 => {
            let t = schema::lc_finality_update(f);
            let mut v = t.gen(r, 2);
            let a = set_slot(&t, &mut v, "attested_header", sa);
            let b = set_slot(&t, &mut v, "finalized_header", sf);
            let m = LightClientFinalityUpdate::from_ssz_bytes(&t.ser(&v), name(f)).expect("update of the checker is readable");
            (Msg::Finality(m), (Some((sa, a)), Some((sf, b))), vec![])
        }
        _ => {
            let n = 650 + r.index(100);
            let l: Vec<(H, H)> = (0..n).map(|_| (r.array(), r.array())).collect();
            let s = HistoricalSummaries::new(
                l.iter().map(|(a, b)| HistoricalSummary { block_summary_root: (*a).into(), state_summary_root: (*b).into() }).collect(),
            )
            .expect("few");
            (Msg::Summaries(s), (None, None), l)
        }
    }
}

fn apply(h: &ChainHead, m: Msg) {
    match m {
        Msg::Full(u) => h.process_update(u),
        Msg::Optimistic(u) => h.process_optimistic_update(u),
        Msg::Finality(u) => h.process_finality_update(u),
        Msg::Summaries(s) => h.update_historical_summaries(s),
    }
}

fn history(c: &mut Ctx, i: u64) {
    let mut r = c.rng.fork(&format!("head{i}"));
    let h = ChainHead::new_pectra_defaults();
    let mut latest = (h.latest_beacon_header().slot, h.latest_beacon_header().as_ssz_bytes());
    let mut fin = (h.finalized_beacon_header().slot, h.finalized_beacon_header().as_ssz_bytes());
    let mut known = 0usize;
    while h.historical_summary(CAPELLA_SLOT + known as u64 * 8192).is_some() {
        known += 1;
    }
    c.check(known > 600 && known < 1100, "initial-summaries", || format!("{known}"));
    let mut list: Vec<(H, H)> = (0..known)
        .map(|k| {
            let s = h.historical_summary(CAPELLA_SLOT + k as u64 * 8192).expect("counted");
            (s.block_summary_root.0, s.state_summary_root.0)
        })
        .collect();
    // Pectra was activated at slot 11649024 on mainnet.
    c.check(latest.0 >= 11_649_024 && latest.0 < 11_649_024 + 32 && fin.0 == latest.0, "initial-head", || format!("{} {}", latest.0, fin.0));
    for step in 0..40 {
        let (m, (a, f), l) = message(&mut r, (latest.0, fin.0));
        apply(&h, m);
        if let Some(a) = a {
            if a.0 > latest.0 {
                c.event("latest moved");
                latest = a;
            } else {
                c.event("latest kept");
            }
        }
        if let Some(f) = f {
            if f.0 > fin.0 {
                c.event("finalized moved");
                fin = f;
            } else {
                c.event("finalized kept");
            }
        }
        if l.len() > list.len() {
            c.event("summaries replaced");
            list = l;
        }
        c.eval("head step", &(i, step, latest.0, fin.0, list.len()));
        let what = || format!("step {step}");
        c.check_eq(&hex(&h.latest_beacon_header().as_ssz_bytes()), &hex(&latest.1), "latest-header", what);
        c.check_eq(&hex(&h.finalized_beacon_header().as_ssz_bytes()), &hex(&fin.1), "finalized-header", what);
        for slot in [
            CAPELLA_SLOT - 1,
            CAPELLA_SLOT,
            CAPELLA_SLOT + r.below(list.len() as u64 * 8192),
            CAPELLA_SLOT + list.len() as u64 * 8192 - 1,
            CAPELLA_SLOT + list.len() as u64 * 8192,
            r.edgy_u64(),
        ] {
            let want = slot.checked_sub(CAPELLA_SLOT).and_then(|s| list.get((s / 8192) as usize)).copied();
            let Some(got) = c.no_panic("head-panic", || format!("slot {slot}"), || h.historical_summary(slot)) else { continue };
            c.check_eq(&got.map(|s| (s.block_summary_root.0, s.state_summary_root.0)), &want, "head-summary", || format!("slot {slot}"));
        }
    }
}

/// Many threads feed messages; the outcome is the newest of everything.
fn concurrent(c: &mut Ctx, i: u64) {
    let mut r = c.rng.fork(&format!("concurrent{i}"));
    let h = Arc::new(ChainHead::new_pectra_defaults());
    let start = (h.latest_beacon_header().slot, h.finalized_beacon_header().slot);
    let mut best = start;
    let mut queues: Vec<Vec<Msg>> = (0..4).map(|_| vec![]).collect();
    for k in 0..48 {
        let (m, (a, f), _) = message(&mut r, (start.0 + k, start.1 + k / 2));
        if let Some(a) = &a {
            best.0 = best.0.max(a.0);
        }
        if let Some(f) = &f {
            best.1 = best.1.max(f.0);
        }
        queues[r.index(4)].push(m);
    }
    let backwards = std::thread::scope(|s| {
        for q in queues {
            let h = h.clone();
            s.spawn(move || {
                for m in q {
                    apply(&h, m);
                }
            });
        }
        let watch = s.spawn({
            let h = h.clone();
            move || {
                let mut last = (0, 0);
                let mut bad = None;
                for _ in 0..400 {
                    let now = (h.latest_beacon_header().slot, h.finalized_beacon_header().slot);
                    if now.0 < last.0 || now.1 < last.1 {
                        bad = Some((last, now));
                    }
                    last = now;
                }
                bad
            }
        });
        watch.join().ok().flatten()
    });
    c.eval("concurrent outcome", &(i, best));
    c.check(backwards.is_none(), "head-moved-back", || format!("{backwards:?}"));
    c.check_eq(&(h.latest_beacon_header().slot, h.finalized_beacon_header().slot), &best, "head-not-newest", || format!("{i}"));
}

pub fn chain_head(c: &mut Ctx) {
    c.rule("latest and finalized headers and the summaries are always the newest seen, whatever the order and interleaving of updates");
    for i in 0..c.n(150, 3000) {
        history(c, i);
        concurrent(c, i);
        if c.saturated() {
            break;
        }
    }
    c.sample("heads", || json!("see events"));
    for k in ["latest moved", "latest kept", "finalized moved", "finalized kept", "summaries replaced"] {
        c.require(k, 20);
    }
}
