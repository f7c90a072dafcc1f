//! Delivery of requests and events to the networks they are for.
use std::collections::BTreeMap;

use discv5::{enr::NodeId, TalkRequest};
use ethportal_api::types::{
    network::Subnetwork,
    network_spec::{set_network_spec, ANGELFOOD, MAINNET, SEPOLIA},
};
use portalnet::events::{EventEnvelope, OverlayEvent, OverlayRequest, PortalnetEvents};
use tokio::sync::{broadcast, mpsc};
use vcommon::{hex, unhex, Ctx, Rng};

use crate::clock;

const NETS: [Subnetwork; 3] = [Subnetwork::LegacyHistory, Subnetwork::State, Subnetwork::Beacon];

pub fn delivery(ctx: &mut Ctx) {
    ctx.rule("a request goes to the running network with its protocol number and to nobody else; packets of the transfer protocol go to the transfer socket; an event goes once to every running network it is addressed to, never back to its origin; order per source is kept");
    let mut r = ctx.rng.fork("delivery");
    for case in 0..ctx.n(400, 5000) {
        if ctx.saturated() {
            break;
        }
        let mut r = r.fork(&format!("case{case}"));
        let chain = r.below(3);
        set_network_spec([MAINNET.clone(), ANGELFOOD.clone(), SEPOLIA.clone()][chain as usize].clone());
        clock::simulate(one(ctx, &mut r, chain));
    }
    set_network_spec(MAINNET.clone());
    for (k, n) in [("request delivered", 500), ("request for nobody", 500), ("transfer packet", 100), ("event delivered", 500), ("network not running", 100)] {
        ctx.require(k, n);
    }
}
fn name(s: Subnetwork) -> &'static str {
    match s {
        Subnetwork::LegacyHistory => "history",
        Subnetwork::State => "state",
        Subnetwork::Beacon => "beacon",
        _ => "other",
    }
}
async fn one(ctx: &mut Ctx, r: &mut Rng, chain: u64) {
    let numbers: BTreeMap<&str, &str> = if chain == 0 { [("state", "500a"), ("history", "500b"), ("beacon", "500c")].into() } else { [("state", "504a"), ("history", "504b"), ("beacon", "504c")].into() };
    let mut running: Vec<Subnetwork> = NETS.into_iter().filter(|_| r.chance(2, 3)).collect();
    if running.is_empty() {
        running.push(*r.pick(&NETS));
    }
    let (talk_tx, talk_rx) = mpsc::channel(100);
    let (utp_tx, mut utp_rx) = mpsc::unbounded_channel();
    let mut inbox = BTreeMap::new();
    let mut origin = BTreeMap::new();
    let mut channels = |s: Subnetwork| {
        if !running.contains(&s) {
            return (None, None);
        }
        let (tx, rx) = mpsc::unbounded_channel();
        let (etx, erx) = broadcast::channel(1000);
        inbox.insert(name(s), rx);
        origin.insert(name(s), etx);
        (Some(tx), Some(erx))
    };
    let (h, s, b) = (channels(Subnetwork::LegacyHistory), channels(Subnetwork::State), channels(Subnetwork::Beacon));
    let events = PortalnetEvents::new(talk_rx, h, s, b, utp_tx).await;
    let task = tokio::spawn(events.start());
    let mut want: BTreeMap<&str, (Vec<String>, Vec<String>)> = BTreeMap::new();
    let mut trace = vec![];
    for step in 0..r.usize_in(5, 60) {
        if r.chance(2, 3) {
            let known: Vec<&str> = numbers.values().copied().collect();
            let proto: String = match r.below(10) {
                0..=4 => r.pick(&known).to_string(),
                5 => "757470".into(),
                6 => r.pick(&["5000", "500d", "500e", "500f", "504d", "50"]).to_string(),
                7 => if chain == 0 { "504b".into() } else { "500b".into() },
                8 => {
                    let mut p = unhex(r.pick::<&str>(&known));
                    match r.below(3) {
                        0 => p.push(0),
                        1 => p.insert(0, 0),
                        _ => p.truncate(1),
                    }
                    hex(&p)
                }
                _ => {
                    let n = r.usize_in(0, 4);
                    hex(&r.bytes(n))
                }
            };
            let body = [&(step as u32).to_be_bytes()[..], &r.array::<4>()].concat();
            let from = NodeId::new(&r.array::<32>());
            let (req, _rx) = TalkRequest::detached(from, unhex(&proto), body.clone());
            trace.push(format!("request {proto}"));
            let to = match proto.as_str() {
                "757470" => Some("utp"),
                p => numbers.iter().find(|(_, n)| **n == p).map(|(k, _)| *k),
            };
            let up = to.is_some_and(|t| t == "utp" || running.iter().any(|s| name(*s) == t));
            match to {
                Some(t) if up => {
                    ctx.event(if t == "utp" { "transfer packet" } else { "request delivered" });
                    want.entry(t).or_default().0.push(format!("{from:?} {}", hex(&body)));
                }
                Some(_) => ctx.event("network not running"),
                None => ctx.event("request for nobody"),
            }
            if talk_tx.send(req).await.is_err() {
                ctx.violation("delivery/stopped", j!({"trace": trace}));
                return;
            }
        } else {
            let from = *r.pick(&running);
            let dest = match r.below(3) {
                0 => None,
                1 => Some(vec![*r.pick(&NETS)]),
                _ => Some(NETS.into_iter().filter(|_| r.bool()).collect::<Vec<_>>()),
            };
            let payload = if r.bool() { OverlayEvent::LightClientOptimisticUpdate } else { OverlayEvent::LightClientFinalityUpdate };
            let mut e = EventEnvelope::new(payload, from, dest.clone());
            e.timestamp = (step as i64).into();
            trace.push(format!("event of {from} for {dest:?}"));
            for s in &running {
                if *s != from && dest.as_ref().is_none_or(|d| d.contains(s)) {
                    ctx.event("event delivered");
                    want.entry(name(*s)).or_default().1.push(format!("{} {from} {:?}", step, e.payload));
                }
            }
            let _ = origin[name(from)].send(e);
        }
        if r.chance(1, 3) {
            clock::settle().await;
        }
    }
    clock::settle().await;
    ctx.eval("history", &trace);
    ctx.check(!task.is_finished(), "delivery/stopped", || j!({"trace": trace}));
    for (who, rx) in inbox.iter_mut() {
        let (mut talks, mut evs) = (vec![], vec![]);
        while let Ok(m) = rx.try_recv() {
            match m {
                OverlayRequest::Talk(t) => talks.push(format!("{:?} {}", t.node_id(), hex(t.body()))),
                OverlayRequest::Event(e) => evs.push(format!("{} {} {:?}", e.timestamp.to_millis().unwrap_or(-1), e.from, e.payload)),
            }
        }
        let (wt, we) = want.remove(who).unwrap_or_default();
        ctx.check(talks == wt, "delivery/requests", || j!({"network": who, "got": talks.len(), "want": wt.len(), "trace": trace}));
        // events of different networks may overtake each other
        let by = |v: &[String]| -> BTreeMap<String, Vec<String>> {
            let mut m: BTreeMap<String, Vec<String>> = BTreeMap::new();
            for e in v {
                m.entry(e.split(' ').nth(1).unwrap_or("").into()).or_default().push(e.clone());
            }
            m
        };
        ctx.check(by(&evs) == by(&we), "delivery/events", || j!({"network": who, "got": evs, "want": we, "trace": trace}));
    }
    let mut packets = vec![];
    while let Ok(t) = utp_rx.try_recv() {
        packets.push(format!("{:?} {}", t.node_id(), hex(t.body())));
    }
    let wt = want.remove("utp").unwrap_or_default().0;
    ctx.check(packets == wt, "delivery/transfer", || j!({"got": packets.len(), "want": wt.len(), "trace": trace}));
    task.abort();
}
