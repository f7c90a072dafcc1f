//! L04: the checkpoint agreed on by the services that publish checkpoints.
use std::{collections::HashMap, sync::Arc};

use light_client::config::{CheckpointFallback, CheckpointFallbackService, Network};
use vcommon::{hex, json, Ctx, Rng};

use crate::clock;

#[derive(Clone, Debug)]
enum Reply {
    Slots(Vec<(u64, Option<[u8; 32]>)>),
    Down,
    Rubbish,
}
fn body(slots: &[(u64, Option<[u8; 32]>)]) -> Vec<u8> {
    let s: Vec<_> = slots
        .iter()
        .map(|(epoch, root)| {
            json!({"slot": (epoch * 32).to_string(), "block_root": root.map(|h| format!("0x{}", hex(&h))), "state_root": null, "epoch": epoch.to_string(), "time": {"start_time": "a", "end_time": "b"}})
        })
        .collect();
    json!({"data": {"slots": s}}).to_string().into_bytes()
}
fn reply(r: &mut Rng, epochs: &[u64], roots: &[[u8; 32]]) -> Reply {
    match r.below(12) {
        0 => Reply::Down,
        1 => Reply::Rubbish,
        2 => Reply::Slots(vec![]),
        _ => {
            let mut v = vec![];
            while r.chance(1, 4) {
                v.push((*r.pick(epochs) + 1, None));
            }
            for _ in 0..r.below(4) {
                v.push((*r.pick(epochs), r.chance(7, 8).then(|| *r.pick(roots))));
            }
            Reply::Slots(v)
        }
    }
}
fn vote(x: &Reply) -> Option<(u64, [u8; 32])> {
    match x {
        Reply::Slots(v) => v.iter().find_map(|(e, h)| h.map(|h| (*e, h))),
        _ => None,
    }
}
fn service(i: usize, slash: bool, healthy: bool) -> CheckpointFallbackService {
    CheckpointFallbackService {
        endpoint: format!("http://s{i}.test{}", if slash { "/" } else { "" }),
        name: format!("s{i}"),
        state: healthy,
        ..Default::default()
    }
}

pub fn votes(ctx: &mut Ctx) {
    ctx.rule("the checkpoint taken is the one most services name for the latest epoch any of them names; services that fail or name none do not matter");
    let mut r = ctx.rng.fork("services");
    for _ in 0..ctx.n(1500, 20_000) {
        if ctx.saturated() {
            break;
        }
        let epochs: Vec<u64> = (0..r.range(1, 3)).map(|i| 400_000 + i).collect();
        let roots: Vec<[u8; 32]> = (0..r.range(1, 4)).map(|_| r.array()).collect();
        let n = r.usize_in(0, 7);
        let replies: Vec<Reply> = (0..n).map(|_| reply(&mut r, &epochs, &roots)).collect();
        let healthy: Vec<bool> = (0..n).map(|_| !r.chance(1, 5)).collect();
        let services: Vec<_> = (0..n).map(|i| service(i, r.clone().bool(), healthy[i])).collect();
        let table: HashMap<String, Reply> = replies.iter().enumerate().map(|(i, x)| (format!("http://s{i}.test/checkpointz/v1/beacon/slots"), x.clone())).collect();
        let t = table.clone();
        reqwest::answered_by(Some(Arc::new(move |_, url, _| match t.get(url) {
            Some(Reply::Slots(v)) => Some((200, body(v))),
            Some(Reply::Rubbish) => Some((200, b"<html>".to_vec())),
            _ => None,
        })));
        ctx.eval("poll", &format!("{replies:?}{healthy:?}"));
        let counted: Vec<(u64, [u8; 32])> = replies.iter().zip(&healthy).filter(|(_, h)| **h).filter_map(|(x, _)| vote(x)).collect();
        let latest = counted.iter().map(|v| v.0).max();
        let mut tally: HashMap<[u8; 32], usize> = HashMap::new();
        for (e, h) in &counted {
            if Some(*e) == latest {
                *tally.entry(*h).or_default() += 1;
            }
        }
        let most = tally.values().copied().max().unwrap_or(0);
        let fine: Vec<_> = tally.iter().filter(|t| *t.1 == most).map(|t| *t.0).collect();
        ctx.event(match fine.len() {
            0 => "nobody-answered",
            1 => "agreed",
            _ => "tied",
        });
        let all = CheckpointFallback { services: HashMap::from([(Network::Mainnet, services)]), networks: vec![Network::Mainnet] };
        let what = || j!({"replies": format!("{replies:?}"), "healthy": healthy, "acceptable": fine.iter().map(|h| hex(h)).collect::<Vec<_>>()});
        let Some(got) = ctx.no_panic("panic-on-services", what, || clock::simulate(all.fetch_latest_checkpoint(&Network::Mainnet))) else { continue };
        ctx.sample("poll", || json!({"case": what(), "taken": got.as_ref().ok().map(|h| h.to_string())}));
        match got {
            Ok(h) => ctx.check(fine.contains(&h.0), "checkpoint-not-agreed", || format!("{} got {h}", what())),
            Err(_) => ctx.check(fine.is_empty(), "agreed-checkpoint-not-taken", what),
        };
        // a single service, named by hand
        if n > 0 {
            let url = "http://s0.test";
            let want = match &replies[0] {
                Reply::Slots(v) => v.first().and_then(|s| s.1),
                _ => None,
            };
            if matches!(&replies[0], Reply::Slots(v) if v.is_empty()) {
                ctx.event("single-service-empty");
            }
            let what = || j!({"reply": format!("{:?}", replies[0])});
            if let Some(got) = ctx.no_panic("panic-on-service", what, || clock::simulate(CheckpointFallback::fetch_checkpoint_from_api(url))) {
                ctx.check(got.as_ref().ok().map(|h| h.0) == want, "single-service-checkpoint-wrong", what);
            }
        }
    }
    // the published list of services
    for _ in 0..ctx.n(60, 600) {
        let n = r.usize_in(0, 5);
        let states: Vec<bool> = (0..n).map(|_| r.bool()).collect();
        let listed = r.chance(7, 8);
        let mut y = String::from(if listed { "mainnet:\n" } else { "sepolia:\n" });
        for (i, s) in states.iter().enumerate() {
            y += &format!("  - name: s{i}\n    endpoint: http://s{i}.test\n    state: {s}\n    verification: true\n    contacts: null\n    notes: null\n    health:\n      - result: true\n        date: today\n");
        }
        if n == 0 {
            y = y.replace(":\n", ": []\n");
        }
        let broken = r.chance(1, 8);
        reqwest::answered_by(Some(Arc::new(move |_, _, _| (!broken).then(|| (200, y.clone().into_bytes())))));
        ctx.eval("list", &(states.clone(), listed, broken));
        let what = || j!({"states": states, "listed": listed, "answered": !broken});
        let Some(got) = ctx.no_panic("panic-on-service-list", what, || clock::simulate(CheckpointFallback::new().build())) else { continue };
        match got {
            Ok(all) => {
                let want: Vec<String> = (0..n).map(|i| format!("http://s{i}.test")).collect();
                let up: Vec<String> = (0..n).filter(|i| states[*i]).map(|i| format!("http://s{i}.test")).collect();
                ctx.check(listed && !broken && all.get_all_fallback_endpoints(&Network::Mainnet) == want, "service-list-wrong", what);
                ctx.check(all.get_healthy_fallback_endpoints(&Network::Mainnet) == up, "healthy-services-wrong", what);
                ctx.event("list-read");
            }
            Err(e) => {
                ctx.check(!listed || broken, "service-list-not-read", || format!("{} {e}", what()));
            }
        }
    }
    reqwest::answered_by(None);
    ctx.require("agreed", 50);
    ctx.require("tied", 20);
    ctx.require("nobody-answered", 10);
    ctx.require("single-service-empty", 5);
    ctx.require("list-read", 10);
}
