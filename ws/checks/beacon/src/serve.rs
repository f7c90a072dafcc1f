//! A running beacon node.
use std::{sync::Arc, time::Duration};

use alloy::primitives::B256;
use ethportal_api::{
    types::{
        jsonrpc::{endpoints::BeaconEndpoint, request::BeaconJsonRpcRequest},
        network::Subnetwork,
        ping_extensions::extension_types::PingExtensionType,
    },
    BeaconContentKey, BeaconContentValue,
};
use oracle::{
    lc::{Chain, PERIOD},
    H,
};
use tokio::sync::{mpsc, RwLock};
use trin_validation::{chain_head::ChainHead, oracle::HeaderOracle};
use vcommon::{Ctx, Rng, Value};

use crate::{
    clock,
    make::{self, Net},
    sub::{drive, Call, Ground, Piece, Reply, Sub, EVENTS},
    things::{self, Sums},
    world::fresh,
};

pub const BEACON: &[u8] = &[0x50, 0x0c];
pub type Node = Sub<BeaconContentKey, BeaconContentValue>;
pub struct Running {
    pub node: Node,
    pub head: ChainHead,
    calls: mpsc::UnboundedSender<BeaconJsonRpcRequest>,
}
impl Running {
    /// Asks what only a beacon node can tell.
    pub async fn ask(&self, endpoint: BeaconEndpoint, wait: Duration) -> Option<Result<Value, String>> {
        let (resp, mut rx) = mpsc::unbounded_channel();
        let _ = self.calls.send(BeaconJsonRpcRequest { endpoint, resp });
        clock::within(wait, async move { rx.recv().await }).await?
    }
}
/// A node that starts from what it trusts.
pub async fn start(mut ground: Ground, trusted: Option<H>) -> Running {
    ground.config.trusted_block_root = trusted.map(B256::from);
    let storage = ground.storage(Subnetwork::Beacon, 100);
    let head = ChainHead::new_pectra_defaults();
    let oracle = Arc::new(RwLock::new(HeaderOracle::default()));
    let (handler, _task, events, calls, _stream) =
        trin_beacon::initialize_beacon_network(&ground.discovery, ground.utp.clone(), ground.config.clone(), storage, oracle, head.clone()).await.expect("beacon network");
    tokio::spawn(handler.expect("handler").handle_client_queries());
    ground.route(BEACON, events.expect("events"));
    let calls = calls.expect("calls");
    let to: fn(Call<BeaconContentKey, BeaconContentValue>) -> BeaconEndpoint = crate::endpoint!(BeaconEndpoint);
    let tx = calls.clone();
    let node = Sub {
        ground,
        proto: BEACON,
        send: Box::new(move |c, resp: Reply| {
            let _ = tx.send(BeaconJsonRpcRequest { endpoint: to(c), resp });
        }),
        keeps_retrieved: true,
        guarded: false,
        radius: "0xffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff",
        kind: PingExtensionType::BasicRadius,
        pages: false,
        by_radius: false,
    };
    Running { node, head, calls }
}
/// Contents that do not answer for one another.
pub fn pieces(r: &mut Rng, chain: &Chain, now: u64) -> Vec<Piece<BeaconContentKey>> {
    let mut out = vec![];
    for _ in 0..3 {
        let (a, b) = { let s = now - 1 - r.below(800_000); (chain.boot(r, s), chain.boot(r, s)) };
        out.push((things::of_boot(&a.head.root()), things::boot(&a), things::boot(&b)));
    }
    let mut at = now / PERIOD - 60;
    for _ in 0..3 {
        let n = r.range(1, 3);
        let list: Vec<_> = (0..=n).map(|i| { let s = make::slot_in(r, at + i); chain.update(r, s, Some(s - 70), s + 1, true, 400) }).collect();
        out.push((things::of_range(at, n), things::range(&list[..n as usize]), things::range(&list)));
        at += n + r.below(3);
    }
    let (good, bad) = (chain.update(r, now - 2, Some(now - 80), now - 1, false, 400), chain.update(r, now - 2, Some(now - 81), now - 1, false, 400));
    out.push((things::of_finality(now - 80), things::update(&good), things::update(&bad)));
    let (good, bad) = (chain.update(r, now - 2, None, now - 1, false, 400), chain.update(r, now - 2, None, now, false, 400));
    out.push((things::of_optimistic(now - 1), things::update(&good), things::update(&bad)));
    let (good, bad) = (Sums::random(r, now / 32, 7), Sums::random(r, now / 32 + 1, 7));
    out.push((things::of_summaries(now / 32), good.content(), bad.content()));
    out.into_iter().map(|(key, v, bad)| Piece { key, offered: v.clone(), kept: v, bad, needs: vec![] }).collect()
}
pub fn calls(ctx: &mut Ctx) {
    ctx.level("random histories of calls and peer behaviour");
    let mut rng = ctx.rng.fork("beacon calls");
    for _ in 0..ctx.n(30, 400) {
        if ctx.saturated() {
            break;
        }
        let r = &mut rng;
        fresh(r);
        let now = Net::Mainnet.electra_slot() + 900_000 + r.below(1 << 20);
        clock::set(Net::Mainnet.time_of(now));
        clock::simulate(async {
            let chain = make::chain(r, Net::Mainnet, now / PERIOD - 2, 4);
            let ground = Ground::new(r).await;
            let node = start(ground, None).await;
            // nobody is there to begin a sync with, so the node gives up on it
            clock::pass(Duration::from_secs(120)).await;
            let mut all = pieces(r, &chain, now);
            r.shuffle(&mut all);
            let mut i = 0;
            drive(ctx, r, &node.node, |_| {
                i += 1;
                all[(i - 1) % all.len()].clone()
            })
            .await;
        });
    }
    for (e, n) in EVENTS {
        ctx.require(e, *n);
    }
    ctx.require("passed-on", 3);
}
