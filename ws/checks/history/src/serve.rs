//! A running history node.
use std::sync::Arc;

use ethportal_api::{
    types::{
        jsonrpc::{
            endpoints::{BeaconEndpoint, LegacyHistoryEndpoint},
            request::{BeaconJsonRpcRequest, LegacyHistoryJsonRpcRequest},
        },
        network::Subnetwork,
        ping_extensions::extension_types::PingExtensionType,
    },
    LegacyHistoryContentKey, LegacyHistoryContentValue,
};
use oracle::{
    exec::{Block, Era},
    schema::{self, Fork, V},
};
use tokio::sync::{mpsc, RwLock};
use trin_validation::oracle::HeaderOracle;
use vcommon::{hex, json, Ctx, Rng};

use crate::{
    blocks::{self, body, by_hash, by_number, header_content, key, proven, receipts, Proven},
    clock,
    header::{Kind, World},
    sub::{drive, Call, Ground, Piece, Reply, Sub, EVENTS},
    world::fresh,
};

pub const HISTORY: &[u8] = &[0x50, 0x0b];
pub type Node = Sub<LegacyHistoryContentKey, LegacyHistoryContentValue>;

fn summaries(r: &mut Rng, w: &World) -> Vec<u8> {
    let v = V::Items(vec![
        V::Raw(r.u64().to_le_bytes().to_vec()),
        V::Items(w.summaries.iter().map(|s| V::Items(vec![V::Raw(s.to_vec()), V::Raw(r.bytes(32))])).collect()),
        V::Items((0..6).map(|_| V::Raw(r.bytes(32))).collect()),
    ]);
    let mut out = Fork::Electra.digest().to_vec();
    out.extend(schema::historical_summaries_with_proof().ser(&v));
    out
}
/// A node that takes the world for the chain.
pub async fn start(r: &mut Rng, mut ground: Ground, w: &World) -> Node {
    let storage = ground.storage(Subnetwork::LegacyHistory, 100);
    let (tx, mut rx) = mpsc::unbounded_channel::<BeaconJsonRpcRequest>();
    let content = format!("0x{}", hex(&summaries(r, w)));
    tokio::spawn(async move {
        while let Some(q) = rx.recv().await {
            let _ = q.resp.send(match &q.endpoint {
                BeaconEndpoint::LocalContent(_) => Ok(json!(content)),
                _ => Err("not here".into()),
            });
        }
    });
    let oracle = Arc::new(RwLock::new(HeaderOracle { beacon_jsonrpc_tx: Some(tx), ..Default::default() }));
    let (handler, _task, events, calls, _stream) =
        trin_legacy_history::initialize_legacy_history_network(&ground.discovery, ground.utp.clone(), ground.config.clone(), storage, oracle).await.expect("history network");
    tokio::spawn(handler.expect("handler").handle_client_queries());
    ground.route(HISTORY, events.expect("events"));
    let calls = calls.expect("calls");
    let to: fn(Call<LegacyHistoryContentKey, LegacyHistoryContentValue>) -> LegacyHistoryEndpoint = crate::endpoint!(LegacyHistoryEndpoint);
    Sub {
        ground,
        proto: HISTORY,
        send: Box::new(move |c, resp: Reply| {
            let _ = calls.send(LegacyHistoryJsonRpcRequest { endpoint: to(c), resp });
        }),
        keeps_retrieved: true,
        guarded: false,
        radius: "0xffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff",
        kind: PingExtensionType::HistoryRadius,
        pages: true,
        by_radius: true,
    }
}
pub fn chain(r: &mut Rng, n: usize) -> (World, Vec<Proven>) {
    let mut w = blocks::world(r);
    w.summaries = (0..r.range(10, 60)).map(|_| r.array()).collect();
    let mut list: Vec<Proven> = vec![];
    for _ in 0..40 {
        if list.len() >= n {
            break;
        }
        let kind = *r.pick(&[Kind::Capella, Kind::Deneb]);
        let p = proven(r, kind, &mut w);
        list.push(p);
        let mut seen = std::collections::BTreeSet::new();
        list.retain(|p| p.claim.holds(&w) && seen.insert(p.block.header.number));
    }
    (w, list)
}
/// The header content with something wrong about it.
pub fn false_header(r: &mut Rng, p: &Proven, w: &World) -> Vec<u8> {
    loop {
        let mut c = p.claim.clone();
        match r.below(3) {
            0 => c.hdr.gas_used ^= 1,
            1 => {
                let i = r.index(c.exec.len());
                c.exec[i][r.index(32)] ^= 1 << r.below(8);
            }
            _ => {
                let i = r.index(c.beacon.len());
                c.beacon[i][r.index(32)] ^= 1 << r.below(8);
            }
        }
        if !c.holds(w) {
            return header_content(&c);
        }
    }
}
pub fn piece(r: &mut Rng, w: &World, list: &[Proven]) -> Piece<LegacyHistoryContentKey> {
    let p = r.pick(list);
    let h = p.block.header.hash();
    let content = header_content(&p.claim);
    if r.bool() {
        let k = if r.bool() { by_hash(&h) } else { by_number(p.block.header.number) };
        let bad = false_header(r, p, w);
        return Piece { key: key(&k), offered: content.clone(), kept: content, bad, needs: vec![] };
    }
    let is_body = r.bool();
    let (k, v) = if is_body { (body(&h), p.block.body_ssz()) } else { (receipts(&h), p.block.receipts_ssz()) };
    let bad = loop {
        let o = Block::random(r, Era::Shanghai, 6);
        let b = if is_body { o.body_ssz() } else { o.receipts_ssz() };
        if b != v {
            break b;
        }
    };
    Piece { key: key(&k), offered: v.clone(), kept: v, bad, needs: vec![(key(&by_hash(&h)), content)] }
}
pub fn calls(ctx: &mut Ctx) {
    ctx.level("random histories of calls and peer behaviour");
    let mut rng = ctx.rng.fork("history calls");
    for _ in 0..ctx.n(40, 600) {
        if ctx.saturated() {
            break;
        }
        let r = &mut rng;
        fresh(r);
        clock::simulate(async {
            let (w, list) = chain(r, 5);
            let ground = Ground::new(r).await;
            let node = start(r, ground, &w).await;
            drive(ctx, r, &node, |r| piece(r, &w, &list)).await;
        });
    }
    for (e, n) in EVENTS {
        ctx.require(e, *n);
    }
    ctx.require("passed-on", 3);
    ctx.require("listed", 5);
}
