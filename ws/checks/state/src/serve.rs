//! A running state node.
use std::sync::Arc;

use ethportal_api::{
    types::{
        jsonrpc::{endpoints::StateEndpoint, request::StateJsonRpcRequest},
        network::Subnetwork,
        ping_extensions::extension_types::PingExtensionType,
    },
    StateContentKey, StateContentValue,
};
use trin_validation::oracle::HeaderOracle;
use vcommon::{Ctx, Rng};

use crate::{
    clock,
    sub::{drive, Call, Ground, Piece, Reply, Sub, EVENTS},
    tries::{some, verdict, Form, Verdict, World},
    world::fresh,
};

pub const STATE: &[u8] = &[0x50, 0x0a];
pub type Node = Sub<StateContentKey, StateContentValue>;
pub async fn start(mut ground: Ground) -> Node {
    let storage = ground.storage(Subnetwork::State, 100);
    let oracle = Arc::new(tokio::sync::RwLock::new(HeaderOracle::default()));
    let (handler, _task, events, calls, _stream) =
        trin_state::initialize_state_network(&ground.discovery, ground.utp.clone(), ground.config.clone(), storage, oracle).await.expect("state network");
    tokio::spawn(handler.expect("handler").handle_client_queries());
    ground.route(STATE, events.expect("events"));
    let calls = calls.expect("calls");
    let to: fn(Call<StateContentKey, StateContentValue>) -> StateEndpoint = crate::endpoint!(StateEndpoint);
    Sub {
        ground,
        proto: STATE,
        send: Box::new(move |c, resp: Reply| {
            let _ = calls.send(StateJsonRpcRequest { endpoint: to(c), resp });
        }),
        keeps_retrieved: false,
        guarded: true,
        radius: "0xffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff",
        kind: PingExtensionType::BasicRadius,
        pages: true,
        by_radius: true,
    }
}
/// Something proven together with something that is not.
pub fn piece(r: &mut Rng, w: &World) -> Piece<StateContentKey> {
    loop {
        let (name, form) = some(r, w);
        if matches!(&form, Form::CodeProof(c, _) if c.len() > 2000) {
            continue;
        }
        let mut bad = form.clone();
        match &mut bad {
            Form::Proof(p) | Form::Both { storage: p, .. } => {
                let n = p.len() - 1;
                let i = r.index(p[n].len());
                p[n][i] ^= 1 << r.below(8);
            }
            Form::CodeProof(c, _) => c.push(r.u8()),
            _ => {}
        }
        if verdict(&name, &bad) != Verdict::Wrong {
            continue;
        }
        let block = r.array();
        return Piece { key: name.key(), offered: form.bytes(&block), kept: form.kept().bytes(&block), bad: bad.bytes(&block), needs: vec![] };
    }
}
pub fn calls(ctx: &mut Ctx) {
    ctx.level("random histories of calls and peer behaviour");
    let mut rng = ctx.rng.fork("state calls");
    for _ in 0..ctx.n(40, 600) {
        if ctx.saturated() {
            break;
        }
        let r = &mut rng;
        fresh(r);
        clock::simulate(async {
            let node = start(Ground::new(r).await).await;
            let w = World::new(r);
            drive(ctx, r, &node, |r| piece(r, &w)).await;
        });
    }
    for (e, n) in EVENTS {
        ctx.require(e, *n);
    }
    ctx.require("listed", 5);
    ctx.require("bad-store-refused", 5);
    ctx.require("put-bad", 2);
}
