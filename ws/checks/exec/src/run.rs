//! Executing blocks.
use std::{
    io::Write,
    sync::{Arc, Mutex},
};

use alloy::primitives::B256;
use revm::inspector::inspectors::TracerEip3155;
use trin_execution::{config::StateConfig, evm::block_executor::BlockExecutor};
use vcommon::{json, Ctx, Rng};

use super::{
    chain::{Chain, Made},
    node::{compare, forget, seeded, Node},
    world::*,
};

#[derive(Clone, Default)]
struct Shared(Arc<Mutex<Vec<u8>>>);
impl Write for Shared {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        self.0.lock().unwrap().extend_from_slice(b);
        Ok(b.len())
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}
/// A block near a fork: the last one of the old rules is usually among the next few.
pub fn some_start(r: &mut Rng, i: usize) -> u64 {
    let f = FORKS[i % FORKS.len()].1;
    match r.below(6) {
        _ if f == 0 => r.range(2, 100),
        0 => f,
        1 => f + r.below(50_000),
        _ => f - r.range(1, 3),
    }
}
fn text(m: &Made) -> String {
    j!({"block": m.block.header.number, "fork": fork(m.block.header.number).0, "transactions": m.txs.iter().map(|(t, o)| format!("{t:?} -> {o:?}")).collect::<Vec<_>>(),
        "uncles": m.block.uncles.as_ref().map(|u| u.len()), "withdrawals": m.block.withdrawals.as_ref().map(|u| u.len())})
}
pub fn blocks(ctx: &mut Ctx) {
    ctx.level("fork boundaries in turn; blocks, transactions and points of commit drawn at random");
    let mut rng = ctx.rng.fork("blocks");
    for i in 0..ctx.n(130, 3400) as usize {
        if ctx.saturated() {
            break;
        }
        let mut r = rng.fork(&format!("chain {i}"));
        let _ = rng.u64();
        one(ctx, &mut r, i);
    }
    ctx.require("block", 500);
    ctx.require("commit", 200);
    ctx.require("transaction done", 500);
    ctx.require("transaction undone", 20);
    ctx.require("transaction out of gas", 20);
    ctx.require("contract destroyed", 5);
    ctx.require("hash 256 back reachable", 2);
    ctx.require("rules told next to a fork", 20);
    ctx.require("traced", 50);
    ctx.require("wrong gas refused", 5);
}
fn one(ctx: &mut Ctx, r: &mut Rng, i: usize) {
    let start = match FORKS.get(i) {
        Some(f) if f.1 > 0 => f.1 - 1,
        _ => some_start(r, i),
    };
    let window = i % 9 == 4 && start > 1000;
    let start = if window { start - 255 } else { start };
    let count = r.usize_in(1, 4);
    let mut c = Chain::start(r, start, count);
    let config = StateConfig::default();
    let Ok(mut n) = seeded(&c.world, start, config.clone()) else {
        ctx.violation("state-refused", j!({"block": start}));
        return;
    };
    if !compare(ctx, &n.db, &c.world, &c.seen, &c.keys, "first commit") {
        return forget(&n.dir);
    }
    let mut exec = BlockExecutor::new(n.db.clone());
    if window {
        for _ in 0..r.range(255, 257) {
            let m = c.block(r, 0);
            if !run(ctx, &mut exec, &m, None) {
                return forget(&n.dir);
            }
        }
        ctx.event("hash 256 back reachable");
    }
    let blocks = r.usize_in(3, 9);
    let mut pending = window;
    for b in 0..blocks {
        let edge = FORKS.iter().any(|f| f.1 == c.next || f.1 == c.next + 1);
        let most = r.index(7).max(2 * edge as usize);
        let (before, told) = (c.world.clone(), c.told);
        let m = c.block(r, most);
        if c.told > told {
            ctx.event("rules told next to a fork");
        }
        if before == m.world && m.txs.is_empty() {
            ctx.eval_trivial("block");
        } else {
            ctx.eval("block", &(m.block.header.number, m.block.header.state_root));
        }
        ctx.event(fork(m.block.header.number).0);
        // A block that claims another amount of gas is refused and leaves nothing behind.
        if !pending && r.chance(1, 5) {
            let mut bad = m.block.clone();
            bad.header.gas_used = if r.bool() { bad.header.gas_used + 1 } else { bad.header.gas_used.wrapping_sub(1) };
            let got = ctx.no_panic("panic-while-executing", || text(&m), || exec.execute_block(&bad));
            ctx.check(!matches!(got, Some(Ok(()))), "wrong-gas-accepted", || text(&m));
            ctx.event("wrong gas refused");
            exec = BlockExecutor::new(n.db.clone());
        }
        let traced = r.chance(1, 4).then(Shared::default);
        if !run(ctx, &mut exec, &m, traced.clone()) {
            return forget(&n.dir);
        }
        pending = true;
        for (_, o) in &m.txs {
            ctx.event(match o.end {
                End::Done => "transaction done",
                End::Undone => "transaction undone",
                End::OutOfGas => "transaction out of gas",
            });
            if o.destroyed {
                ctx.event("contract destroyed");
            }
        }
        if r.chance(2, 3) || b + 1 == blocks {
            let done = std::mem::replace(&mut exec, BlockExecutor::new(n.db.clone()));
            if !commit(ctx, &mut n, done, &m) || !compare(ctx, &n.db, &m.world, &c.seen, &c.keys, &text(&m)) {
                return forget(&n.dir);
            }
            pending = false;
        }
        ctx.sample("block", || json!({"number": m.block.header.number, "fork": fork(m.block.header.number).0, "transactions": m.txs.len(), "state root": m.block.header.state_root.to_string()}));
    }
    drop(exec);
    forget(&n.dir);
}
fn run(ctx: &mut Ctx, exec: &mut BlockExecutor, m: &Made, traced: Option<Shared>) -> bool {
    ctx.event("block");
    let got = ctx.no_panic("panic-while-executing", || text(m), || match &traced {
        Some(t) => exec.execute_block_with_tracer(&m.block, |_| Some(TracerEip3155::new(Box::new(t.clone())))),
        None => exec.execute_block(&m.block),
    });
    if let (Some(t), Some(Ok(()))) = (&traced, &got) {
        let lines = t.0.lock().unwrap().iter().filter(|b| **b == b'\n').count();
        let want: usize = m.txs.iter().map(|(_, o)| o.steps + 1).sum();
        ctx.event("traced");
        ctx.check(lines == want, "trace-incomplete", || j!({"lines": lines, "want": want, "block": text(m)}));
    }
    match got {
        Some(Ok(())) => true,
        Some(Err(e)) => {
            ctx.violation("right-block-refused", j!({"error": format!("{e:#}"), "block": text(m)}));
            false
        }
        None => false,
    }
}
fn commit(ctx: &mut Ctx, n: &mut Node, exec: BlockExecutor, m: &Made) -> bool {
    ctx.event("commit");
    let want: B256 = m.block.header.state_root;
    match ctx.no_panic("panic-while-committing", || text(m), || exec.commit_bundle()) {
        Some(Ok(got)) => {
            let _ = n.at.update_position(n.db.db.clone(), &m.block.header);
            ctx.check(got.root == want, "state-root-wrong", || j!({"got": got.root.to_string(), "want": want.to_string(), "block": text(m)}))
        }
        Some(Err(e)) => {
            ctx.violation("commit-failed", j!({"error": format!("{e:#}"), "block": text(m)}));
            false
        }
        None => false,
    }
}
