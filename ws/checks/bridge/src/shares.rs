//! How bridges are told apart and share work.
use std::{str::FromStr, time::Duration};

use alloy::primitives::B256;
use clap::Parser;
use discv5::enr::{CombinedKey, Enr};
use portal_bridge::{
    bridge::e2hs::BlockRange,
    cli::{BridgeConfig, BridgeId},
    utils::{duration_until_next_update, generate_spaced_private_keys},
};
use vcommon::{hex, unhex, Ctx, Rng};

use crate::light::GENESIS;

/// A number as people write it, or almost.
fn number(r: &mut Rng) -> String {
    match r.below(12) {
        0 => "".into(),
        1 => format!("-{}", r.below(9)),
        2 => format!(" {}", r.below(9)),
        3 => format!("{}x", r.below(9)),
        4 => u64::MAX.to_string(),
        5 => (u64::MAX as u128 + 1 + r.below(5) as u128).to_string(),
        6 => format!("0x{:x}", r.below(99)),
        7 => r.u64().to_string(),
        8 => "0".into(),
        _ => r.below(12).to_string(),
    }
}
/// Digits only (a leading plus is left open).
fn plain(s: &str) -> Option<u64> {
    (!s.is_empty() && s.bytes().all(|b| b.is_ascii_digit())).then(|| s.parse().ok()).flatten()
}
pub fn work(ctx: &mut Ctx) {
    ctx.rule("a bridge is given its number among so many bridges and takes each piece of work that is its: for any count every piece is taken by exactly one of them, and shares differ by at most one piece; numbers outside the count are refused; ranges of blocks read as they are written; keys made for several nodes belong to ids spread evenly from that of the given key; the next light client update is due four seconds into a slot");
    let mut r = ctx.rng.fork("shares");
    // numbers and ranges
    for case in 0..ctx.n(4000, 40000) {
        if ctx.saturated() {
            return;
        }
        let (a, b) = (number(&mut r), number(&mut r));
        let text = match r.below(8) {
            0 => a.clone(),
            1 => format!("{a}/{b}/{}", r.below(4)),
            _ => format!("{a}/{b}"),
        };
        let parts: Vec<&str> = text.split('/').collect();
        let want = match parts[..] {
            [x, y] => plain(x).zip(plain(y)).filter(|(x, y)| 0 < *x && x <= y),
            _ => None,
        };
        ctx.eval("bridge id", &(case, &text));
        let got = BridgeConfig::try_parse_from(["bridge", &format!("--bridge-id={text}")]).ok().map(|c| (c.bridge_id.id, c.bridge_id.total));
        ctx.event(if want.is_some() { "good id" } else { "bad id" });
        ctx.check(got == want, "bridge-id-misread", || format!("{text}: {got:?} not {want:?}"));
        let text = match r.below(8) {
            0 => a.clone(),
            1 => format!("{a}-{b}-{}", r.below(4)),
            _ => format!("{a}-{b}"),
        };
        let parts: Vec<&str> = text.split('-').collect();
        let want = match parts[..] {
            [x, ""] => plain(x).map(|x| (x, None)),
            [x, y] => plain(x).zip(plain(y)).map(|(x, y)| (x, Some(y))),
            _ => None,
        };
        let got = BlockRange::from_str(&text).ok().map(|b| (b.start, b.end));
        // a range that ends before it starts may be refused
        let empty = matches!(want, Some((x, Some(y))) if y < x);
        ctx.event(if want.is_some() { "good range" } else { "bad range" });
        ctx.check(got == want || (empty && got.is_none()), "range-misread", || format!("{text}: {got:?} not {want:?}"));
    }
    // shares
    for total in 1..=ctx.n(24, 200) {
        let ids: Vec<BridgeId> = (1..=total).filter_map(|i| BridgeId::from_str(&format!("{i}/{total}")).ok()).collect();
        ctx.check(ids.len() as u64 == total, "bridge-id-misread", || format!("of {total}"));
        let mut counts = vec![0u64; ids.len()];
        let from = if r.bool() { 0 } else { r.u64() / 2 };
        let n = 6 * total + r.below(total);
        for piece in from..from + n {
            let who: Vec<usize> = (0..ids.len()).filter(|i| ids[*i].is_selected(piece)).collect();
            ctx.eval("piece", &(total, piece));
            ctx.check(who.len() == 1, "not-exactly-one", || format!("piece {piece} of {total} bridges: {who:?}"));
            for w in who {
                counts[w] += 1;
            }
        }
        let (least, most) = (counts.iter().min().copied(), counts.iter().max().copied());
        ctx.check(most.zip(least).is_some_and(|(m, l)| m - l <= 1), "shares-uneven", || format!("{counts:?} from {from}"));
    }
    // keys
    for i in 0..ctx.n(12, 120) {
        let mut root: [u8; 32] = r.array();
        root[0] &= 0x7f;
        root[31] |= 1;
        let count = *r.pick(&[1u8, 2, 3, 4, 5, 8, 16]);
        let given = (i % 4 != 0).then(|| B256::from(root));
        let keys = generate_spaced_private_keys(count, given);
        ctx.event("keys made");
        ctx.check(keys.len() == count as usize, "wrong-number-of-keys", || format!("{} of {count}", keys.len()));
        if given.is_some() {
            ctx.check(keys.first().is_some_and(|k| unhex(k.trim_start_matches("0x")) == root), "given-key-not-first", || format!("{keys:?} for {}", hex(&root)));
        }
        let first: Vec<u8> = keys
            .iter()
            .filter_map(|k| CombinedKey::secp256k1_from_bytes(&mut unhex(k.trim_start_matches("0x"))).ok())
            .filter_map(|k| Enr::empty(&k).ok())
            .map(|e| e.node_id().raw()[0])
            .collect();
        ctx.eval("spread", &first);
        let step = (256 / count as u32).max(1);
        for w in first.windows(2) {
            let d = w[1].wrapping_sub(w[0]) as u32;
            ctx.check(d + 1 >= step && d <= step, "not-spread-evenly", || format!("{first:?} for {count}"));
        }
        ctx.check(first.len() == keys.len(), "unusable-key", || format!("{keys:?}"));
    }
    // when updates are due
    for _ in 0..ctx.n(300, 3000) {
        let at = GENESIS * 1000 + r.below(20_000_000 * 12_000);
        let (at, wait) = crate::clock::simulate(async move {
            crate::clock::set(at / 1000);
            crate::clock::step(Duration::from_millis(at % 1000));
            let now = std::time::SystemTime::now().duration_since(std::time::UNIX_EPOCH).unwrap_or_default();
            (now.as_millis(), duration_until_next_update())
        });
        let due = at + wait.as_millis();
        ctx.eval("update", &at);
        let into = (due - GENESIS as u128 * 1000) % 12_000;
        ctx.check((3_990..=4_000).contains(&into) && wait <= Duration::from_secs(12), "update-at-wrong-time", || format!("at {at} wait {wait:?}"));
    }
    for (k, n) in [("good id", 200), ("bad id", 200), ("good range", 200), ("bad range", 200), ("keys made", 10)] {
        ctx.require(k, n);
    }
}
