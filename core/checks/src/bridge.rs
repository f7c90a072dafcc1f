use std::{collections::BTreeMap, str::FromStr};

use portal_bridge::types::{
    mode::{BridgeMode, ModeType},
    range::block_range_to_epochs,
};
use vcommon::{json, Ctx, Rng};

// -------------------------------------------------------------------------------------------
// B01 mode argument

/// `None`: the reading is not prescribed (numbers with a leading plus sign).
fn number(s: &str) -> Option<Result<u64, ()>> {
    if s.starts_with('+') {
        return None;
    }
    if s.is_empty() || !s.bytes().all(|b| b.is_ascii_digit()) {
        return Some(Err(()));
    }
    let mut v: u64 = 0;
    for b in s.bytes() {
        match v.checked_mul(10).and_then(|v| v.checked_add((b - b'0') as u64)) {
            Some(x) => v = x,
            None => return Some(Err(())),
        }
    }
    Some(Ok(v))
}

fn range_mode(s: &str) -> Option<Result<ModeType, ()>> {
    let Some(rest) = s.strip_prefix('r') else {
        return Some(Err(()));
    };
    let parts: Vec<&str> = rest.split('-').collect();
    if parts.len() != 2 {
        return Some(Err(()));
    }
    let (a, b) = (number(parts[0]), number(parts[1]));
    if a == Some(Err(())) || b == Some(Err(())) {
        return Some(Err(()));
    }
    match (a?, b?) {
        (Ok(a), Ok(b)) if a <= b => Some(Ok(ModeType::BlockRange(a, b))),
        _ => Some(Err(())),
    }
}

fn mode_of(s: &str) -> Option<Result<BridgeMode, ()>> {
    match s {
        "latest" => Some(Ok(BridgeMode::Latest)),
        "e2hs" => Some(Ok(BridgeMode::E2HS)),
        "ephemeral-history" => Some(Ok(BridgeMode::EphemeralHistory)),
        _ => match s.split_once(':') {
            Some(("single", v)) => range_mode(v).map(|r| r.map(BridgeMode::Single)),
            Some(("snapshot", v)) => number(v).map(|r| r.map(BridgeMode::Snapshot)),
            _ => Some(Err(())),
        },
    }
}

fn check_mode(ctx: &mut Ctx, s: &str) {
    let Some(got) = ctx.no_panic(
        "mode-panic",
        || format!("mode argument {s:?}"),
        || BridgeMode::from_str(s),
    ) else {
        ctx.eval("mode-panicked", s);
        return;
    };
    let Some(want) = mode_of(s) else {
        ctx.eval_trivial("mode-unprescribed");
        return;
    };
    ctx.eval(
        match &want {
            Ok(BridgeMode::Single(_)) => "mode-range",
            Ok(BridgeMode::Snapshot(_)) => "mode-snapshot",
            Ok(_) => "mode-plain",
            Err(_) => "mode-invalid",
        },
        s,
    );
    match (&got, &want) {
        (Ok(g), Ok(w)) => {
            ctx.check_eq(g, w, "mode-value", || format!("{s:?}"));
        }
        (Err(_), Err(_)) => {}
        (Ok(g), Err(_)) => ctx.violation("mode-accepts", format!("{s:?} accepted as {g:?}")),
        (Err(e), Ok(w)) => {
            ctx.violation("mode-refuses", format!("{s:?} refused ({e}), expected {w:?}"))
        }
    }
    ctx.sample("mode", || json!({ "arg": s, "result": format!("{got:?}") }));
}

fn check_range(ctx: &mut Ctx, s: &str) {
    let Some(got) = ctx.no_panic(
        "mode-range-panic",
        || format!("range argument {s:?}"),
        || ModeType::from_str(s),
    ) else {
        return;
    };
    let Some(want) = range_mode(s) else {
        return;
    };
    ctx.eval("range-argument", s);
    ctx.check(
        got.as_ref().ok() == want.as_ref().ok(),
        "mode-range-value",
        || format!("{s:?} read as {got:?}, expected {want:?}"),
    );
}

fn gen_number(rng: &mut Rng) -> String {
    match rng.below(8) {
        0 => "".into(),
        1 => "18446744073709551616".into(),
        2 => format!("{}", rng.u64() as u128 * 7),
        3 => format!("0{}", rng.below(100)),
        4 => (*rng.pick(&["x", " 1", "1 ", "-1", "1.0", "0x10", "1_000", "١", "1e3", "+1"])).to_string(),
        _ => format!("{}", rng.edgy_u64()),
    }
}

pub fn mode(ctx: &mut Ctx) {
    ctx.rule("mode arguments from a grammar of keywords, separators and numbers (extreme, malformed, multi-byte) plus character-level mutations of valid ones, each compared with an independent reading; a panic is never an acceptable answer; a case is a distinct argument");
    for s in [
        "", ":", "latest", "e2hs", "ephemeral-history", "Latest", "LATEST", "latest ", " latest",
        "latest:", "latest:5", "e2hs:", "e2hs:1-2", "ephemeral-history:1", "single", "single:",
        "single:r", "single:r-", "single:r1", "single:r1-", "single:r-1", "single:r1-2-3",
        "single:r0-0", "single:r5-5", "single:r6-5", "single:r10-12", "single:R10-12",
        "single:10-12", "single:e100", "single:b100", "single:é1-2", "single:😀", "single:r1–2",
        "single:r0-18446744073709551615", "single:r0-18446744073709551616",
        "single:r18446744073709551615-18446744073709551615", "single::r1-2", "single:r1:2",
        "snapshot", "snapshot:", "snapshot:0", "snapshot:1000000", "snapshot:-1", "snapshot:1.5",
        "snapshot:18446744073709551615", "snapshot:18446744073709551616", "snapshot:0x10",
        "snapshot:1:2", "snapshot:r1-2", "Snapshot:1", "Single:r1-2", "test:/a/b", "fourfours",
        "fourfours:r1-2", "backfill:r10-100", "single:r 1-2", "single:r1 -2", "single:rr1-2",
    ] {
        check_mode(ctx, s);
        if let Some((_, v)) = s.split_once(':') {
            check_range(ctx, v);
        }
    }
    check_range(ctx, "");
    ctx.check_eq(&BridgeMode::default(), &BridgeMode::Latest, "mode-default", || {
        "default mode".into()
    });
    for _ in 0..ctx.n(150_000, 1_500_000) {
        let rng = &mut ctx.rng;
        let mut s = match rng.below(6) {
            0 => (*rng.pick(&["latest", "e2hs", "ephemeral-history", "single", "snapshot"])).to_string(),
            1 => format!("snapshot:{}", gen_number(rng)),
            2 => {
                let a = rng.edgy_u64();
                let b = match rng.below(3) {
                    0 => rng.edgy_u64(),
                    1 => a.wrapping_add(rng.below(3)).wrapping_sub(1),
                    _ => a,
                };
                format!("single:r{a}-{b}")
            }
            3 => format!("single:r{}-{}", gen_number(rng), gen_number(rng)),
            4 => format!("single:{}{}-{}", *rng.pick(&["r", "", "é", "e", "R", "r r"]), gen_number(rng), gen_number(rng)),
            _ => format!("{}:{}", *rng.pick(&["single", "snapshot", "latest", "e2hs", "", "singl", "single "]), gen_number(rng)),
        };
        if rng.chance(1, 3) {
            let mut c: Vec<char> = s.chars().collect();
            if !c.is_empty() {
                let p = rng.index(c.len());
                match rng.below(3) {
                    0 => {
                        c.remove(p);
                    }
                    1 => c.insert(p, *rng.pick(&['-', ':', 'r', '0', '9', 'é', ' ', '+'])),
                    _ => c[p] = *rng.pick(&['-', ':', 'r', '0', '9', 'é', ' ', 'x']),
                }
            }
            s = c.into_iter().collect();
        }
        check_mode(ctx, &s);
        if let Some((_, v)) = s.split_once(':') {
            check_range(ctx, v);
        }
    }
    for k in ["mode-range", "mode-snapshot", "mode-plain", "mode-invalid", "range-argument"] {
        ctx.require(k, 3);
    }
}

// -------------------------------------------------------------------------------------------
// B02 epochs of a block range

fn check_epochs(ctx: &mut Ctx, start: u64, end: u64) {
    let Some(got) = ctx.no_panic(
        "epochs-panic",
        || format!("blocks {start}..={end}"),
        || block_range_to_epochs(start, end),
    ) else {
        return;
    };
    ctx.eval("range", &(start, end));
    let mut want: BTreeMap<u64, Option<(u64, u64)>> = BTreeMap::new();
    // walk the range epoch by epoch
    let mut at = start as u128;
    while at <= end as u128 {
        let epoch = at / 8192;
        let last = (epoch * 8192 + 8191).min(end as u128);
        let whole = at == epoch * 8192 && last == epoch * 8192 + 8191;
        want.insert(epoch as u64, (!whole).then_some((at as u64, last as u64)));
        at = last + 1;
    }
    let got: BTreeMap<u64, Option<(u64, u64)>> = got.into_iter().collect();
    if got != want {
        let diff: Vec<_> = got
            .iter()
            .filter(|(k, v)| want.get(k) != Some(v))
            .map(|(k, v)| format!("unexpected {k}: {v:?}"))
            .chain(
                want.iter()
                    .filter(|(k, v)| got.get(k) != Some(v))
                    .map(|(k, v)| format!("expected {k}: {v:?}")),
            )
            .take(6)
            .collect();
        ctx.violation("epochs-cover", format!("blocks {start}..={end}: {diff:?}"));
    }
    for v in want.values() {
        ctx.event(if v.is_none() { "whole-epoch" } else { "partial-epoch" });
    }
    ctx.sample("range", || json!({ "start": start, "end": end, "epochs": want.len() }));
}

pub fn epochs(ctx: &mut Ctx) {
    ctx.rule("block ranges: all combinations of offsets around epoch boundaries at low, mid and the highest epochs with spans of zero to several epochs, long spans, and random ranges; each compared with a block-by-block reconstruction of the covered epochs; a case is a distinct range");
    let offs: [u64; 9] = [0, 1, 2, 4095, 4096, 8189, 8190, 8191, 100];
    let bases: Vec<u64> = vec![0, 1, 2, 1000, 1896, 1897, 1 << 20, (1 << 51) - 6, u64::MAX / 8192 - 4];
    for b in &bases {
        for span in 0..=4u64 {
            for o in &offs {
                for p in &offs {
                    let s = (*b as u128) * 8192 + *o as u128;
                    let e = (*b as u128 + span as u128) * 8192 + *p as u128;
                    if e <= u64::MAX as u128 && s <= e {
                        check_epochs(ctx, s as u64, e as u64);
                    }
                }
            }
        }
    }
    for d in 0..20 {
        for l in 0..20 {
            check_epochs(ctx, u64::MAX - d - l * 1000, u64::MAX - d);
        }
    }
    check_epochs(ctx, u64::MAX, u64::MAX);
    check_epochs(ctx, 0, 25_000_000);
    check_epochs(ctx, 15_537_393, 15_537_394);
    for _ in 0..ctx.n(40_000, 500_000) {
        let s = match ctx.rng.below(3) {
            0 => ctx.rng.below(30_000_000),
            1 => ctx.rng.edgy_u64(),
            _ => ctx.rng.below(3000) * 8192 + ctx.rng.below(3),
        };
        let span = match ctx.rng.below(4) {
            0 => ctx.rng.below(8192),
            1 => ctx.rng.below(100_000),
            2 => 8192 * ctx.rng.below(20) + ctx.rng.below(3),
            _ => ctx.rng.below(10),
        };
        let e = s.saturating_add(span);
        check_epochs(ctx, s, e);
    }
    ctx.require("whole-epoch", 1000);
    ctx.require("partial-epoch", 1000);
}
