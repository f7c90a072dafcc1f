//! Headers, bodies and receipts against their keys and the chain.
use std::{
    collections::BTreeMap,
    sync::{Arc, Mutex},
};

use e2store::era1::Era1;
use ethportal_api::{
    consensus::historical_summaries::HistoricalSummaries,
    types::jsonrpc::{endpoints::LegacyHistoryEndpoint, request::LegacyHistoryJsonRpcRequest},
    OverlayContentKey,
};
use oracle::{exec::Block, keccak256, sha2, ssz as ossz, H};
use ssz::Encode;
use tokio::{
    runtime::Runtime,
    sync::{mpsc, RwLock},
};
use trin_legacy_history::validation::LegacyHistoryValidator;
use trin_validation::{
    header_validator::HeaderValidator,
    oracle::HeaderOracle,
    validator::{ValidationResult, Validator},
};
use vcommon::{hex, json, Ctx, Rng};

use crate::{
    blocks::{self, body, by_hash, by_number, header_content, key, proven, receipts, Proven},
    header::{Kind, World, KINDS},
};

/// What the network finds when asked for headers.
type Found = Arc<Mutex<BTreeMap<Vec<u8>, Vec<u8>>>>;
fn history(rt: &Runtime, found: Found) -> Arc<RwLock<HeaderOracle>> {
    let (tx, mut rx) = mpsc::unbounded_channel::<LegacyHistoryJsonRpcRequest>();
    rt.spawn(async move {
        while let Some(q) = rx.recv().await {
            let a = match &q.endpoint {
                LegacyHistoryEndpoint::GetContent(k) => match found.lock().unwrap().get(&k.to_bytes().to_vec()) {
                    Some(v) => Ok(json!({"content": format!("0x{}", hex(v)), "utpTransfer": false})),
                    None => Err("not found".to_string()),
                },
                _ => Err("unexpected".to_string()),
            };
            let _ = q.resp.send(a);
        }
    });
    Arc::new(RwLock::new(HeaderOracle { legacy_history_jsonrpc_tx: Some(tx), ..Default::default() }))
}
fn spoil(r: &mut Rng, b: &[u8]) -> Vec<u8> {
    let mut v = b.to_vec();
    match r.below(6) {
        0 => {
            let n = r.index(v.len().max(1));
            v.truncate(n);
        }
        1 => v.push(r.u8()),
        2 => v.extend([0, 0, 0, 0]),
        _ if !v.is_empty() => {
            let n = r.index(v.len());
            v[n] ^= 1 << r.below(8);
        }
        _ => v.push(0),
    }
    v
}
/// The block with something changed, the header excepted.
fn other_body(r: &mut Rng, b: &Block, o: &Block) -> (Block, &'static str) {
    let mut x = b.clone();
    let what = match r.below(9) {
        0 => {
            x.txs.pop();
            "transaction left out"
        }
        1 => {
            x.txs.extend(o.txs.first().cloned());
            "transaction added"
        }
        2 if x.txs.len() > 1 => {
            let i = r.index(x.txs.len() - 1);
            x.txs.swap(i, i + 1);
            "transactions swapped"
        }
        3 => {
            x.ommers.extend(o.ommers.first().cloned());
            x.ommers.extend((o.ommers.is_empty()).then(|| o.header.clone()));
            "uncle added"
        }
        4 => {
            x.ommers.pop();
            "uncle left out"
        }
        5 => {
            match &mut x.withdrawals {
                Some(w) => drop(w.pop()),
                None => x.withdrawals = Some(vec![]),
            }
            "withdrawal left out"
        }
        6 => {
            x.withdrawals = match x.withdrawals {
                Some(_) => None,
                None => o.withdrawals.clone(),
            };
            "withdrawals of another kind"
        }
        7 => {
            if let Some(w) = &mut x.withdrawals {
                w.push(oracle::exec::withdrawal(r));
            }
            "withdrawal added"
        }
        _ => {
            x.txs = o.txs.clone();
            x.ommers = o.ommers.clone();
            x.withdrawals = o.withdrawals.clone();
            "body of another"
        }
    };
    (x, what)
}
struct Bench<'a> {
    rt: &'a Runtime,
    v: LegacyHistoryValidator,
}
impl Bench<'_> {
    fn judge(&self, ctx: &mut Ctx, k: &[u8], value: &[u8], want: bool, what: &str) {
        let key = key(k);
        ctx.eval("content", &(k, value, what));
        let Some(got) = ctx.no_panic("panic-while-judging", || j!({"what": what, "key": hex(k), "value": hex(value)}), || self.rt.block_on(self.v.validate_content(&key, value))) else { return };
        let sort = ["header by hash", "body", "receipts", "header by number"][k[0] as usize & 3];
        let ok = match got {
            ValidationResult::CanonicallyValid => want,
            ValidationResult::Invalid(_) => !want,
            ValidationResult::Valid => false,
        };
        ctx.event(&format!("{sort}: {}", if want { "right" } else { "wrong" }));
        ctx.check(ok, &format!("{}-{}", if want { "right" } else { "wrong" }, sort.replace(' ', "-")), || j!({"what": what, "key": hex(k), "value": hex(value), "got": format!("{got:?}").chars().take(300).collect::<String>()}));
    }
}
fn made_up(ctx: &mut Ctx, rt: &Runtime, r: &mut Rng) {
    let mut w: World = blocks::world(r);
    let kinds: Vec<Kind> = (0..3).map(|_| *r.pick(&KINDS)).collect();
    let mut list: Vec<Proven> = kinds.into_iter().map(|k| proven(r, k, &mut w)).collect();
    // a later one may have taken the place of an earlier one
    list.retain(|p| p.claim.holds(&w));
    let found: Found = Arc::default();
    let oracle = history(rt, found.clone());
    let base = HeaderValidator::new_with_historical_summaries(HistoricalSummaries::default());
    let b = Bench { rt, v: LegacyHistoryValidator { header_oracle: oracle, header_validator: w.validator(&base, r) } };
    for i in 0..list.len() {
        let p = &list[i];
        let o = &list[(i + 1) % list.len()];
        let h = p.block.header.hash();
        let content = header_content(&p.claim);
        let alone = list.len() == 1;
        // headers
        b.judge(ctx, &by_hash(&h), &content, true, "true");
        b.judge(ctx, &by_number(p.block.header.number), &content, true, "true");
        let mut wrong = h;
        wrong[r.index(32)] ^= 1 << r.below(8);
        b.judge(ctx, &by_hash(&wrong), &content, false, "another hash");
        for n in [p.block.header.number.wrapping_add(1), p.block.header.number.wrapping_sub(1), p.block.header.number ^ 1 << r.below(64)] {
            b.judge(ctx, &by_number(n), &content, false, "another number");
        }
        if !alone {
            b.judge(ctx, &by_hash(&h), &header_content(&o.claim), false, "header of another");
            b.judge(ctx, &by_number(p.block.header.number), &header_content(&o.claim), p.block.header.number == o.block.header.number, "header of another");
        }
        for _ in 0..4 {
            let mut c = p.claim.clone();
            let what = match r.below(4) {
                0 if !c.exec.is_empty() => {
                    let i = r.index(c.exec.len());
                    c.exec[i][r.index(32)] ^= 1 << r.below(8);
                    "proof element"
                }
                1 => {
                    c.slot = c.slot.wrapping_add(1 + r.below(3));
                    "slot"
                }
                2 => {
                    c.hdr.gas_used ^= 1;
                    "header field"
                }
                _ => {
                    let i = r.index(c.beacon.len());
                    c.beacon[i][r.index(32)] ^= 1 << r.below(8);
                    "proof element"
                }
            };
            let want = c.holds(&w);
            let bytes = header_content(&c);
            b.judge(ctx, &by_number(c.hdr.number), &bytes, want, what);
            b.judge(ctx, &by_hash(&c.hdr.hash()), &bytes, want, what);
            b.judge(ctx, &by_hash(&h), &bytes, want && c.hdr.hash() == h, what);
        }
        for _ in 0..3 {
            let bytes = spoil(r, &content);
            b.judge(ctx, &by_hash(&h), &bytes, false, "raw");
        }
        // bodies and receipts, with the header at hand or not
        let (bk, rk) = (body(&h), receipts(&h));
        b.judge(ctx, &bk, &p.block.body_ssz(), false, "header not found");
        b.judge(ctx, &rk, &p.block.receipts_ssz(), false, "header not found");
        found.lock().unwrap().insert(by_hash(&h), content[..content.len() / 2].to_vec());
        b.judge(ctx, &bk, &p.block.body_ssz(), false, "header unreadable");
        b.judge(ctx, &rk, &p.block.receipts_ssz(), false, "header unreadable");
        found.lock().unwrap().insert(by_hash(&h), content.clone());
        b.judge(ctx, &bk, &p.block.body_ssz(), true, "true");
        b.judge(ctx, &rk, &p.block.receipts_ssz(), true, "true");
        let other = Block::random(r, *r.clone().pick(&[oracle::exec::Era::Frontier, oracle::exec::Era::Cancun]), 5);
        for _ in 0..6 {
            let from = if r.bool() { &o.block } else { &other };
            let (x, what) = other_body(r, &p.block, from);
            let bytes = x.body_ssz();
            b.judge(ctx, &bk, &bytes, bytes == p.block.body_ssz(), what);
            let bytes = spoil(r, &p.block.body_ssz());
            b.judge(ctx, &bk, &bytes, bytes == p.block.body_ssz(), "raw body");
            let mut x = p.block.clone();
            match r.below(4) {
                0 => drop(x.receipts.pop()),
                1 if x.receipts.len() > 1 => x.receipts.swap(0, 1),
                2 => x.receipts.extend(other.receipts.first().cloned()),
                _ => x.receipts = other.receipts.clone(),
            }
            b.judge(ctx, &rk, &x.receipts_ssz(), x.receipts == p.block.receipts, "receipts changed");
            let bytes = spoil(r, &p.block.receipts_ssz());
            b.judge(ctx, &rk, &bytes, bytes == p.block.receipts_ssz(), "raw receipts");
        }
        b.judge(ctx, &rk, &p.block.body_ssz(), p.block.body_ssz() == p.block.receipts_ssz(), "body as receipts");
        found.lock().unwrap().clear();
    }
    // short lived headers are not taken
    if let Some(p) = list.first() {
        let h = p.block.header.hash();
        for k in [[&[4u8][..], &h, &[r.u8()]].concat(), [&[5u8][..], &h].concat()] {
            let Ok(k) = ethportal_api::LegacyHistoryContentKey::try_from_bytes(&k) else { continue };
            for v in [header_content(&p.claim), p.block.header.rlp(), vec![]] {
                ctx.eval("ephemeral", &(k.to_bytes().to_vec(), &v));
                let got = ctx.no_panic("panic-while-judging", || hex(&v), || rt.block_on(b.v.validate_content(&k, &v)));
                ctx.check(matches!(got, Some(ValidationResult::Invalid(_))), "short-lived-header-accepted", || format!("{got:?}"));
            }
        }
    }
    ctx.sample("worlds", || json!(list.iter().map(|p| format!("{:?} {}", p.claim.kind, p.block.header.number)).collect::<Vec<_>>()));
}
/// Blocks of mainnet against the roots built into the code.
fn recorded(ctx: &mut Ctx, rt: &Runtime, r: &mut Rng) {
    let mut total = [0u8; 32];
    let mut files: Vec<_> = std::fs::read_dir("/repo/test_assets/era1").map(|d| d.flatten().map(|f| f.path()).collect()).unwrap_or_default();
    files.sort();
    for (epoch, f) in files.iter().enumerate() {
        let Ok(era) = Era1::deserialize(&std::fs::read(f).unwrap_or_default()) else {
            ctx.violation("recorded-file-unreadable", format!("{f:?}"));
            return;
        };
        if era.block_tuples.first().map(|t| t.header.header.number) != Some(epoch as u64 * 8192) {
            return;
        }
        // total difficulties are summed up from the first block on
        let mut leaves: Vec<(H, H)> = vec![];
        for t in &era.block_tuples {
            let d: [u8; 32] = t.header.header.difficulty.to_le_bytes();
            let mut carry = 0u16;
            for (a, b) in total.iter_mut().zip(d) {
                carry += *a as u16 + b as u16;
                *a = carry as u8;
                carry >>= 8;
            }
            leaves.push((t.header.header.hash_slow().0, total));
        }
        let nodes: Vec<H> = leaves.iter().map(|(a, b)| sha2(a, b)).collect();
        let found: Found = Arc::default();
        let oracle = history(rt, found.clone());
        let b = Bench { rt, v: LegacyHistoryValidator::new(oracle) };
        let n = ctx.n(15, 200);
        for _ in 0..n {
            let i = match r.below(6) {
                0 => r.index(3),
                1 => leaves.len() - 1 - r.index(3),
                _ => r.index(leaves.len()),
            };
            let t = &era.block_tuples[i];
            let mut len = [0u8; 32];
            len[..8].copy_from_slice(&(leaves.len() as u64).to_le_bytes());
            let mut proof = vec![leaves[i].1];
            proof.extend(ossz::merkle_proof(&nodes, 13, i));
            proof.push(len);
            let rlp = alloy_rlp::encode(&t.header.header);
            let flat = proof.concat();
            let content = ossz::container(&[ossz::Part::Var(rlp.clone()), ossz::Part::Var(flat.clone())]);
            let h = keccak256(&rlp);
            ctx.event("recorded block");
            let number = t.header.header.number;
            b.judge(ctx, &by_hash(&h), &content, true, "recorded");
            b.judge(ctx, &by_number(number), &content, true, "recorded");
            b.judge(ctx, &by_number(number + 1), &content, false, "recorded, another number");
            let mut p = flat;
            let at = r.index(p.len());
            p[at] ^= 1 << r.below(8);
            b.judge(ctx, &by_hash(&h), &ossz::container(&[ossz::Part::Var(rlp), ossz::Part::Var(p)]), false, "recorded, proof altered");
            found.lock().unwrap().insert(by_hash(&h), content);
            let (bv, rv) = (t.body.body.as_ssz_bytes(), t.receipts.receipts.as_ssz_bytes());
            b.judge(ctx, &body(&h), &bv, true, "recorded");
            b.judge(ctx, &receipts(&h), &rv, true, "recorded");
            b.judge(ctx, &body(&h), &spoil(r, &bv), false, "recorded, altered");
            let altered = spoil(r, &rv);
            b.judge(ctx, &receipts(&h), &altered, altered == rv, "recorded, altered");
        }
    }
}
pub fn contents(ctx: &mut Ctx) {
    ctx.level("blocks of all eras drawn at random with anchored proofs, and recorded ones of mainnet, each with systematic alterations");
    let mut r = ctx.rng.fork("history contents");
    let rt = crate::rt();
    recorded(ctx, &rt, &mut r);
    for _ in 0..ctx.n(60, 2500) {
        if ctx.saturated() {
            break;
        }
        made_up(ctx, &rt, &mut r);
    }
    for s in ["header by hash", "header by number", "body", "receipts"] {
        ctx.require(&format!("{s}: right"), 50);
        ctx.require(&format!("{s}: wrong"), 100);
    }
    ctx.require("recorded block", 20);
}
