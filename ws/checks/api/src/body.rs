//! Bodies and receipts against the commitments of the header.
use alloy::consensus::Header;
use alloy_rlp::Decodable;
use ethportal_api::{BlockBody, ContentValue, HistoryContentKey, HistoryContentValue, Receipts};
use oracle::{
    exec::{self, Block, Era, Hdr, ERAS},
    keccak256, mpt, rlp,
};
use ssz::Decode;
use vcommon::{hex, json, Ctx, Rng};

pub fn header(h: &Hdr) -> Header {
    Header::decode(&mut h.rlp().as_slice()).expect("header of the checker is readable")
}

/// The verdicts of every validation entry point on this body with this header.
fn judge_body(c: &mut Ctx, b: &Block, h: &Hdr, want: bool, what: &str) {
    let hd = header(h);
    let key = (hex(&keccak256(&b.body_rlp())), hex(&h.hash()));
    c.eval(if want { "body accepted" } else { "body refused" }, &key);
    let ssz_body = c.no_panic("body-decode-panics", || what.into(), || BlockBody::from_ssz_bytes(&b.body_ssz()));
    let rlp_body = c.no_panic("body-decode-panics", || what.into(), || {
        HistoryContentValue::decode(&HistoryContentKey::new_block_body(h.number), &b.body_rlp())
    });
    if let Some(r) = ssz_body {
        // bodies with withdrawals and uncles do not exist in the older format
        match r {
            Ok(body) => {
                let got = vcommon::guard(|| body.validate_against_header(&hd).is_ok());
                c.check(got == Ok(want), if want { "matching-body-refused" } else { "wrong-body-accepted" }, || {
                    format!("{what}: {got:?} for {:?} block {} body {}", h.era, h.number, hex(&b.body_ssz()))
                });
            }
            Err(_) if b.withdrawals.is_some() && !b.ommers.is_empty() => {
                c.event("uncles after the merge refused on decoding");
            }
            Err(e) => c.violation("body-unreadable", format!("{what}: {e:?} {}", hex(&b.body_ssz()))),
        }
    }
    if let Some(r) = rlp_body {
        match r {
            Ok(v) => {
                let got = vcommon::guard(|| v.validate(&hd));
                c.check(got == Ok(want), if want { "matching-body-refused" } else { "wrong-body-accepted" }, || {
                    format!("{what}: {got:?} for {:?} block {} body {}", h.era, h.number, hex(&b.body_rlp()))
                });
            }
            Err(e) => c.violation("body-unreadable", format!("{what}: {e:?} {}", hex(&b.body_rlp()))),
        }
    }
}

fn judge_receipts(c: &mut Ctx, b: &Block, h: &Hdr, want: bool, what: &str) {
    let hd = header(h);
    c.eval(if want { "receipts accepted" } else { "receipts refused" }, &(hex(&keccak256(&b.receipts_ssz())), hex(&h.hash())));
    let ssz = c.no_panic("receipts-decode-panics", || what.into(), || Receipts::from_ssz_bytes(&b.receipts_ssz()));
    match ssz {
        Some(Ok(r)) => {
            let root = vcommon::guard(|| r.root());
            let expect = mpt::ordered_root(&b.receipts);
            c.check(matches!(&root, Ok(x) if x.0 == expect), "receipts-root", || format!("{what}: {root:?}, expected {}", hex(&expect)));
        }
        Some(Err(e)) => c.violation("receipts-unreadable", format!("{what}: {e:?}")),
        None => {}
    }
    let v = c.no_panic("receipts-decode-panics", || what.into(), || {
        HistoryContentValue::decode(&HistoryContentKey::new_block_receipts(h.number), &b.receipts_rlp7642())
    });
    match v {
        Some(Ok(v)) => {
            let got = vcommon::guard(|| v.validate(&hd));
            c.check(got == Ok(want), if want { "matching-receipts-refused" } else { "wrong-receipts-accepted" }, || {
                format!("{what}: {got:?} {}", hex(&b.receipts_rlp7642()))
            });
        }
        Some(Err(e)) => c.violation("receipts-unreadable", format!("{what}: {e:?} {}", hex(&b.receipts_rlp7642()))),
        None => {}
    }
}

fn tamper(r: &mut Rng, b: &Block) -> (Block, &'static str) {
    let mut m = b.clone();
    let n = m.txs.len();
    loop {
        match r.below(13) {
            0 if n > 0 => {
                m.txs.pop();
                return (m, "last transaction dropped");
            }
            1 if n > 0 => {
                m.txs.remove(0);
                return (m, "first transaction dropped");
            }
            2 if n > 1 && m.txs[0] != m.txs[n - 1] => {
                m.txs.swap(0, n - 1);
                return (m, "transactions swapped");
            }
            3 => {
                let ty = r.below(exec::tx_types(b.header.era)) as u8;
                m.txs.push(exec::tx(r, ty));
                return (m, "transaction added");
            }
            4 if n > 0 => {
                let t = m.txs[r.index(n)].clone();
                m.txs.push(t);
                return (m, "transaction repeated");
            }
            5 if n > 0 => {
                let i = r.index(n);
                let ty = r.below(exec::tx_types(b.header.era)) as u8;
                m.txs[i] = exec::tx(r, ty);
                return (m, "transaction replaced");
            }
            6 if b.header.era < Era::Paris => {
                m.ommers.push(Hdr::random(r, b.header.era));
                return (m, "uncle added");
            }
            7 if !m.ommers.is_empty() => {
                m.ommers.pop();
                return (m, "uncle dropped");
            }
            8 if m.withdrawals.as_ref().is_some_and(|w| !w.is_empty()) => {
                m.withdrawals.as_mut().unwrap().pop();
                return (m, "withdrawal dropped");
            }
            9 if m.withdrawals.is_some() => {
                let w = exec::withdrawal(r);
                m.withdrawals.as_mut().unwrap().push(w);
                return (m, "withdrawal added");
            }
            10 if m.withdrawals.is_some() => {
                m.withdrawals = None;
                return (m, "withdrawals omitted");
            }
            11 if m.withdrawals.is_none() && m.ommers.is_empty() => {
                m.withdrawals = Some(vec![]);
                return (m, "empty withdrawals invented");
            }
            12 if m.withdrawals.as_ref().is_some_and(|w| !w.is_empty()) => {
                let w = exec::withdrawal(r);
                let v = m.withdrawals.as_mut().unwrap();
                let i = r.index(v.len());
                v[i] = w;
                return (m, "withdrawal replaced");
            }
            _ => {}
        }
    }
}

pub fn bodies_and_receipts(c: &mut Ctx) {
    c.rule("a body or receipt list is accepted against a header exactly when the roots recomputed by the checker equal those in the header; every single tampering must be refused");
    c.assume("transaction and receipt objects come from a stand-in for the external library");
    let mut r = c.rng.fork("body");
    for i in 0..c.n(3_000, 60_000) {
        if c.saturated() {
            break;
        }
        let era = ERAS[(i % 6) as usize];
        let max = if i % 40 == 0 { 300 } else { *r.pick(&[0usize, 1, 2, 3, 5, 17]) };
        let b = Block::random(&mut r, era, max);
        let h = b.header.clone();
        judge_body(c, &b, &h, true, "untouched");
        judge_receipts(c, &b, &h, true, "untouched");
        c.event(&format!("{era:?} block"));
        c.sample("block", || json!({"era": format!("{era:?}"), "txs": b.txs.len(), "uncles": b.ommers.len(), "withdrawals": b.withdrawals.as_ref().map(|w| w.len())}));
        for _ in 0..2 {
            let (m, what) = tamper(&mut r, &b);
            c.event(what);
            judge_body(c, &m, &h, false, what);
        }
        // header fields changed instead
        let mut g = h.clone();
        match r.below(3) {
            0 => g.txs_root[r.index(32)] ^= 1,
            1 => g.ommers[r.index(32)] ^= 0x80,
            _ if era >= Era::Shanghai => g.withdrawals_root[r.index(32)] ^= 4,
            _ => g.txs_root[31] ^= 1,
        }
        judge_body(c, &b, &g, false, "header root changed");
        // unrelated header fields do not matter
        let mut g = h.clone();
        g.gas_used ^= 1;
        g.extra = r.bytes(5);
        g.state_root = r.array();
        judge_body(c, &b, &g, true, "unrelated header fields changed");
        judge_receipts(c, &b, &g, true, "unrelated header fields changed");
        let mut m = b.clone();
        let n = m.receipts.len();
        let what = match r.below(4) {
            0 if n > 0 => {
                m.receipts.pop();
                m.receipts7642.pop();
                "receipt dropped"
            }
            1 if n > 1 && m.receipts[0] != m.receipts[n - 1] => {
                m.receipts.swap(0, n - 1);
                m.receipts7642.swap(0, n - 1);
                "receipts swapped"
            }
            2 if n > 0 => {
                let x = exec::receipt(&mut r, 0);
                let i = r.index(n);
                m.receipts[i] = x.raw;
                m.receipts7642[i] = x.eip7642;
                "receipt replaced"
            }
            _ => {
                let x = exec::receipt(&mut r, 0);
                m.receipts.push(x.raw);
                m.receipts7642.push(x.eip7642);
                "receipt added"
            }
        };
        judge_receipts(c, &m, &h, false, what);
        // receipts of the right kind but a different transaction type
        if n > 0 {
            let mut m = b.clone();
            let i = r.index(n);
            let item = rlp::parse_all(&m.receipts7642[i]).unwrap();
            let f = item.as_list().unwrap();
            let ty = f[0].as_bytes().unwrap().first().copied().unwrap_or(0);
            let other = (ty + 1 + r.below(4) as u8) % 5;
            let mut parts: Vec<Vec<u8>> = f.iter().map(|x| x.encode()).collect();
            parts[0] = rlp::uint(other as u128);
            m.receipts7642[i] = rlp::list(&parts);
            let body = if ty == 0 { m.receipts[i].clone() } else { m.receipts[i][1..].to_vec() };
            m.receipts[i] = if other == 0 { body } else { [vec![other], body].concat() };
            judge_receipts(c, &m, &h, false, "receipt type changed");
        }
    }
    real_blocks(c);
    for k in ["body accepted", "body refused", "receipts accepted", "receipts refused", "withdrawals omitted", "empty withdrawals invented", "uncle added", "transactions swapped", "Frontier block", "Prague block"] {
        c.require(k, 5);
    }
}

/// Mainnet bodies and receipts shipped with the repository.
fn real_blocks(c: &mut Ctx) {
    for f in ["crates/ethportal-api/src/assets/test/block_body_14764013.bin", "test_assets/mainnet/block_body_14764013.bin", "test_assets/mainnet/block_body_17139055.bin"] {
        let Ok(bytes) = std::fs::read(format!("/repo/{f}")) else { continue };
        let Ok(b) = BlockBody::from_ssz_bytes(&bytes) else {
            c.violation("mainnet-body-unreadable", f);
            continue;
        };
        c.eval("mainnet body", f);
        let known = if f.contains("14764013") {
            "18a2978fc62cd1a23e90de920af68c0c3af3330327927cda4c005faccefb5ce7"
        } else {
            ""
        };
        let root = hex(b.transactions_root().as_slice());
        if !known.is_empty() {
            c.check_eq(&root, &known.to_string(), "mainnet-transactions-root", || f.into());
        }
        use ssz::Encode;
        c.check(b.as_ssz_bytes() == bytes, "mainnet-body-changes", || f.into());
    }
    c.require("mainnet body", 1);
}
