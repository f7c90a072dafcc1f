//! Files of execution blocks.
use e2store::{
    e2hs::{self, E2HSMemory, E2HSWriter},
    era1::{self, Era1},
    types::HeaderEntry,
};
use oracle::{
    exec::{Block, Era},
    rlp, ssz as ossz,
};
use ssz::Encode;
use vcommon::{hex, json, Ctx, Rng};

use crate::{entry, frame, scratch, split, unframe};

const N: usize = 8192;

fn receipts_rlp(b: &Block) -> Vec<u8> {
    rlp::list(&b.receipts.iter().map(|t| if t[0] >= 0xc0 { t.clone() } else { rlp::bytes(t) }).collect::<Vec<_>>())
}

/// What one block is made of: header, body, receipts (uncompressed) and the fourth part.
#[derive(Clone)]
struct Parts {
    hash: [u8; 32],
    header: Vec<u8>,
    body: Vec<u8>,
    receipts: Vec<u8>,
    td: [u8; 32],
}

fn era1_parts(r: &mut Rng, number: u64, max: usize) -> Parts {
    let era = if number >= oracle::exec::LONDON_BLOCK { Era::London } else { Era::Frontier };
    let mut b = Block::random(r, era, max);
    b.header.number = number;
    Parts { hash: b.header.hash(), header: b.header.rlp(), body: b.body_rlp(), receipts: receipts_rlp(&b), td: r.array() }
}

fn e2hs_parts(r: &mut Rng, era: Era, number: u64, max: usize) -> Parts {
    let mut b = Block::random(r, era, max);
    b.header.number = number;
    let n = match era {
        Era::Frontier | Era::London => 15 * 32,
        Era::Paris => 14 * 32 + 32 + 11 * 32 + 8,
        Era::Shanghai => 13 * 32 + 32 + 11 * 32 + 8,
        _ => 13 * 32 + 32 + 12 * 32 + 8,
    };
    let proof = r.bytes(n);
    Parts { hash: b.header.hash(), header: ossz::var_list(&[b.header.rlp(), proof]), body: b.body_rlp(), receipts: receipts_rlp(&b), td: [0; 32] }
}

struct File {
    bytes: Vec<u8>,
    offsets: Vec<u64>,
    index_at: usize,
}

fn file(r: &mut Rng, parts: &[Parts], with_td: bool, start: u64, acc: Option<[u8; 32]>) -> File {
    let mut bytes = entry(0x6532, &[]);
    let mut offsets = vec![];
    for p in parts {
        offsets.push(bytes.len() as u64);
        let chunk = if r.chance(1, 3) { 1 + r.index(300) } else { 65536 };
        bytes.extend(entry(if with_td { 0x0300 } else { 0x0301 }, &frame(&p.header, chunk)));
        bytes.extend(entry(0x0400, &frame(&p.body, chunk)));
        bytes.extend(entry(0x0500, &frame(&p.receipts, chunk)));
        if with_td {
            bytes.extend(entry(0x0600, &p.td));
        }
    }
    if let Some(a) = acc {
        bytes.extend(entry(0x0700, &a));
    }
    let index_at = bytes.len();
    bytes.extend(entry(0x6632, &index(start, &offsets, parts.len() as u64)));
    File { bytes, offsets, index_at }
}

fn index(start: u64, offsets: &[u64], count: u64) -> Vec<u8> {
    let mut ix = start.to_le_bytes().to_vec();
    for o in offsets {
        ix.extend_from_slice(&o.to_le_bytes());
    }
    ix.extend_from_slice(&count.to_le_bytes());
    ix
}

/// Parts of a file, with compressed ones opened.
fn opened(b: &[u8]) -> Option<Vec<(u16, Vec<u8>)>> {
    split(b)?
        .into_iter()
        .map(|(t, v)| match t {
            0x0300 | 0x0301 | 0x0400 | 0x0500 => unframe(v).map(|x| (t, x)),
            _ => Some((t, v.to_vec())),
        })
        .collect()
}

fn era1_tuple_ok(t: &era1::BlockTuple, p: &Parts) -> bool {
    alloy_rlp::encode(&t.header.header) == p.header
        && alloy_rlp::encode(&t.body.body) == p.body
        && alloy_rlp::encode(&t.receipts.receipts) == p.receipts
}

fn e2hs_tuple_ok(t: &e2hs::BlockTuple, p: &Parts) -> bool {
    t.header_with_proof.header_with_proof.as_ssz_bytes() == p.header
        && alloy_rlp::encode(&t.body.body) == p.body
        && alloy_rlp::encode(&t.receipts.receipts) == p.receipts
}

fn era1_file(c: &mut Ctx, i: u64, n: usize) {
    let mut r = c.rng.fork(&format!("era1-{i}"));
    let epoch = if n == N { r.below(1896) } else { 1896 };
    let distinct: Vec<Parts> = (0..40).map(|k| era1_parts(&mut r, epoch * 8192 + k, 3)).collect();
    let parts: Vec<Parts> = (0..n)
        .map(|_| {
            let mut p = distinct[r.index(40)].clone();
            p.td = r.array();
            p
        })
        .collect();
    let acc: [u8; 32] = r.array();
    let f = file(&mut r, &parts, true, epoch * 8192, Some(acc));
    let what = || format!("era1 file of {n} blocks");
    let Some(got) = c.no_panic("era1-panic", what, || Era1::deserialize(&f.bytes)) else { return };
    c.eval("era1 file", &(i, n));
    match got {
        Err(e) => c.violation("era1-refused", format!("{}: {e}", what())),
        Ok(e) => {
            c.check_eq(&e.block_tuples.len(), &n, "era1-count", what);
            c.check_eq(&e.epoch_number(), &epoch, "era1-epoch", what);
            c.check(e.block_index.block_index.indices == f.offsets && e.block_index.block_index.count == n as u64, "era1-index", what);
            for (k, (t, p)) in e.block_tuples.iter().zip(&parts).enumerate() {
                if k % 16 == 0 || k + 1 == n {
                    c.event("era1 block");
                    c.check(era1_tuple_ok(t, p), "era1-block", || format!("{}: block {k}", what()));
                }
            }
            // Written again: the same parts in the same order.
            match e.write() {
                Ok(w) => {
                    c.event("era1 written");
                    c.check(opened(&w) == opened(&f.bytes), "era1-written", what);
                }
                Err(e) => c.violation("era1-not-written", format!("{}: {e}", what())),
            }
        }
    }
    let it = c.no_panic("era1-iter-panic", what, || Era1::iter_tuples(&f.bytes).map(|it| it.enumerate().all(|(k, t)| k % 16 != 0 || era1_tuple_ok(&t, &parts[k]))));
    c.check(matches!(it, Some(Ok(true))), "era1-iteration", what);
    // Damaged structure.
    damage(c, &mut r, &f, n, 4, |b| Era1::deserialize(b).is_ok(), |b| Era1::iter_tuples(b).is_ok());
}

/// Structure that does not fit is refused, whichever way it is broken.
fn damage(c: &mut Ctx, r: &mut Rng, f: &File, n: usize, per: usize, full: impl Fn(&[u8]) -> bool, iter: impl Fn(&[u8]) -> bool) {
    let starts: Vec<usize> = f.offsets.iter().map(|o| *o as usize).collect();
    let mut cases: Vec<(&str, Vec<u8>, bool)> = vec![];
    let ix = |count: u64, entries: usize| {
        let mut b = f.bytes[..f.index_at].to_vec();
        b.extend(entry(0x6632, &index(0, &f.offsets[..entries.min(f.offsets.len())], count)));
        b
    };
    cases.push(("count too large", ix(n as u64 + 1, n), true));
    cases.push(("count huge", ix(u64::MAX, n), true));
    cases.push(("count huge", ix(1 << 62, n), true));
    cases.push(("count too small", ix(n as u64 - 1, n), true));
    cases.push(("index too short", ix(n as u64 - 1, n - 1), true));
    // index of the other permitted size
    let mut b = f.bytes[..f.index_at].to_vec();
    let other = if n == N { 5362 } else { N };
    b.extend(entry(0x6632, &index(0, &vec![0; other], other as u64)));
    cases.push(("index of another size", b, per == 3 || n < other));
    // one entry removed
    let k = r.index(n - 1);
    let s = starts[k];
    let first = split(&f.bytes[s..starts[k + 1]]).expect("own file")[0].1.len() + 8;
    let mut b = f.bytes.clone();
    b.drain(s..s + first);
    cases.push(("entry removed", b, false));
    let mut b = f.bytes.clone();
    b.drain(s..starts[k + 1]);
    cases.push(("block removed", b, false));
    cases.push(("no index", f.bytes[..f.index_at].to_vec(), true));
    cases.push(("no version", f.bytes[8..].to_vec(), false));
    cases.push(("empty", vec![], true));
    cases.push(("truncated", f.bytes[..f.bytes.len() - 1 - r.index(60_000)].to_vec(), true));
    cases.push(("version only", f.bytes[..8].to_vec(), true));
    // another type for one entry
    let mut b = f.bytes.clone();
    b[s] ^= 1 << r.below(8);
    cases.push(("entry type", b, false));
    // damaged compression or content
    let mut b = f.bytes.clone();
    b[s + 8 + 10 + 8 + r.index(20)] ^= 1;
    cases.push(("content bit", b, false));
    for (what, b, iter_too) in cases {
        let desc = || format!("{what} in a file of {n} blocks with {per} entries each");
        c.eval("damaged file", &(what.to_string(), per, n, vcommon::hash_of(&b)));
        if let Some(ok) = c.no_panic("damaged-file-panic", desc, || full(&b)) {
            c.check(!ok, "damaged-file-accepted", desc);
        }
        if iter_too {
            if let Some(ok) = c.no_panic("damaged-file-panic", desc, || iter(&b)) {
                c.check(!ok, "damaged-file-iterated", desc);
            }
        }
        c.event("damaged file refused");
    }
}

fn e2hs_file(c: &mut Ctx, i: u64) {
    let mut r = c.rng.fork(&format!("e2hs-{i}"));
    let era = oracle::exec::ERAS[(i % 6) as usize];
    let epoch = match era {
        Era::Frontier => r.below(1500),
        Era::London => 1700,
        Era::Paris => 1950,
        Era::Shanghai => 2200,
        Era::Cancun => 2500,
        Era::Prague => 2800,
    };
    let distinct: Vec<Parts> = (0..40).map(|k| e2hs_parts(&mut r, era, epoch * 8192 + k, 3)).collect();
    let parts: Vec<Parts> = (0..N).map(|_| distinct[r.index(40)].clone()).collect();
    let f = file(&mut r, &parts, false, epoch * 8192, None);
    let what = || format!("e2hs file of {era:?}");
    let Some(got) = c.no_panic("e2hs-panic", what, || E2HSMemory::deserialize(&f.bytes)) else { return };
    c.eval("e2hs file", &i);
    let e = match got {
        Err(e) => return c.violation("e2hs-refused", format!("{}: {e}", what())),
        Ok(e) => e,
    };
    c.check_eq(&e.block_tuples.len(), &N, "e2hs-count", what);
    c.check_eq(&e.index(), &epoch, "e2hs-epoch", what);
    c.check(e.block_index.block_index.indices == f.offsets, "e2hs-index", what);
    for (k, (t, p)) in e.block_tuples.iter().zip(&parts).enumerate() {
        if k % 16 == 0 || k + 1 == N {
            c.event("e2hs block");
            c.check(e2hs_tuple_ok(t, p), "e2hs-block", || format!("{}: block {k}", what()));
        }
    }
    match e.write() {
        Ok(w) => {
            c.check(opened(&w) == opened(&f.bytes), "e2hs-written", what);
        }
        Err(e) => c.violation("e2hs-not-written", format!("{}: {e}", what())),
    }
    let it = c.no_panic("e2hs-iter-panic", what, || E2HSMemory::iter_tuples(&f.bytes).map(|it| it.enumerate().all(|(k, t)| k % 16 != 0 || e2hs_tuple_ok(&t, &parts[k]))));
    c.check(matches!(it, Some(Ok(true))), "e2hs-iteration", what);
    damage(c, &mut r, &f, N, 3, |b| E2HSMemory::deserialize(b).is_ok(), |b| E2HSMemory::iter_tuples(b).is_ok());

    // Streamed writing of the same blocks.
    let dir = scratch();
    let mut w = match E2HSWriter::create(dir.path(), epoch) {
        Ok(w) => w,
        Err(e) => return c.violation("writer-refused", format!("{e}")),
    };
    c.check(E2HSWriter::create(dir.path(), epoch).is_err(), "unfinished-file-overwritten", what);
    let temp = w.temp_path().to_path_buf();
    for (k, t) in e.block_tuples.iter().enumerate() {
        if let Err(e) = w.append_block_tuple(t) {
            return c.violation("append-refused", format!("{k}: {e}"));
        }
    }
    match w.finish() {
        Ok(p) => {
            c.event("e2hs streamed");
            let name = format!("mainnet-{epoch:05}-{}.e2hs", &hex(&parts[N - 1].hash).trim_start_matches("0x")[..8]);
            c.check_eq(&p, &dir.path().join(name), "file-name", what);
            c.check(!temp.exists(), "unfinished-file-left", what);
            let b = std::fs::read(&p).unwrap_or_default();
            let parts_same = {
                // Everything but the index, whose offsets depend on compression.
                let (x, y) = (opened(&b), opened(&f.bytes));
                match (x, y) {
                    (Some(mut x), Some(mut y)) => {
                        x.pop();
                        y.pop();
                        x == y
                    }
                    _ => false,
                }
            };
            c.check(parts_same, "streamed-parts", what);
            // The index of the written file points at its own blocks.
            if let Some(es) = split(&b) {
                let mut at = vec![];
                let mut pos = 0u64;
                for (t, v) in &es {
                    if *t == 0x0301 {
                        at.push(pos);
                    }
                    pos += 8 + v.len() as u64;
                }
                c.check(es.last().is_some_and(|(t, v)| *t == 0x6632 && *v == index(epoch * 8192, &at, N as u64).as_slice()), "streamed-index", what);
            }
            match E2HSMemory::read_from_file(&p) {
                Ok(e2) => {
                    c.check(e2.block_tuples == e.block_tuples, "streamed-file-differs", what);
                }
                Err(e) => c.violation("streamed-file-unreadable", format!("{e}")),
            }
        }
        Err(e) => c.violation("finish-refused", format!("{e}")),
    }
    // Too few or too many blocks are never finished.
    for n in [0usize, 1, N - 1, N + 1] {
        if n > 1 && i % 3 != 0 {
            continue;
        }
        let sub = dir.path().join(format!("n{n}"));
        if let Ok(mut w) = E2HSWriter::create(&sub, epoch) {
            for k in 0..n {
                let _ = w.append_block_tuple(&e.block_tuples[k % 40]);
            }
            c.eval("incomplete file", &(i, n));
            c.check(w.finish().is_err(), "incomplete-file-finished", || format!("{n} blocks"));
            let done = std::fs::read_dir(&sub).map(|d| d.flatten().filter(|f| !f.file_name().to_string_lossy().starts_with("temp")).count()).unwrap_or(0);
            c.check_eq(&done, &0, "incomplete-file-finished", || format!("{n} blocks"));
        }
    }
}

/// The recorded files of mainnet.
fn recorded(c: &mut Ctx) {
    let Ok(dir) = std::fs::read_dir("/repo/test_assets/era1") else { return };
    let mut files: Vec<_> = dir.flatten().map(|f| f.path()).filter(|p| p.extension().is_some_and(|e| e == "era1")).collect();
    files.sort();
    for p in files {
        let raw = std::fs::read(&p).unwrap_or_default();
        let Some(want) = opened(&raw) else { continue };
        let what = || p.display().to_string();
        c.eval("recorded file", &what());
        match Era1::deserialize(&raw) {
            Ok(e) => {
                c.event("recorded file");
                let start = u64::from_le_bytes(want.last().expect("not empty").1[..8].try_into().expect("8"));
                let mut ok = e.block_tuples.len() == N && e.block_index.block_index.starting_number == start;
                for (k, t) in e.block_tuples.iter().enumerate() {
                    ok &= t.header.header.number == start + k as u64;
                    if k % 64 == 0 {
                        ok &= alloy_rlp::encode(&t.header.header) == want[1 + k * 4].1;
                        ok &= alloy_rlp::encode(&t.body.body) == want[2 + k * 4].1;
                        ok &= alloy_rlp::encode(&t.receipts.receipts) == want[3 + k * 4].1;
                    }
                }
                c.check(ok, "recorded-file", what);
                c.check(e.write().ok().and_then(|w| opened(&w)) == Some(want), "recorded-file-written", what);
            }
            Err(e) => c.violation("recorded-file-refused", format!("{}: {e}", what())),
        }
    }
}

pub fn block_files(c: &mut Ctx) {
    c.rule("block files are read into exactly the blocks they hold, written back with the same parts and a correct index, and refused if their structure does not fit");
    recorded(c);
    for i in 0..c.n(1, 12) {
        era1_file(c, i, N);
        era1_file(c, 1000 + i, 5362);
    }
    for i in 0..c.n(2, 24) {
        e2hs_file(c, i + c.seed % 6);
    }
    // epochs by block number
    let mut r = c.rng.fork("epochs");
    for _ in 0..200 {
        let n = r.edgy_u64();
        let h = HeaderEntry { header: crate::blocks::header(&mut r) };
        let _ = &h;
        c.eval("epoch", &n);
        c.check_eq(&Era1::epoch_number_from_block_number(n), &(n / 8192), "epoch-number", || format!("{n}"));
        c.check_eq(&E2HSMemory::index_from_block_number(n), &(n / 8192), "epoch-number", || format!("{n}"));
    }
    // single headers of every era
    for k in 0..c.n(200, 4000) {
        let era = oracle::exec::ERAS[(k % 6) as usize];
        let h = oracle::exec::Hdr::random(&mut r, era);
        let e = e2store::e2store::types::Entry::new(0x0300, frame(&h.rlp(), 1 + r.index(600)));
        c.eval("header entry", &h.hash());
        match HeaderEntry::try_from(&e) {
            Ok(x) => {
                c.check_eq(&hex(&x.header.hash_slow().0), &hex(&h.hash()), "header-entry", || format!("{era:?}"));
                let back = e2store::e2store::types::Entry::try_from(&x);
                c.check(back.is_ok_and(|b| b.header.type_ == 0x0300 && unframe(&b.value) == Some(h.rlp())), "header-entry-written", || format!("{era:?}"));
            }
            Err(e) => c.violation("header-entry-refused", format!("{era:?}: {e}")),
        }
        let wrong = e2store::e2store::types::Entry::new(0x0400, e.value.clone());
        c.check(HeaderEntry::try_from(&wrong).is_err(), "wrong-entry-type", || format!("{era:?}"));
    }
    c.sample("files", || json!({"blocks": N}));
    c.require("era1 file", 2);
    c.require("e2hs file", 2);
    c.require("damaged file refused", 20);
    c.require("recorded file", 1);
}

pub fn header(r: &mut Rng) -> alloy::consensus::Header {
    use alloy_rlp::Decodable;
    alloy::consensus::Header::decode(&mut oracle::exec::Hdr::random(r, Era::Frontier).rlp().as_slice()).expect("header of the checker is readable")
}
