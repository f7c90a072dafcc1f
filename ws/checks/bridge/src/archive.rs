//! A bridge that gossips blocks out of an archive.
use std::{
    collections::{BTreeMap, BTreeSet, HashMap},
    sync::Arc,
    time::Duration,
};

use alloy::primitives::U256;
use ethportal_api::types::{distance::Distance, network::Subnetwork};
use oracle::{
    exec::{Block, Era},
    keccak256, rlp, ssz as ossz,
};
use parking_lot::Mutex;
use portal_bridge::{bridge::e2hs::E2HSBridge, census::Census};
use vcommon::{hex, Ctx, Rng};

use crate::{
    census::end,
    town::{Taste, Town, HISTORY},
};

const PER_FILE: u64 = 8192;

fn entry(ty: u16, v: &[u8]) -> Vec<u8> {
    let mut b = ty.to_be_bytes().to_vec();
    b.extend((v.len() as u32).to_le_bytes());
    b.extend([0, 0]);
    b.extend(v);
    b
}
fn frame(b: &[u8]) -> Vec<u8> {
    use std::io::Write;
    let mut e = snap::write::FrameEncoder::new(vec![]);
    e.write_all(b).expect("memory");
    e.into_inner().expect("memory")
}
fn unframe(b: &[u8]) -> Vec<u8> {
    use std::io::Read;
    let mut out = vec![];
    snap::read::FrameDecoder::new(b).read_to_end(&mut out).expect("a recorded file");
    out
}
/// A block as it is stored, and as it travels.
#[derive(Clone)]
struct Stored {
    number: u64,
    hash: [u8; 32],
    header: Vec<u8>,
    body: Vec<u8>,
    receipts: Vec<u8>,
    body_content: Vec<u8>,
    receipts_content: Vec<u8>,
    good: bool,
}
impl Stored {
    fn three(&self) -> Vec<u8> {
        let mut out = entry(0x0301, &frame(&self.header));
        out.extend(entry(0x0400, &frame(&self.body)));
        out.extend(entry(0x0500, &frame(&self.receipts)));
        out
    }
    /// What is to be gossiped: header by hash and by number, body and receipts.
    fn items(&self) -> [(Vec<u8>, &Vec<u8>); 4] {
        let by_hash = |tag: u8| [&[tag][..], &self.hash].concat();
        [
            (by_hash(0), &self.header),
            ([&[3u8][..], &self.number.to_le_bytes()].concat(), &self.header),
            (by_hash(1), &self.body_content),
            (by_hash(2), &self.receipts_content),
        ]
    }
}
fn wrapped(items: &[Vec<u8>]) -> Vec<u8> {
    rlp::list(&items.iter().map(|t| if t[0] >= 0xc0 { t.clone() } else { rlp::bytes(t) }).collect::<Vec<_>>())
}
fn proof_len(era: Era) -> usize {
    match era {
        Era::Frontier | Era::London => 15 * 32,
        Era::Paris => 14 * 32 + 32 + 11 * 32 + 8,
        Era::Shanghai => 13 * 32 + 32 + 11 * 32 + 8,
        _ => 13 * 32 + 32 + 12 * 32 + 8,
    }
}
fn era_of(n: u64) -> Era {
    match n {
        0..oracle::exec::LONDON_BLOCK => Era::Frontier,
        oracle::exec::LONDON_BLOCK..oracle::exec::PARIS_BLOCK => Era::London,
        oracle::exec::PARIS_BLOCK..17_034_870 => Era::Paris,
        17_034_870..19_426_587 => Era::Shanghai,
        19_426_587..22_431_084 => Era::Cancun,
        _ => Era::Prague,
    }
}
fn made(r: &mut Rng, n: u64) -> Stored {
    let era = era_of(n);
    let mut b = Block::random(r, era, 5);
    b.header.number = n;
    let proof = r.bytes(proof_len(era));
    let good = b.clone();
    let mut header = b.header.clone();
    // a proof of a later block cannot be judged here, one of an earlier block is wrong
    let mut ok = era >= Era::Shanghai;
    let mut other = Block::random(r, era, 5);
    if r.chance(2, 5) {
        ok = false;
        match r.below(6) {
            0 => header.receipts_root = r.array(),
            1 => header.txs_root = r.array(),
            2 => header.ommers = r.array(),
            3 if b.withdrawals.is_some() => header.withdrawals_root = r.array(),
            4 => {
                // receipts of another block
                while other.receipts == b.receipts {
                    other = Block::random(r, era, 5);
                }
                b.receipts = other.receipts;
            }
            _ => {
                // body of another block
                while other.body_ssz() == b.body_ssz() {
                    other = Block::random(r, era, 5);
                }
                b.txs = other.txs;
                b.withdrawals = other.withdrawals;
                b.ommers = other.ommers;
            }
        }
    }
    if ok {
        header = good.header.clone();
    }
    Stored {
        number: n,
        hash: keccak256(&header.rlp()),
        header: ossz::var_list(&[header.rlp(), proof]),
        body: b.body_rlp(),
        receipts: wrapped(&b.receipts),
        body_content: b.body_ssz(),
        receipts_content: b.receipts_ssz(),
        good: ok,
    }
}
/// The first blocks of the chain with their proofs, out of a recorded file.
fn recorded() -> Vec<Stored> {
    let raw = std::fs::read("/repo/test_assets/era1/mainnet-00000-5ec1ffb8.era1").unwrap_or_default();
    let mut at = 0;
    let mut blocks: Vec<[Vec<u8>; 4]> = vec![];
    while at + 8 <= raw.len() {
        let ty = u16::from_be_bytes([raw[at], raw[at + 1]]);
        let len = u32::from_le_bytes(raw[at + 2..at + 6].try_into().unwrap()) as usize;
        let v = &raw[at + 8..at + 8 + len];
        at += 8 + len;
        match ty {
            0x0300 => blocks.push([unframe(v), vec![], vec![], vec![]]),
            0x0400 => blocks.last_mut().unwrap()[1] = v.to_vec(),
            0x0500 => blocks.last_mut().unwrap()[2] = v.to_vec(),
            0x0600 => blocks.last_mut().unwrap()[3] = v.to_vec(),
            _ => {}
        }
    }
    let td = |b: &[Vec<u8>; 4]| -> [u8; 32] { b[3].clone().try_into().unwrap() };
    let leaves: Vec<[u8; 32]> = blocks.iter().map(|b| oracle::sha2(&keccak256(&b[0]), &td(b))).collect();
    let mut out = vec![];
    for n in [0usize, 1, 2, 3, 46, 47, 48, 4095, 4096, 8189, 8190, 8191] {
        if n >= blocks.len() {
            break;
        }
        let b = &blocks[n];
        let mut proof = td(b).to_vec();
        proof.extend(ossz::merkle_proof(&leaves, 13, n).concat());
        proof.extend(ossz::root_u64(8192));
        let (body, receipts) = (unframe(&b[1]), unframe(&b[2]));
        // nobody sends anything this early
        let uncles = if body[0] < 0xf8 { &body[2..] } else { &body[1 + (body[0] - 0xf7) as usize + 1..] };
        assert_eq!((receipts.as_slice(), uncles.is_empty()), (&[0xc0u8][..], false));
        out.push(Stored {
            number: n as u64,
            hash: keccak256(&b[0]),
            header: ossz::var_list(&[b[0].clone(), proof]),
            body_content: ossz::container(&[ossz::Part::Var(vec![]), ossz::Part::Var(uncles.to_vec())]),
            body,
            receipts,
            receipts_content: vec![],
            good: true,
        });
    }
    out
}
/// A file whose other blocks are worthless.
fn file(index: u64, blocks: &BTreeMap<u64, Stored>) -> Vec<u8> {
    let start = index * PER_FILE;
    let mut r = Rng::new(index);
    let mut junk = Block::random(&mut r, Era::Shanghai, 0);
    junk.header.number = start + 100;
    junk.header.receipts_root = [9; 32];
    let junk = Stored {
        number: start + 100,
        hash: [0; 32],
        header: ossz::var_list(&[junk.header.rlp(), vec![1; proof_len(Era::Shanghai)]]),
        body: junk.body_rlp(),
        receipts: rlp::list(&[]),
        body_content: vec![],
        receipts_content: vec![],
        good: false,
    }
    .three();
    let mut f = entry(0x6532, &[]);
    let mut ix = start.to_le_bytes().to_vec();
    for n in start..start + PER_FILE {
        ix.extend((f.len() as u64).to_le_bytes());
        match blocks.get(&n) {
            Some(b) => f.extend(b.three()),
            None => f.extend(&junk),
        }
    }
    ix.extend(PER_FILE.to_le_bytes());
    f.extend(entry(0x6632, &ix));
    f
}
pub fn gossip(ctx: &mut Ctx) {
    ctx.rule("a bridge over an archive offers each block of its range whose parts fit together, and no other block: the header by hash first, then by number, and body and receipts once the header had time to spread; every item goes to exactly the known peers that cover it up to the limit, byte for byte, whatever other peers do; nothing is under way any more when the bridge reports that it is done");
    let mut r = ctx.rng.fork("archive");
    let real = recorded();
    ctx.check(!real.is_empty() || !std::path::Path::new("/repo/test_assets/era1").exists(), "harness", || "no recorded blocks".into());
    for case in 0..ctx.n(24, 400) {
        if ctx.saturated() {
            break;
        }
        let mut r = r.fork(&format!("case{case}"));
        let real = if case % 6 == 1 { &real[..] } else { &[] };
        crate::clock::simulate(one(ctx, &mut r, case, real));
    }
    for (k, n) in [("block gossiped", 25), ("block refused", 15), ("item received", 150), ("across files", 3), ("whole file", 1), ("all but a block", 1), ("open range", 2), ("out of order", 2), ("some peers fail", 4), ("early block gossiped", 2), ("limited", 10), ("beyond radius", 30)] {
        ctx.require(k, n);
    }
}
async fn one(ctx: &mut Ctx, r: &mut Rng, case: u64, real: &[Stored]) {
    // the range
    let first_file = if !real.is_empty() { 0 } else { *r.pick(&[1896u64, 2000, 2079, 2080, 2371, 2372, 2738, 2739]) };
    let shape = if case < 16 { case % 8 } else { r.below(8) };
    let base = first_file * PER_FILE;
    let (start, end_, listed) = match shape {
        // whole files
        0 if case != 8 && r.bool() || case == 0 => (base, Some(base + PER_FILE - 1), first_file + r.below(3)),
        // and all but a block of one
        0 => {
            let first = case != 8 && r.bool();
            (base + first as u64, Some(base + PER_FILE - 2 + first as u64), first_file + r.below(3))
        }
        // across files
        1 | 2 => (base + PER_FILE - r.range(1, 4), Some(base + PER_FILE + r.range(0, 3)), first_file + 1 + r.below(3)),
        // until the end
        3 => (base + PER_FILE - r.range(1, 6), None, first_file),
        4 => (base + r.range(0, PER_FILE - 20), None, first_file),
        _ => {
            let s = base + r.range(0, PER_FILE - 20);
            (s, Some(s + r.range(0, 5)), first_file + r.below(2))
        }
    };
    let last = end_.unwrap_or(listed * PER_FILE + PER_FILE - 1);
    let mut blocks: BTreeMap<u64, Stored> = BTreeMap::new();
    let mut want: BTreeSet<u64> = [start, last, last - (last - start) / 2].into();
    want.extend((start..=last).take(4));
    want.extend(start.saturating_sub(2)..start);
    want.extend(last + 1..last + 3);
    if shape == 0 {
        want.extend((0..4).map(|_| base + r.below(PER_FILE)));
    }
    for n in want {
        if n / PER_FILE <= listed && n / PER_FILE >= first_file {
            blocks.insert(n, made(r, n));
        }
    }
    for b in real {
        blocks.insert(b.number, b.clone());
    }
    let real_set: BTreeSet<u64> = real.iter().map(|b| b.number).collect();
    let files: BTreeMap<u64, Vec<u8>> = (start / PER_FILE..=last / PER_FILE).map(|i| (i, file(i, &blocks))).collect();
    // the peers
    let mut town = Town::found(r, HISTORY);
    let n = r.usize_in(1, 6);
    for _ in 0..n {
        let d = if r.chance(2, 3) { Distance::MAX } else { Distance::from(U256::MAX >> r.below(4)) };
        town.join(r, d, true).await;
    }
    let failing = r.chance(1, 3) && n > 1;
    if failing {
        for i in 1..n {
            if r.bool() {
                town.people[i].mood.lock().taste = *r.pick(&[Taste::Decline(1), Taste::Decline(2), Taste::Decline(5), Taste::Silent, Taste::Ghost]);
            }
        }
    }
    let tastes: Vec<Taste> = town.people.iter().map(|p| p.mood.lock().taste).collect();
    let per_item = *r.pick(&[1usize, 2, 4, 40, 40]);
    let at_once = *r.pick(&[1usize, 2, 3, 8]);
    let shuffled = r.bool();
    let range = format!("{start}-{}", end_.map(|e| e.to_string()).unwrap_or_default());
    let mut args = vec!["--mode".to_string(), "e2hs".into(), "--e2hs-range".into(), range.clone(), "--enr-offer-limit".into(), per_item.to_string(), "--offer-limit".into(), at_once.to_string()];
    if shuffled {
        args.push("--e2hs-randomize".into());
    }
    let args: Vec<&str> = args.iter().map(|s| s.as_str()).collect();
    let boot: Vec<usize> = (0..n).collect();
    let config = town.config(&boot, &args);
    let overlays = town.open(&config).await;
    town.wait(30).await;
    let mut census = Census::new(overlays.clone(), &config);
    let Some((census, Ok(watch))) = end(async move {
        let h = census.init([Subnetwork::LegacyHistory]).await;
        (census, h)
    })
    .await
    else {
        ctx.inconclusive("the first look around failed");
        return;
    };
    town.wait(120).await;
    for p in &town.people {
        p.forget();
    }
    // the archive
    let asked: Arc<Mutex<HashMap<u64, u64>>> = Default::default();
    let log = asked.clone();
    reqwest::answered_by(Some(Arc::new(move |_: &str, url: &str, _: &[u8]| {
        match url.split("mainnet-").nth(1).and_then(|x| x.split('-').next()).and_then(|x| x.parse::<u64>().ok()) {
            None => Some((200, (0..=listed).map(|i| format!("<li><a href=\"mainnet-{i:05}-{:08x}.e2hs\">x</a></li>\n", i * 77)).collect::<String>().into_bytes())),
            Some(i) => {
                *log.lock().entry(i).or_default() += 1;
                files.get(&i).map(|f| (200, f.clone()))
            }
        }
    })));
    let history = overlays.legacy_history.clone().expect("the network runs");
    let (limit, span, mix) = (config.offer_limit, config.e2hs_range.clone().expect("a range"), config.e2hs_randomize);
    ctx.check(limit == at_once && mix == shuffled, "settings", || j!({"range": range}));
    let done = end(async move {
        let b = E2HSBridge::new(history, limit, span, mix, census).await?;
        b.launch().await;
        anyhow::Ok(())
    })
    .await;
    let what = || j!({"range": range, "out of order": shuffled, "peers": n, "tastes": format!("{tastes:?}"), "offers per item": per_item, "at once": at_once, "listed": listed});
    match done {
        Some(Ok(())) => {}
        Some(Err(e)) => {
            ctx.check(false, "did-not-start", || format!("{e}: {}", what()));
            return;
        }
        None => {
            ctx.check(false, "never-done", what);
            return;
        }
    }
    // whatever was accepted in the end was handed over when the bridge said so
    let took: Vec<Vec<(Duration, Vec<u8>, Vec<u8>)>> = town.people.iter().map(|p| p.took()).collect();
    let offered: Vec<Vec<(Duration, Vec<u8>)>> = town.people.iter().map(|p| p.offered()).collect();
    town.wait(200).await;
    for (i, p) in town.people.iter().enumerate() {
        ctx.check(p.offered().len() == offered[i].len(), "still-offering-when-done", || format!("peer {i}: {}", what()));
    }
    let mut known: HashMap<Vec<u8>, u64> = HashMap::new();
    let mut first: BTreeMap<u64, Duration> = BTreeMap::new();
    for b in blocks.values() {
        let due = b.good && (start..=last).contains(&b.number);
        if (start..=last).contains(&b.number) {
            ctx.event(if due { "block gossiped" } else { "block refused" });
            if due && real_set.contains(&b.number) {
                ctx.event("early block gossiped");
            }
        }
        let mut times: Vec<(Vec<Duration>, Vec<Duration>)> = vec![];
        for (which, (key, value)) in b.items().into_iter().enumerate() {
            let id = oracle_id(&key);
            let cover: Vec<usize> = (0..n).filter(|i| town.people[*i].covers(&id)).collect();
            let got: Vec<usize> = (0..n).filter(|i| offered[*i].iter().any(|(_, k)| *k == key)).collect();
            let name = ["header by hash", "header by number", "body", "receipts"][which];
            let detail = || format!("block {} {name}, offered to {got:?} of {cover:?}: {}", b.number, what());
            ctx.eval("item", &(case, &key, b.good, per_item, failing));
            for i in 0..n {
                let times = offered[i].iter().filter(|(_, k)| *k == key).count();
                ctx.check(times <= 1, "offered-twice", || format!("peer {i} {times} times: {}", detail()));
            }
            if !due {
                // another block of the same number may be asked for by number, but there is none here
                ctx.check(got.is_empty(), if b.good { "outside-range-offered" } else { "unfit-block-offered" }, detail);
                continue;
            }
            known.insert(key.clone(), b.number);
            ctx.check(got.iter().all(|i| cover.contains(i)), "offered-beyond-radius", detail);
            for _ in cover.len()..n {
                ctx.event("beyond radius");
            }
            let good_cover: Vec<usize> = cover.iter().copied().filter(|i| tastes[*i] == Taste::Take).collect();
            if cover.len() <= per_item {
                ctx.check(good_cover.iter().all(|i| got.contains(i)), "peer-not-offered", detail);
            } else {
                ctx.event("limited");
                ctx.check(got.len() <= per_item, "more-than-limit", detail);
                let least = if failing { good_cover.len().min(1) } else { per_item };
                ctx.check(got.len() >= least, "too-few-offered", detail);
            }
            for i in &got {
                if tastes[*i] == Taste::Take {
                    let v = took[*i].iter().find(|(_, k, _)| *k == key);
                    ctx.event("item received");
                    ctx.check(v.is_some_and(|(_, _, v)| v == value), if v.is_some() { "wrong-content" } else { "not-handed-over" }, || format!("peer {i} got {:?}: {}", v.map(|(_, _, v)| hex(v)), detail()));
                }
            }
            let o = offered.iter().flatten().filter(|(_, k)| *k == key).map(|(t, _)| *t).collect();
            let t = took.iter().flatten().filter(|(_, k, _)| *k == key).map(|(t, _, _)| *t).collect();
            times.push((o, t));
        }
        if due && times.len() == 4 {
            if let Some(t) = times[0].0.iter().min() {
                let e = first.entry(b.number / PER_FILE).or_insert(*t);
                *e = (*e).min(*t);
            }
            let spread = times[0].0.iter().chain(&times[0].1).max().copied();
            if let Some(spread) = spread {
                let by_number = times[1].0.iter().min().copied();
                ctx.check(by_number.is_none_or(|t| t >= spread), "header-by-number-before-header", || format!("{by_number:?} after {spread:?}: {}", what()));
                for (which, x) in times[2..].iter().enumerate() {
                    let t = x.0.iter().min().copied();
                    ctx.check(t.is_none_or(|t| t >= spread + Duration::from_secs(1)), "header-had-no-time-to-spread", || format!("{} at {t:?}, header until {spread:?}: {}", ["body", "receipts"][which], what()));
                }
            }
        }
    }
    // nothing else
    for (i, o) in offered.iter().enumerate() {
        for (_, k) in o {
            ctx.check(known.contains_key(k), "something-else-offered", || format!("peer {i}: {}: {}", hex(k), what()));
        }
    }
    // one file after the other, unless told otherwise
    if !shuffled && !failing {
        let v: Vec<Duration> = first.values().copied().collect();
        ctx.check(v.windows(2).all(|w| w[0] <= w[1]), "files-out-of-order", || format!("{first:?}: {}", what()));
    }
    // never more under way than allowed
    let silent: Vec<usize> = (0..n).filter(|i| matches!(tastes[*i], Taste::Silent)).collect();
    let mut waiting: Vec<Duration> = silent.iter().flat_map(|i| offered[*i].iter().map(|(t, _)| *t)).collect();
    waiting.sort();
    for w in waiting.windows(at_once + 1) {
        ctx.check(w[at_once] - w[0] >= Duration::from_secs(1), "more-at-once-than-allowed", || format!("{w:?}: {}", what()));
    }
    for (i, times) in asked.lock().iter() {
        ctx.check(*times == 1 && (start / PER_FILE..=last / PER_FILE).contains(i), "wrong-file-fetched", || format!("file {i} {times} times: {}", what()));
    }
    match shape {
        0 if last - start + 1 == PER_FILE => ctx.event("whole file"),
        0 => ctx.event("all but a block"),
        1 | 2 => ctx.event("across files"),
        3 | 4 => ctx.event("open range"),
        _ => {}
    }
    if shuffled {
        ctx.event("out of order");
    }
    if tastes.iter().any(|t| *t != Taste::Take) {
        ctx.event("some peers fail");
    }
    watch.abort();
    reqwest::answered_by(None);
}
fn oracle_id(key: &[u8]) -> [u8; 32] {
    use ethportal_api::{LegacyHistoryContentKey, OverlayContentKey};
    LegacyHistoryContentKey::try_from_bytes(key).expect("harness key").content_id()
}
