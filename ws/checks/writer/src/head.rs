//! Files for the newest blocks, written and uploaded as soon as they can be proven.
use std::{collections::HashMap, sync::Arc, time::Duration};

use aws_sdk_s3::store;
use clap::Parser;
use e2hs_writer::{
    cli::{E2HSWriterSubCommands, WriterConfig},
    subcommands::head_generator::HeadGenerator,
};
use oracle::{keccak256, sha2, ssz as ossz, H};
use parking_lot::Mutex;
use vcommon::{hex, json, Ctx, Rng};

use crate::{
    chain::{ballast, wrapped, Made, Maker, World, Wrong, PERIOD, PER_FILE, WRONG},
    clock,
};

type Shared = Arc<Mutex<World>>;
const BUCKET: &str = "archive";

pub fn unframe(b: &[u8]) -> Option<Vec<u8>> {
    use std::io::Read;
    let mut out = vec![];
    snap::read::FrameDecoder::new(b).read_to_end(&mut out).ok()?;
    Some(out)
}
fn climb(leaf: H, index: u64, branch: &[u8]) -> H {
    let mut x = leaf;
    for (i, s) in branch.chunks(32).enumerate() {
        let s: H = s.try_into().expect("32 bytes");
        x = if index >> i & 1 == 1 { sha2(&s, &x) } else { sha2(&x, &s) };
    }
    x
}
fn serve(w: &Shared, r: &mut Rng) {
    let w = w.clone();
    let r = Mutex::new(r.fork("answers"));
    reqwest::provided_by(Some(Arc::new(move |a: reqwest::Asked<'_>| {
        let path = format!("/{}", a.url.splitn(4, '/').nth(3).unwrap_or(""));
        w.lock().answer(&mut r.lock(), &path, a.body)
    })));
}
/// An empty bucket but for the files up to one.
fn bucket(r: &mut Rng, newest: u64, count: u64, page: usize) {
    let mut s = store();
    *s = Default::default();
    s.page = page;
    for i in newest + 1 - count..=newest {
        s.objects.insert((BUCKET.into(), format!("mainnet-{i:05}-{}.e2hs", hex(&r.bytes(4)))), vec![1]);
    }
    // of no concern
    s.objects.insert(("other".into(), format!("mainnet-{:05}-{}.e2hs", newest + 3, hex(&r.bytes(4)))), vec![2]);
}
fn files() -> Vec<(String, Vec<u8>)> {
    store().objects.iter().filter(|x| x.0 .0 == BUCKET && x.1.len() > 1).map(|(k, v)| (k.1.clone(), v.clone())).collect()
}
fn named() -> usize {
    store().objects.iter().filter(|x| x.1.len() > 1).count()
}
/// Whether the writer ended by itself, and how.
#[derive(Clone, Debug, PartialEq)]
enum End {
    Running,
    NotBegun(String),
    Failed(String),
    Stopped,
}
struct Run(tokio::task::JoinHandle<End>);
impl Run {
    fn begin() -> Self {
        let c = WriterConfig::parse_from(["e2hs-writer", "head-generator", "--el-provider", "https://el.example/", "--cl-provider", "https://cl.example/", "--bucket-name", BUCKET]);
        let E2HSWriterSubCommands::HeadGenerator(c) = c.command else { panic!("harness") };
        Run(tokio::spawn(async move {
            let mut g = match HeadGenerator::new(c).await {
                Ok(g) => g,
                Err(e) => return End::NotBegun(format!("{e:#}")),
            };
            match g.run().await {
                Ok(()) => End::Stopped,
                Err(e) => End::Failed(format!("{e:#}")),
            }
        }))
    }
    /// Lets time pass until it ends or `until` holds, for at most `secs` of its time.
    async fn on(&mut self, secs: u64, until: impl Fn() -> bool) -> End {
        let mut left = secs;
        loop {
            clock::settle().await;
            if self.0.is_finished() {
                return match (&mut self.0).await {
                    Ok(e) => e,
                    Err(e) if e.is_panic() => std::panic::resume_unwind(e.into_panic()),
                    Err(_) => End::Stopped,
                };
            }
            if until() || left == 0 {
                return End::Running;
            }
            // files are read and written in the background
            std::thread::sleep(Duration::from_millis(2));
            clock::step(Duration::from_secs(1));
            tokio::time::advance(Duration::from_secs(1)).await;
            left -= 1;
        }
    }
    async fn over(self) {
        if !self.0.is_finished() {
            self.0.abort();
            let _ = self.0.await;
        }
    }
}
/// What is wrong with a file that is to hold the blocks of an index.
pub fn judge(w: &World, name: &str, f: &[u8], index: u64) -> Result<u64, String> {
    let mut at = 0;
    let mut parts: Vec<(u16, usize, &[u8])> = vec![];
    while at < f.len() {
        let Some(h) = f.get(at..at + 8) else { return Err("ends within an entry".into()) };
        let len = u32::from_le_bytes([h[2], h[3], h[4], h[5]]) as usize;
        let Some(v) = f.get(at + 8..at + 8 + len) else { return Err("ends within an entry".into()) };
        parts.push((u16::from_be_bytes([h[0], h[1]]), at, v));
        at += 8 + len;
    }
    if parts.len() != 3 * PER_FILE as usize + 2 || parts[0].0 != 0x6532 {
        return Err(format!("{} parts", parts.len()));
    }
    let start = index * PER_FILE;
    let mut ix = start.to_le_bytes().to_vec();
    for k in 0..PER_FILE {
        let n = start + k;
        let Some(m) = w.by_number.get(&n).map(|i| &w.made[*i]) else { return Err(format!("harness: no block {n}")) };
        let three = &parts[1 + 3 * k as usize..4 + 3 * k as usize];
        ix.extend((three[0].1 as u64).to_le_bytes());
        if [three[0].0, three[1].0, three[2].0] != [0x0301, 0x0400, 0x0500] {
            return Err(format!("parts of block {n}: {:x} {:x} {:x}", three[0].0, three[1].0, three[2].0));
        }
        let [Some(h), Some(b), Some(x)] = [unframe(three[0].2), unframe(three[1].2), unframe(three[2].2)] else { return Err(format!("block {n} cannot be unpacked")) };
        if b != m.body {
            return Err(format!("body of block {n}"));
        }
        if x != wrapped(&m.receipts) {
            return Err(format!("receipts of block {n}"));
        }
        let l = 8 + m.header.len();
        let deep = 32 * m.deep();
        if h.len() != l + 456 + deep || h[..l] != ossz::var_list(&[m.header.clone(), vec![]])[..l] {
            return Err(format!("header of block {n}"));
        }
        let p = &h[l..];
        if p[416..448] != m.root || p[448 + deep..] != m.slot.to_le_bytes() || climb(m.hash, m.place(), &p[448..448 + deep]) != m.root || w.roots.get(&(m.slot / PERIOD)).is_none_or(|roots| roots[(m.slot % PERIOD) as usize] != m.root) {
            return Err(format!("proof of block {n}"));
        }
        // the same for all blocks of a period, and slow to work out
        let root = climb(m.root, m.slot % PERIOD, &p[..416]);
        if w.tops.get(&(m.slot / PERIOD)) != Some(&root) {
            return Err(format!("proof of block {n} in its period"));
        }
    }
    ix.extend(PER_FILE.to_le_bytes());
    let last = &parts[parts.len() - 1];
    if last.0 != 0x6632 || last.2 != ix {
        return Err("index".into());
    }
    let hash = w.made[w.by_number[&(start + PER_FILE - 1)]].hash;
    if name != format!("mainnet-{index:05}-{}.e2hs", hex(&hash[..4])) {
        return Err(format!("name {name}"));
    }
    Ok(PER_FILE)
}
pub fn follow(ctx: &mut Ctx) {
    ctx.rule("the writer goes on after the newest file in its bucket; it uploads the next file once all its blocks are in periods that are over and final, and not before; a file in the bucket holds exactly the blocks of its number, each with body and receipts that belong to it and a proof that leads to the roots of its period, whatever slots are empty; a block that does not fit, or a failing upload, leaves no file behind, and the next start makes it up; a writer too far behind, or one that cannot see what is in its bucket, writes nothing");
    let mut r = ctx.rng.fork("head");
    for case in 0..ctx.n(24, 200) {
        if ctx.saturated() {
            return;
        }
        let mut r = r.fork(&format!("place{case}"));
        clock::simulate(place(ctx, &mut r, case));
    }
    for case in 0..ctx.n(1, 4) {
        if ctx.saturated() {
            return;
        }
        let mut r = r.fork(&format!("chain{case}"));
        clock::simulate(chain(ctx, &mut r, case));
    }
    reqwest::provided_by(None);
    for (k, n) in [("block in a file", 8192), ("waited", 1), ("nothing kept", 5), ("gap", 50), ("went on after the newest", 5), ("refused to begin", 3), ("listing failed", 2), ("empty page", 2), ("upload failed", 1), ("file of several parts", 1)] {
        ctx.require(k, n);
    }
}
/// Where the writer begins.
async fn place(ctx: &mut Ctx, r: &mut Rng, case: u64) {
    let maker = Maker::new(r);
    let mut w = World::default();
    let newest = r.range(2740, 4000);
    let index = newest + 1;
    let n = index * PER_FILE;
    // three months at most
    let most = 3 * 30 * 24 * 60 * 60 / 12;
    let far = case % 3 == 1;
    let fails = case % 3 == 2;
    let behind = if fails {
        r.range(0, 40_000)
    } else if far {
        most + *r.pick(&[0u64, 0, 1, 50_000])
    } else {
        *r.pick(&[most - 1, most - 1, most - 5000, 8192, 8193, 30_000])
    };
    let period = r.range(1430, 1700);
    let mut slot = period * PERIOD + r.range(0, 7000);
    let mut add = |w: &mut World, r: &mut Rng, parent: Option<usize>, number: u64, slot: u64| {
        let m = maker.make(r, parent.map(|p| &w.made[p]), number, slot);
        w.add(m)
    };
    let mut p = None;
    for k in 0..5 {
        p = Some(add(&mut w, r, p, n - 1 + k, slot));
        slot += 1 + r.below(2);
    }
    // the newest period
    let late = (period + 1 + behind / PERIOD) * PERIOD + r.below(5);
    let first = add(&mut w, r, None, n + behind, late);
    let second = add(&mut w, r, Some(first), n + behind + 1, late + 9);
    w.finalized = if r.bool() { first } else { second };
    w.settle_one(r, period);
    let (count, mut page) = (r.range(1, 9), *r.pick(&[0usize, 1, 2, 3, 1000]));
    if case % 12 == 6 {
        page = 1;
    }
    if fails {
        // the blocks after older files are there, too
        for i in index - count..index {
            let at = (period - 1 - (index - i)) * PERIOD + r.below(4000);
            let mut p = None;
            for k in 0..3 {
                p = Some(add(&mut w, r, p, i * PER_FILE + k, at + k));
            }
            w.settle_one(r, at / PERIOD);
        }
    }
    let shared: Shared = Arc::new(Mutex::new(w));
    serve(&shared, r);
    bucket(r, newest, count, page);
    let loose = case % 2 == 0;
    store().loose = loose;
    let pages = match page as u64 {
        0 => 1,
        p if loose => count / p + 1,
        p => count.div_ceil(p),
    };
    if page > 0 && loose && count % page as u64 == 0 {
        ctx.event("empty page");
    }
    if fails {
        store().fail_at = Some(1 + r.below(pages));
    }
    let what = |x: String| j!({"newest file": newest, "files": count, "names per page": page, "empty last page": loose, "failing request": store().fail_at, "behind": behind, "happened": x});
    ctx.eval("place", &(newest, count, page, behind, store().fail_at));
    let mut run = Run::begin();
    let e = run.on(300, || false).await;
    run.over().await;
    let w = shared.lock();
    let lowest = w.receipts_of.iter().min().copied();
    ctx.check(named() == 0, "file-out-of-nothing", || what(format!("{:?}", files().iter().map(|f| f.0.clone()).collect::<Vec<_>>())));
    if fails {
        // nobody knows what the newest file is
        ctx.event("listing failed");
        ctx.check(lowest.is_none_or(|l| l >= n), "begins-anew-after-failed-listing", || what(format!("{e:?}, began with block {lowest:?}")));
        ctx.check(e != End::Running, "goes-on-after-failed-listing", || what(format!("{e:?}")));
    } else if far {
        ctx.event("refused to begin");
        ctx.check(matches!(e, End::Failed(_) | End::NotBegun(_) | End::Stopped) && lowest.is_none(), "begins-too-far-behind", || what(format!("{e:?}, began with block {lowest:?}")));
    } else {
        // it began, and found that the blocks do not lead anywhere
        ctx.event("went on after the newest");
        ctx.check(lowest == Some(n), "wrong-place-to-begin", || what(format!("{e:?}, began with block {lowest:?} and not {n}")));
    }
}
async fn chain(ctx: &mut Ctx, r: &mut Rng, case: u64) {
    // a file over two periods, or three
    let index = r.range(2740, 4000);
    let n = index * PER_FILE;
    let mut maker = Maker::new(r);
    if case == 0 {
        // more than fits into one part
        maker.ballast = Some(ballast(r, 12_900));
    }
    let wide = r.range(15, 60);
    let steps: Vec<u64> = (0..PER_FILE + 40)
        .map(|_| {
            if r.chance(1, wide) {
                ctx.event("gap");
                r.range(2, 6)
            } else {
                1
            }
        })
        .collect();
    let span: u64 = steps[..PER_FILE as usize - 1].iter().sum();
    let boundary = r.range(1434, 1700) * PERIOD;
    // how close to the end of the period the last block is
    let close = if case % 2 == 0 { r.range(1, 3) } else { r.range(1, 25) };
    let mut w = World::default();
    let mut slot = boundary - close - span;
    let mut parent = None;
    // one before, for good measure
    let m = maker.make(r, None, n - 1, slot - 1);
    parent = parent.or(Some(w.add(m)));
    for (k, step) in steps.iter().enumerate() {
        let m = maker.make(r, parent.map(|p: usize| &w.made[p]), n + k as u64, slot);
        parent = Some(w.add(m));
        slot += step;
    }
    w.settle(r);
    for (p, roots) in &w.roots {
        w.tops.insert(*p, ossz::merkleize(roots, 13));
    }
   
    for _ in 0..6 {
        w.nulls.insert(n + r.below(PER_FILE), r.range(1, 4) as u32);
    }
    // blocks by what they are for
    let first_after = *w.by_slot.range(boundary..).next().expect("long enough").1;
    let before = *w.by_slot.range(..boundary).next_back().expect("long enough").1;
    let shared: Shared = Arc::new(Mutex::new(w));
    serve(&shared, r);
    let story = |x: String| j!({"file": index, "blocks from": n, "period begins at": boundary, "last block": close, "happened": x});
    let other = maker.make(r, None, n, boundary);
    // blocks that do not fit
    for k in 0..ctx.n(10, 16) {
        if ctx.saturated() {
            return;
        }
        let wrong = WRONG[k as usize % WRONG.len()];
        let offset = if k == 0 { 0 } else { r.below(80) };
        {
            let mut w = shared.lock();
            w.finalized = first_after;
            let i = w.by_number[&(n + offset)];
            let m = &w.made[i];
            let b = spoiled(r, &maker, m, wrong, &other);
            w.wrong = Some((i, wrong, b));
            w.receipts_of.clear();
        }
        bucket(r, index - 1, 3, 2);
        ctx.eval("wrong", &(wrong, offset, index));
        let mut run = Run::begin();
        let e = run.on(4000, || named() > 0).await;
        run.over().await;
        ctx.check(named() == 0, "file-with-wrong-block", || story(format!("{wrong:?} at {offset}: {:?}", files().iter().map(|f| f.0.clone()).collect::<Vec<_>>())));
        ctx.check(e != End::Running, "stuck-at-wrong-block", || story(format!("{wrong:?} at {offset}: {e:?}")));
        let past = shared.lock().receipts_of.iter().max().copied();
        ctx.check(past.is_none_or(|p| p <= n + offset + 8), "goes-on-past-wrong-block", || story(format!("{wrong:?} at {offset}, went on to {past:?}")));
        ctx.event("nothing kept");
    }
    // not yet, then an upload that fails, then a file
    let mut fail = Some(r.below(3));
    for attempt in 0..2 {
        if ctx.saturated() {
            return;
        }
        {
            let mut w = shared.lock();
            w.wrong = None;
            w.finalized = before;
            w.receipts_of.clear();
        }
        bucket(r, index - 1, 3, 2);
        let mut run = Run::begin();
        let wait = r.range(400, 3000);
        let e = run.on(wait, || named() > 0).await;
        ctx.check(e == End::Running, "does-not-wait", || story(format!("{e:?} while its blocks were not final")));
        ctx.check(named() == 0, "file-before-its-time", || story(format!("{:?}", files().iter().map(|f| f.0.clone()).collect::<Vec<_>>())));
        ctx.event("waited");
        if attempt == 0 {
            let s = &mut *store();
            // one of: beginning the upload, a part of it, its end
            s.fail_at = fail.take().map(|f| s.requests + 1 + f);
        }
        shared.lock().finalized = first_after;
        let e = run.on(2000, || named() > 0).await;
        if attempt == 0 {
            ctx.event("upload failed");
            ctx.check(named() == 0, "file-after-failed-upload", || story(format!("{:?}", files().iter().map(|f| f.0.clone()).collect::<Vec<_>>())));
            ctx.check(e != End::Running, "stuck-at-failed-upload", || story(format!("{e:?}")));
            run.over().await;
            continue;
        }
        let got = files();
        if !ctx.check(named() == 1 && got.len() == 1, "not-written", || story(format!("{e:?}, {} files, {:?}", got.len(), store().log))) {
            return;
        }
        let verdict = judge(&shared.lock(), &got[0].0, &got[0].1, index);
        ctx.check(verdict.is_ok(), "wrong-file", || story(format!("{verdict:?}")));
        if let Ok(k) = verdict {
            (0..k).for_each(|_| ctx.event("block in a file"));
            ctx.eval_bulk("block in a file", k);
        }
        if store().log.iter().filter(|x| *x == "part").count() > 1 {
            ctx.event("file of several parts");
        }
        ctx.sample("file", || json!({"name": got[0].0, "bytes": got[0].1.len(), "requests": store().log, "asked": shared.lock().asked, "keccak": hex(&keccak256(&got[0].1)[..8])}));
        // nothing more to do
        let e = run.on(1500, || named() > 1).await;
        ctx.check(e == End::Running && named() == 1, "does-not-wait", || story(format!("{e:?} with nothing to do")));
        run.over().await;
        let left: HashMap<_, _> = store().begun.iter().map(|(k, v)| (k.clone(), v.1.clone())).collect();
        ctx.check(left.is_empty(), "upload-left-open", || story(format!("{left:?}")));
    }
}
pub fn spoiled(r: &mut Rng, maker: &Maker, m: &Made, wrong: Wrong, other: &Made) -> Vec<u8> {
    match wrong {
        Wrong::OtherBlock => maker.make(r, Some(other), m.number, m.slot).signed,
        Wrong::Bit => {
            let mut b = m.signed.clone();
            // not in the signature
            let at = r.usize_in(100, b.len() - 1);
            b[at] ^= 1 << r.below(8);
            b
        }
        _ => oracle::exec::receipt(r, 0).raw,
    }
}
