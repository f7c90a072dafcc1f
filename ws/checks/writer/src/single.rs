//! One file, made from the archives of beacon blocks or of early blocks.
use std::{
    collections::BTreeMap,
    path::{Path, PathBuf},
    sync::Arc,
};

use clap::Parser;
use e2hs_writer::{
    cli::{E2HSWriterSubCommands, WriterConfig},
    subcommands::single_generator::single_generator,
};
use oracle::{keccak256, ssz as ossz, H};
use parking_lot::Mutex;
use vcommon::{hex, json, Ctx, Rng};

use crate::{
    chain::{fork_of, not_found, told, Maker, World, Wrong, PERIOD, PER_FILE, SSZ},
    head::{judge, spoiled, unframe},
};

/// The first archive of beacon blocks that may be looked at.
const FIRST: u64 = 574;

fn entry(ty: u16, v: &[u8]) -> Vec<u8> {
    let mut b = ty.to_be_bytes().to_vec();
    b.extend((v.len() as u32).to_le_bytes());
    b.extend([0, 0]);
    b.extend(v);
    b
}
fn frame(b: &[u8]) -> Vec<u8> {
    use std::io::Write;
    let mut e = snap::write::FrameEncoder::new(vec![]);
    e.write_all(b).expect("memory");
    e.into_inner().expect("memory")
}
/// The archive of the blocks of a period.
fn era(w: &mut World, r: &mut Rng, p: u64) -> Vec<u8> {
    let mut bytes = entry(0x6532, &[]);
    let mut at = vec![None; PERIOD as usize];
    for (slot, i) in w.by_slot.range(p * PERIOD..(p + 1) * PERIOD) {
        at[(slot % PERIOD) as usize] = Some(bytes.len() as i64);
        let raw = match &w.wrong {
            Some((k, Wrong::Forgotten, _)) if k == i => {
                at[(slot % PERIOD) as usize] = None;
                continue;
            }
            Some((k, Wrong::OtherBlock | Wrong::Bit, b)) if k == i => b,
            _ => &w.made[*i].signed,
        };
        bytes.extend(entry(0x0100, &frame(raw)));
    }
    let state_at = bytes.len() as i64;
    let state = w.state(r, p).expect("a period that is over");
    bytes.extend(entry(0x0200, &frame(&state)));
    let index_at = bytes.len() as i64;
    let mut ix = (p * PERIOD).to_le_bytes().to_vec();
    for a in &at {
        ix.extend_from_slice(&(a.unwrap_or(0) - index_at).to_le_bytes());
    }
    ix.extend_from_slice(&PERIOD.to_le_bytes());
    bytes.extend(entry(0x6932, &ix));
    let sx_at = bytes.len() as i64;
    let mut sx = ((p + 1) * PERIOD).to_le_bytes().to_vec();
    sx.extend_from_slice(&(state_at - sx_at).to_le_bytes());
    sx.extend_from_slice(&1u64.to_le_bytes());
    bytes.extend(entry(0x6932, &sx));
    bytes
}
struct Archives {
    world: World,
    /// whole files by their number
    eras: BTreeMap<u64, Vec<u8>>,
    newest: u64,
    early: Option<Vec<u8>>,
    maker: Maker,
    r: Rng,
}
impl Archives {
    /// An archive nobody needs but for its first block.
    fn other(&mut self, e: u64) -> Vec<u8> {
        let (first, last) = (*self.eras.keys().next().expect("some"), *self.eras.keys().next_back().expect("some"));
        let (low, high) = (self.world.made[0].number, self.world.made.last().expect("some").number);
        let number = if e < first { low - (first - e) * 8000 } else { high + 1 + (e - last - 1) * 8100 };
        // the same whenever it is asked for
        let m = self.maker.make(&mut Rng::new(e), None, number, (e - 1) * PERIOD + 3);
        [entry(0x6532, &[]), entry(0x0100, &frame(&m.signed))].concat()
    }
    fn answer(&mut self, url: &str, body: &[u8], range: Option<String>) -> Option<reqwest::Told> {
        let list = |n: u64, ending: &str| -> Vec<u8> { (0..n).map(|i| format!("<li><a href=\"mainnet-{i:05}-{:08x}.{ending}\">x</a></li>\n", i * 77)).collect::<String>().into_bytes() };
        let number = url.split("mainnet-").nth(1).and_then(|x| x.split('-').next()).and_then(|x| x.parse::<u64>().ok());
        if !body.is_empty() {
            return self.world.answer(&mut self.r, "", body);
        }
        let whole = match number {
            None if url.contains("era1.") => return Some(told("text/html", list(1897, "era1"))),
            None => return Some(told("text/html", list(self.newest + 1, "era"))),
            Some(i) if url.contains(".era1") => match &self.early {
                Some(f) if i == 0 => f.clone(),
                _ => return Some(not_found()),
            },
            Some(i) => match self.eras.get(&i) {
                Some(f) => f.clone(),
                None if i >= FIRST && i <= self.newest => self.other(i),
                None => return Some(not_found()),
            },
        };
        let part = match range.as_deref().and_then(|x| x.strip_prefix("bytes=")).and_then(|x| x.split_once('-')) {
            None => whole,
            Some((a, b)) => {
                let (a, b): (usize, usize) = (a.parse().ok()?, b.parse().ok()?);
                whole.get(a..(b + 1).min(whole.len()))?.to_vec()
            }
        };
        Some(told(SSZ, part))
    }
}
type Shared = Arc<Mutex<Archives>>;
fn serve(a: &Shared) {
    let a = a.clone();
    reqwest::provided_by(Some(Arc::new(move |q: reqwest::Asked<'_>| {
        let range = q.headers.get("Range").and_then(|v| v.to_str().ok()).map(String::from);
        a.lock().answer(q.url, q.body, range)
    })));
}
/// Makes a file, and says how that went and what is in the directory.
fn run(dir: &Path, accumulators: &Path, index: u64) -> (Result<(), String>, Vec<PathBuf>) {
    let text = |p: &Path| p.to_str().expect("a name").to_string();
    let c = WriterConfig::parse_from(["e2hs-writer".to_string(), "single-generator".into(), "--target-dir".into(), text(dir), "--index".into(), index.to_string(), "--portal-accumulator-path".into(), text(accumulators), "--el-provider".into(), "https://el.example/".into()]);
    let E2HSWriterSubCommands::SingleGenerator(c) = c.command else { panic!("harness") };
    let rt = tokio::runtime::Builder::new_current_thread().enable_all().start_paused(true).build().expect("runtime");
    let e = rt.block_on(async move { single_generator(c).await.map_err(|e| format!("{e:#}")) });
    let done = std::fs::read_dir(dir).map(|d| d.flatten().map(|f| f.path()).filter(|p| !p.file_name().is_some_and(|n| n.to_string_lossy().contains("temp"))).collect()).unwrap_or_default();
    (e, done)
}
pub fn files(ctx: &mut Ctx) {
    ctx.rule("a file made from archives holds exactly the blocks of its number, each with body and receipts that belong to it and a proof that leads to the accumulator or the roots of its period, wherever archives and forks begin within it; if an archive or provider has something else for a block, or the number is beyond the chain, there is no file");
    let mut r = ctx.rng.fork("single");
    for case in 0..ctx.n(1, 5) {
        if ctx.saturated() {
            return;
        }
        let mut r = r.fork(&format!("late{case}"));
        late(ctx, &mut r, case);
    }
    for case in 0..1 {
        if ctx.saturated() {
            return;
        }
        let mut r = r.fork(&format!("early{case}"));
        early(ctx, &mut r);
    }
    reqwest::provided_by(None);
    for (k, n) in [("late block", 8192), ("early block", 8192), ("no file", 6), ("refused beyond the chain", 1), ("both forks", 1)] {
        ctx.require(k, n);
    }
}
fn late(ctx: &mut Ctx, r: &mut Rng, case: u64) {
    let scratch = tempfile::tempdir().expect("scratch directory");
    // the first period of a fork, mostly
    let begins = match case {
        1 => 8_626_176 / PERIOD,
        2 => r.range(1430, 1600),
        3 => r.range(760, 1050),
        4 => r.range(1055, 1420),
        _ => 11_649_024 / PERIOD,
    };
    let index = match case {
        1 => 2371,
        3 => r.range(2080, 2370),
        4 => r.range(2373, 2730),
        _ => r.range(2739, 3000),
    };
    let n = index * PER_FILE;
    let maker = Maker::new(r);
    let mut w = World::default();
    let steps: Vec<u64> = (0..PER_FILE + 3).map(|_| if r.chance(1, 40) { r.range(2, 9) } else { 1 }).collect();
    let span: u64 = steps[..PER_FILE as usize].iter().sum();
    let part = r.range(900, 6000);
    let mut slot = begins * PERIOD - part;
    // something at the beginning of the archive
    let mut parent = {
        let at = slot / PERIOD * PERIOD + r.below(5);
        let m = maker.make(r, None, n - 50, at);
        Some(w.add(m))
    };
    let m = maker.make(r, parent.map(|p| &w.made[p]), n - 1, slot - 1);
    parent = Some(w.add(m)).or(parent);
    for (k, step) in steps.iter().enumerate() {
        let m = maker.make(r, parent.map(|p: usize| &w.made[p]), n + k as u64, slot);
        parent = Some(w.add(m));
        slot += step;
    }
    // the end of the last period, for its roots
    let periods: Vec<u64> = (begins - 1..=w.made.last().expect("some").slot / PERIOD).collect();
    let mut last: H = r.array();
    for p in &periods {
        let roots: Vec<H> = (p * PERIOD..(p + 1) * PERIOD)
            .map(|s| {
                if let Some(i) = w.by_slot.get(&s) {
                    last = w.made[*i].root;
                }
                last
            })
            .collect();
        w.tops.insert(*p, ossz::merkleize(&roots, 13));
        w.roots.insert(*p, roots);
    }
    let after = if case == 0 { 0 } else { r.below(40) };
    let archives = Archives { world: w, eras: BTreeMap::new(), newest: periods[periods.len() - 1] + 1 + after, early: None, maker, r: r.fork("answers") };
    let shared: Shared = Arc::new(Mutex::new(archives));
    serve(&shared);
    let build = |r: &mut Rng| {
        let a = &mut *shared.lock();
        a.eras = periods.iter().map(|p| (p + 1, era(&mut a.world, r, *p))).collect();
    };
    let forks: Vec<String> = periods.iter().map(|p| format!("{:?}", fork_of(p * PERIOD))).collect();
    let story = |x: String| j!({"file": index, "archives": periods.iter().map(|p| p + 1).collect::<Vec<_>>(), "forks": forks, "newer archives": after, "slots": span, "in the first": part, "happened": x});
    let nowhere = scratch.path().join("nowhere");
    // things that do not fit
    let other = shared.lock().maker.make(r, None, n, begins * PERIOD);
    let kinds = [Wrong::Receipts, Wrong::ReceiptMissing, Wrong::OtherBlock, Wrong::Bit, Wrong::Forgotten, Wrong::Roots, Wrong::NoReceipts];
    for (k, wrong) in kinds.into_iter().enumerate() {
        if ctx.saturated() {
            return;
        }
        let offset = r.below(60);
        {
            let a = &mut *shared.lock();
            let i = a.world.by_number[&(n + offset)];
            let b = spoiled(r, &a.maker, &a.world.made[i], wrong, &other);
            a.world.wrong = Some((i, wrong, b));
        }
        build(r);
        let dir = scratch.path().join(format!("wrong{k}"));
        ctx.eval("wrong", &(wrong, offset, index));
        let Some((e, done)) = ctx.no_panic("panic-on-wrong-block", || story(format!("{wrong:?} at {offset}")), || run(&dir, &nowhere, index)) else { continue };
        ctx.check(e.is_err() && done.is_empty(), "file-with-wrong-block", || story(format!("{wrong:?} at {offset}: {e:?} {done:?}")));
        ctx.event("no file");
    }
    {
        let a = &mut *shared.lock();
        a.world.wrong = None;
    }
    build(r);
    let beyond = shared.lock().world.made.last().expect("some").number / PER_FILE + 1;
    let dir = scratch.path().join("beyond");
    let (e, done) = run(&dir, &nowhere, beyond);
    ctx.check(e.is_err() && done.is_empty(), "file-beyond-the-chain", || story(format!("{beyond}: {e:?} {done:?}")));
    ctx.event("refused beyond the chain");
    let dir = scratch.path().join("good");
    let (e, done) = run(&dir, &nowhere, index);
    if !ctx.check(e.is_ok() && done.len() == 1, "not-written", || story(format!("{e:?} {done:?}"))) {
        return;
    }
    let bytes = std::fs::read(&done[0]).unwrap_or_default();
    let name = done[0].file_name().map(|n| n.to_string_lossy().to_string()).unwrap_or_default();
    let verdict = judge(&shared.lock().world, &name, &bytes, index);
    ctx.check(verdict.is_ok(), "wrong-file", || story(format!("{verdict:?}")));
    if let Ok(k) = verdict {
        (0..k).for_each(|_| ctx.event("late block"));
        ctx.eval_bulk("late block", k);
    }
    if forks.windows(2).any(|f| f[0] != f[1]) {
        ctx.event("both forks");
    }
    ctx.sample("late file", || json!({"name": name, "bytes": bytes.len(), "forks": forks, "newer archives": after}));
}
/// The first file, from the recorded archive of the first blocks.
fn early(ctx: &mut Ctx, r: &mut Rng) {
    let scratch = tempfile::tempdir().expect("scratch directory");
    let Ok(raw) = std::fs::read("/repo/test_assets/era1/mainnet-00000-5ec1ffb8.era1") else {
        ctx.inconclusive("no recorded archive");
        return;
    };
    let mut at = 0;
    let mut blocks: Vec<[Vec<u8>; 4]> = vec![];
    let mut places: Vec<(usize, usize)> = vec![];
    while at + 8 <= raw.len() {
        let ty = u16::from_be_bytes([raw[at], raw[at + 1]]);
        let len = u32::from_le_bytes(raw[at + 2..at + 6].try_into().expect("four")) as usize;
        let v = &raw[at + 8..at + 8 + len];
        let plain = || unframe(v).unwrap_or_default();
        match ty {
            0x0300 => {
                places.push((at, len));
                blocks.push([plain(), vec![], vec![], vec![]]);
            }
            0x0400 => blocks.last_mut().expect("a header")[1] = plain(),
            0x0500 => blocks.last_mut().expect("a header")[2] = plain(),
            0x0600 => blocks.last_mut().expect("a header")[3] = v.to_vec(),
            _ => {}
        }
        at += 8 + len;
    }
    let td = |b: &[Vec<u8>; 4]| -> H { b[3].clone().try_into().unwrap_or_default() };
    let leaves: Vec<H> = blocks.iter().map(|b| oracle::sha2(&keccak256(&b[0]), &td(b))).collect();
    let root = oracle::sha2(&ossz::merkleize(&leaves, 13), &ossz::root_u64(PER_FILE));
    let accumulator: Vec<u8> = blocks.iter().flat_map(|b| [keccak256(&b[0]), td(b)].concat()).collect();
    let keep = scratch.path().join("kept");
    std::fs::create_dir_all(keep.join("bridge_content")).expect("scratch directory");
    let kept = keep.join("bridge_content").join(format!("0x03{}.portalcontent", hex(&root)));
    std::fs::write(&kept, &accumulator).expect("scratch directory");
    let maker = Maker::new(r);
    let mut w = World::default();
    let m = maker.make(r, None, 20_000_000, 9_000_000);
    w.add(m);
    let shared: Shared = Arc::new(Mutex::new(Archives { world: w, eras: BTreeMap::new(), newest: 1500, early: Some(raw.clone()), maker, r: r.fork("answers") }));
    serve(&shared);
    let story = |x: String| j!({"file": 0, "happened": x});
    // another accumulator
    let i = r.index(60);
    let mut other = accumulator.clone();
    other[i * 64 + r.index(64)] ^= 1;
    for (k, what) in ["accumulator of others", "block of others", "no accumulator"].into_iter().enumerate() {
        let dir = scratch.path().join(format!("wrong{k}"));
        match k {
            0 => std::fs::write(&kept, &other).expect("scratch directory"),
            1 => {
                std::fs::write(&kept, &accumulator).expect("scratch directory");
                // the next block in place of one
                let j = r.index(50);
                let (a, b) = (places[j], places[j + 1]);
                let mut f = raw.clone();
                if a.1 == b.1 {
                    f[a.0..a.0 + 8 + a.1].copy_from_slice(&raw[b.0..b.0 + 8 + b.1]);
                } else {
                    let h = f[a.0 + 8 + a.1 - 3..a.0 + 8 + a.1].to_vec();
                    f[a.0 + 8 + a.1 - 3..a.0 + 8 + a.1].copy_from_slice(&[h[2], h[0] ^ 1, h[1]]);
                }
                shared.lock().early = Some(f);
            }
            _ => {
                shared.lock().early = Some(raw.clone());
                std::fs::remove_file(&kept).expect("scratch directory");
            }
        }
        ctx.eval("wrong", &(what, i));
        let Some((e, done)) = ctx.no_panic("panic-on-wrong-block", || story(what.into()), || run(&dir, &keep, 0)) else { continue };
        ctx.check(e.is_err() && done.is_empty(), "file-with-wrong-block", || story(format!("{what}: {e:?} {done:?}")));
        ctx.event("no file");
    }
    std::fs::write(&kept, &accumulator).expect("scratch directory");
    let dir = scratch.path().join("good");
    let (e, done) = run(&dir, &keep, 0);
    if !ctx.check(e.is_ok() && done.len() == 1, "not-written", || story(format!("{e:?} {done:?}"))) {
        return;
    }
    let f = std::fs::read(&done[0]).unwrap_or_default();
    let mut at = 0;
    let mut got: Vec<(u16, usize, &[u8])> = vec![];
    while at + 8 <= f.len() {
        let len = u32::from_le_bytes(f[at + 2..at + 6].try_into().expect("four")) as usize;
        let Some(v) = f.get(at + 8..at + 8 + len) else { break };
        got.push((u16::from_be_bytes([f[at], f[at + 1]]), at, v));
        at += 8 + len;
    }
    if !ctx.check(at == f.len() && got.len() == 3 * PER_FILE as usize + 2 && got[0].0 == 0x6532, "wrong-file", || story(format!("{} parts", got.len()))) {
        return;
    }
    let mut ix = 0u64.to_le_bytes().to_vec();
    for (n, b) in blocks.iter().enumerate() {
        let three = &got[1 + 3 * n..4 + 3 * n];
        ix.extend((three[0].1 as u64).to_le_bytes());
        // the layers of the tree are the same for all
        let header = unframe(three[0].2).unwrap_or_default();
        let l = 8 + b[0].len();
        let good = [three[0].0, three[1].0, three[2].0] == [0x0301, 0x0400, 0x0500]
            && unframe(three[1].2).as_ref() == Some(&b[1])
            && unframe(three[2].2).as_ref() == Some(&b[2])
            && header.len() == l + 480
            && header[..l] == ossz::var_list(&[b[0].clone(), vec![]])[..l]
            && {
                let p = &header[l..];
                let mut x = oracle::sha2(&keccak256(&b[0]), &p[..32].try_into().expect("32 bytes"));
                for (i, s) in p[32..480].chunks(32).enumerate() {
                    let s: H = s.try_into().expect("32 bytes");
                    x = if i < 13 && n >> i & 1 == 1 { oracle::sha2(&s, &x) } else { oracle::sha2(&x, &s) };
                }
                p[..32] == b[3][..] && x == root
            };
        if !ctx.check(good, "wrong-file", || story(format!("block {n}"))) {
            return;
        }
        ctx.event("early block");
    }
    ctx.eval_bulk("early block", blocks.len() as u64);
    ix.extend(PER_FILE.to_le_bytes());
    let last = &got[got.len() - 1];
    ctx.check(last.0 == 0x6632 && last.2 == ix, "wrong-file", || story("index".into()));
    let name = done[0].file_name().map(|n| n.to_string_lossy().to_string()).unwrap_or_default();
    let hash = keccak256(&blocks[PER_FILE as usize - 1][0]);
    ctx.check(name == format!("mainnet-00000-{}.e2hs", hex(&hash[..4])), "wrong-file", || story(name.clone()));
}
