//! States that are written to a file and read elsewhere.
use std::{
    collections::BTreeSet,
    path::{Path, PathBuf},
    sync::{
        atomic::{AtomicU64, Ordering},
        Arc,
    },
};

use alloy::primitives::{keccak256, Address, B256, U256};
use oracle::rlp;
use revm::DatabaseRef;
use trin_execution::{
    cli::{ExportStateConfig, ImportStateConfig},
    config::StateConfig,
    execution::TrinExecution,
    subcommands::e2ss::{export::StateExporter, import::StateImporter},
};
use vcommon::{json, Ctx, Rng};

use super::{
    chain::{address, value, Chain},
    go::runtime,
    keep::change,
    node::{compare, forget, open, place, seeded},
    serve::{Archive, Fault, Site, PER_FILE},
    world::*,
};

fn split(b: &[u8]) -> Vec<(u16, Vec<u8>)> {
    let mut out = vec![];
    let mut at = 0;
    while at + 8 <= b.len() {
        let n = u32::from_le_bytes(b[at + 2..at + 6].try_into().expect("four")) as usize;
        out.push((u16::from_be_bytes([b[at], b[at + 1]]), b[at + 8..at + 8 + n].to_vec()));
        at += 8 + n;
    }
    out
}
fn join(e: &[(u16, Vec<u8>)]) -> Vec<u8> {
    e.iter().flat_map(|(t, v)| super::serve::entry(*t, v)).collect()
}
fn unframe(b: &[u8]) -> Vec<u8> {
    use std::io::Read;
    let mut out = vec![];
    let _ = snap::read::FrameDecoder::new(b).read_to_end(&mut out);
    out
}
fn import(dir: &Path, file: &Path) -> Result<(u64, B256), String> {
    let rt = runtime();
    let got = vcommon::guard(|| {
        rt.block_on(async {
            let i = StateImporter::new(ImportStateConfig { path_to_e2ss: file.to_path_buf() }, dir).await?;
            let h = i.import().await?;
            anyhow::Ok((h.number, h.state_root))
        })
    });
    match got {
        Ok(Ok(x)) => Ok(x),
        Ok(Err(e)) => Err(format!("{e:#}")),
        Err(p) => Err(format!("{p:?}")),
    }
}
fn export(dir: &Path, to: &Path) -> Result<(PathBuf, u64), String> {
    let rt = runtime();
    let got = vcommon::guard(|| {
        rt.block_on(async {
            let e = StateExporter::new(ExportStateConfig { path_to_e2ss: to.to_path_buf() }, dir).await?;
            let p = e.export()?;
            anyhow::Ok((p, e.header().number))
        })
    });
    match got {
        Ok(Ok(x)) => Ok(x),
        Ok(Err(e)) => Err(format!("{e:#}")),
        Err(p) => Err(format!("{p:?}")),
    }
}
struct Story {
    at: u64,
    world: World,
    seen: BTreeSet<Address>,
    keys: Vec<U256>,
    last: u64,
    end: World,
    end_seen: BTreeSet<Address>,
    site: Site,
}
fn story(r: &mut Rng, i: usize) -> Story {
    let file = *r.pick(&[1u64, 200, 1000, 1800, 1950, 2300, 2400]);
    // sometimes the hashes needed are in two files, and sometimes there are fewer blocks than that
    let start = match i % 4 {
        0 => (file + 1) * PER_FILE - r.range(1, 255),
        1 => r.range(1, 100),
        _ => file * PER_FILE + r.below(100),
    };
    let contracts = r.usize_in(1, 4);
    let mut c = Chain::start(r, start, contracts);
    c.far = true;
    let mut a = Archive::default();
    // what is there before the first block is unknown to the archive but must not be needed
    let before = if i % 4 == 1 { r.range(2, 140) } else { 256 };
    for k in 0..before {
        let most = if k + 6 > before { 4 } else { 0 };
        a.put(&c.block(r, most).block);
    }
    // a few more accounts and slots
    let (extra, _) = change(r, &c.world, &c.keys, &BTreeSet::new(), 30);
    c.world = extra;
    if c.next >= SPURIOUS {
        c.world.accs.retain(|_, x| !(x.nonce == 0 && x.balance.is_zero() && x.code.is_empty() && x.slots.is_empty()));
    }
    for x in c.world.accs.values_mut() {
        x.balance = x.balance % (U256::from(1) << 200);
    }
    c.seen.extend(c.world.accs.keys().copied());
    let m = c.block(r, 4);
    a.put(&m.block);
    let (at, world, seen) = (c.next - 1, c.world.clone(), c.seen.clone());
    for _ in 0..r.usize_in(2, 5) {
        a.put(&c.block(r, 5).block);
    }
    Story { at, world, seen, keys: c.keys.clone(), last: c.next - 1, end: c.world.clone(), end_seen: c.seen.clone(), site: a.done() }
}
pub fn moved(ctx: &mut Ctx) {
    ctx.level("states, alterations, faults and stops drawn at random");
    let mut rng = ctx.rng.fork("moved");
    for i in 0..ctx.n(12, 70) as usize {
        if ctx.saturated() {
            break;
        }
        let mut r = rng.fork(&format!("story {i}"));
        let _ = rng.u64();
        one(ctx, &mut r, i);
        rocksdb::on_write(None);
    }
    reqwest::answered_by(None);
    ctx.require("imported", 30);
    ctx.require("altered file", 40);
    ctx.require("refused", 25);
    ctx.require("stopped import", 15);
    ctx.require("failed download", 4);
    ctx.require("went on", 10);
}
/// Whether a database holds exactly the exported state.
fn holds(ctx: &mut Ctx, s: &Story, dir: &Path, what: &str) -> bool {
    match open(dir, StateConfig::default()) {
        Ok(n) => {
            let root = eth_trie::Trie::root_hash(&mut *n.db.trie.lock()).ok();
            ctx.check(n.at.next_block_number() == s.at + 1 && n.at.state_root() == s.world.root() && root == Some(s.world.root()), "position-wrong", || {
                j!({"story": what, "next": n.at.next_block_number(), "want": s.at + 1, "root": format!("{root:?}")})
            }) && compare(ctx, &n.db, &s.world, &s.seen, &s.keys, what)
        }
        Err(e) => {
            ctx.violation("state-refused", j!({"story": what, "error": format!("{e:#}")}));
            false
        }
    }
}
/// Execution goes on from the imported state.
fn goes_on(ctx: &mut Ctx, s: &Story, dir: &Path, what: &str) {
    let rt = runtime();
    let got = vcommon::guard(|| {
        rt.block_on(async {
            let mut t = TrinExecution::new(dir, StateConfig::default()).await?;
            anyhow::Ok(t.process_range_of_blocks(s.last, None).await?.root)
        })
    });
    ctx.event("went on");
    match got {
        Ok(Ok(root)) => {
            ctx.check(root == s.end.root(), "state-root-wrong", || j!({"story": what}));
            if let Ok(n) = open(dir, StateConfig::default()) {
                compare(ctx, &n.db, &s.end, &s.end_seen, &s.keys, what);
            }
        }
        e => ctx.violation("cannot-go-on", j!({"story": what, "error": format!("{e:?}")})),
    }
}
fn one(ctx: &mut Ctx, r: &mut Rng, i: usize) {
    let s = story(r, i);
    s.site.open();
    let what = j!({"at": s.at, "accounts": s.world.accs.len(), "slots": s.world.accs.values().map(|a| a.slots.len()).sum::<usize>()});
    let a = match seeded(&s.world, s.at + 1, StateConfig::default()) {
        Ok(n) => n.dir.clone(),
        Err(e) => return ctx.violation("state-refused", j!({"error": format!("{e:#}")})),
    };
    let tmp = tempfile::tempdir().expect("scratch");
    ctx.eval("state", &(s.at, s.world.root().0));
    // nothing is exported when there is nothing, or when the state is not the one of the block
    let empty = place();
    ctx.check(export(&empty, &tmp.path().join("no")).is_err(), "empty-state-exported", || what.clone());
    forget(&empty);
    if let Ok(n) = seeded(&s.end, s.at + 1, StateConfig::default()) {
        let d = n.dir.clone();
        drop(n);
        if s.end.root() != s.world.root() {
            ctx.check(export(&d, &tmp.path().join("no")).is_err(), "wrong-state-exported", || what.clone());
        }
        forget(&d);
    }
    let (file, number) = match export(&a, tmp.path()) {
        Ok(x) => x,
        Err(e) => return ctx.violation("export-failed", j!({"story": what, "error": e})),
    };
    ctx.check(number == s.at, "wrong-block-exported", || j!({"story": what, "number": number}));
    let name = file.file_name().unwrap_or_default().to_string_lossy().into_owned();
    ctx.check(name == format!("mainnet-{:010}-{}.e2ss", s.at, &vcommon::hex(&s.world.root().0[..4])), "wrong-file-name", || name.clone());
    let bytes = std::fs::read(&file).unwrap_or_default();
    content(ctx, &s, &bytes, &what);
    let dir = place();
    let store = dir.join("rocksdb");
    let fresh = || rocksdb::restore(&store, Default::default());
    // there and back
    let writes = Arc::new(AtomicU64::new(0));
    {
        let w = writes.clone();
        rocksdb::on_write(Some(Arc::new(move |_: &Path, _: &[u8], _: Option<&[u8]>| {
            w.fetch_add(1, Ordering::SeqCst);
            true
        })));
    }
    let got = import(&dir, &file);
    rocksdb::on_write(None);
    let total = writes.load(Ordering::SeqCst);
    ctx.event("imported");
    if !ctx.check(got == Ok((s.at, s.world.root())), "import-failed", || j!({"story": what, "got": format!("{got:?}")})) || !holds(ctx, &s, &dir, &what) {
        return;
    }
    // not a second time
    let held = rocksdb::dump(&store);
    ctx.check(import(&dir, &file).is_err() && rocksdb::dump(&store) == held, "imported-over-another-state", || what.clone());
    goes_on(ctx, &s, &dir, &what);
    // altered files
    let entries = split(&bytes);
    for k in 0..ctx.n(7, 12) {
        fresh();
        let (how, altered, added) = alter(r, &entries, &bytes);
        let path = tmp.path().join(format!("altered-{k}"));
        std::fs::write(&path, &altered).expect("scratch");
        ctx.event("altered file");
        ctx.eval("altered file", &(s.at, how.clone(), k));
        let got = import(&dir, &path);
        match got {
            Ok(_) => {
                // what does not matter may be altered
                holds(ctx, &s, &dir, &j!({"story": what, "altered": how}));
            }
            Err(_) => {
                ctx.event("refused");
                let next = open(&dir, StateConfig::default()).map(|n| n.at.next_block_number());
                ctx.check(next.as_ref().ok() == Some(&0), "refused-file-counts-as-imported", || j!({"story": what, "altered": how, "next": format!("{next:?}")}));
                let got = import(&dir, &file);
                if ctx.check(got == Ok((s.at, s.world.root())), "import-failed", || j!({"story": what, "after": how, "got": format!("{got:?}")})) {
                    ctx.event("imported");
                    holds(ctx, &s, &dir, &j!({"story": what, "after": how}));
                    if let Some(a) = added {
                        let left = open(&dir, StateConfig::default()).ok().and_then(|n| n.db.basic_ref(a).ok().flatten());
                        ctx.check(left.is_none(), "account-left-from-refused-file", || j!({"story": what, "after": how, "account": format!("{left:?}")}));
                    }
                }
            }
        }
        let _ = std::fs::remove_file(&path);
    }
    // stops and failed downloads
    for _ in 0..ctx.n(4, 10) {
        fresh();
        let mut log = vec![];
        for _ in 0..r.range(1, 2) {
            if r.chance(1, 3) {
                let f = *r.pick(&[Fault::NoConnection, Fault::ServerError, Fault::Cut, Fault::Garbled, Fault::Empty]);
                let of = if r.chance(1, 4) { None } else { Some(if r.bool() { s.at / PER_FILE } else { s.at.saturating_sub(256) / PER_FILE }) };
                s.site.fault(of, &[f]);
                log.push(format!("{f:?} for {of:?}"));
                ctx.event("failed download");
            } else {
                let end = if r.bool() { total.saturating_sub(r.below(300)) } else { r.below(total) };
                log.push(format!("ends at write {end} of {total}"));
                ctx.event("stopped import");
                let n = AtomicU64::new(0);
                rocksdb::on_write(Some(Arc::new(move |_: &Path, _: &[u8], _: Option<&[u8]>| n.fetch_add(1, Ordering::SeqCst) < end)));
            }
            let got = import(&dir, &file);
            rocksdb::on_write(None);
            s.site.faults.lock().unwrap().clear();
            if got.is_ok() {
                break;
            }
        }
        let how = j!({"story": what, "stops": log});
        ctx.eval("stopped import", &how);
        let done = open(&dir, StateConfig::default()).is_ok_and(|n| n.at.next_block_number() != 0);
        let got = if done { Ok((s.at, s.world.root())) } else { import(&dir, &file) };
        if ctx.check(got == Ok((s.at, s.world.root())), "cannot-import-again", || j!({"how": how, "got": format!("{got:?}")})) && holds(ctx, &s, &dir, &how) && r.chance(1, 2) {
            goes_on(ctx, &s, &dir, &how);
        }
    }
    ctx.sample("state", || json!({"at": s.at, "accounts": s.world.accs.len(), "bytes": bytes.len(), "writes": total}));
    forget(&dir);
    forget(&a);
}
/// The file as such: every account once, in order, with its code and all of its slots.
fn content(ctx: &mut Ctx, s: &Story, bytes: &[u8], what: &str) {
    let mut want: Vec<Vec<u8>> = vec![];
    let mut accs: Vec<_> = s.world.accs.iter().map(|(a, x)| (keccak256(a), x)).collect();
    accs.sort_by_key(|x| x.0);
    for (h, x) in accs {
        let state = rlp::list(&[rlp::uint(x.nonce as u128), rlp::bytes(&x.balance.to_be_bytes_trimmed_vec()), rlp::bytes(&x.storage_root()), rlp::bytes(keccak256(&x.code).as_slice())]);
        want.push(rlp::list(&[rlp::bytes(h.as_slice()), state, rlp::list(&x.code.iter().map(|b| rlp::uint(*b as u128)).collect::<Vec<_>>()), rlp::uint(!x.slots.is_empty() as u128)]));
        if !x.slots.is_empty() {
            let mut items: Vec<_> = x.slots.iter().map(|(k, v)| (oracle::keccak256(&k.to_be_bytes::<32>()), v)).collect();
            items.sort();
            want.push(rlp::list(&items.iter().map(|(k, v)| rlp::list(&[rlp::bytes(k), rlp::bytes(&v.to_be_bytes_trimmed_vec())])).collect::<Vec<_>>()));
        }
    }
    let got: Vec<Vec<u8>> = split(bytes).iter().skip(2).map(|(_, v)| unframe(v)).collect();
    ctx.check(got == want, "exported-file-wrong", || j!({"story": what, "entries": got.len(), "want": want.len(), "first difference": got.iter().zip(&want).position(|(a, b)| a != b)}));
}
/// A file that is not the same any more; with the account that is too many, if any.
fn alter(r: &mut Rng, entries: &[(u16, Vec<u8>)], bytes: &[u8]) -> (String, Vec<u8>, Option<Address>) {
    let mut e = entries.to_vec();
    let pick = |r: &mut Rng, ty: u16, e: &[(u16, Vec<u8>)]| {
        let at: Vec<usize> = e.iter().enumerate().filter(|(_, x)| x.0 == ty).map(|x| x.0).collect();
        (!at.is_empty()).then(|| *r.pick(&at))
    };
    let frame = super::serve::frame;
    loop {
        match r.below(9) {
            0 => {
                let cut = r.index(bytes.len());
                return (format!("cut at {cut}"), bytes[..cut].to_vec(), None);
            }
            1 => {
                let at = r.usize_in(2, e.len());
                e.truncate(at);
                return (format!("entries from {at} on missing"), join(&e), None);
            }
            2 => {
                let at = r.usize_in(2, e.len() - 1);
                e.remove(at);
                return (format!("entry {at} missing"), join(&e), None);
            }
            3 => {
                let at = r.usize_in(2, e.len() - 1);
                let x = e[at].clone();
                e.insert(at, x);
                return (format!("entry {at} twice"), join(&e), None);
            }
            4 => {
                // one byte of what is inside
                let at = r.usize_in(1, e.len() - 1);
                let mut v = unframe(&e[at].1);
                let p = r.index(v.len());
                v[p] ^= 1 << r.below(8);
                e[at].1 = frame(&v);
                return (format!("byte {p} of entry {at}"), join(&e), None);
            }
            5 => {
                let mut b = bytes.to_vec();
                let p = r.index(b.len());
                b[p] ^= 1 << r.below(8);
                return (format!("byte {p} of the file"), b, None);
            }
            6 => {
                // an account more
                let a = address(r);
                let h = keccak256(a);
                let state = rlp::list(&[rlp::uint(1), rlp::bytes(&value(r).to_be_bytes_trimmed_vec()), rlp::bytes(alloy::consensus::EMPTY_ROOT_HASH.as_slice()), rlp::bytes(keccak256([]).as_slice())]);
                let x = rlp::list(&[rlp::bytes(h.as_slice()), state, rlp::list(&[]), rlp::uint(0)]);
                let at = e.len();
                e.insert(at, (0x0800, frame(&x)));
                return ("an account more".into(), join(&e), Some(a));
            }
            7 => {
                // another slot
                let Some(at) = pick(r, 0x0900, &e) else { continue };
                let Some(rlp::Item::List(l)) = rlp::parse_all(&unframe(&e[at].1)) else { continue };
                let mut items: Vec<Vec<u8>> = l
                    .iter()
                    .map(|i| match i {
                        rlp::Item::List(p) => rlp::list(&p.iter().map(|b| if let rlp::Item::Bytes(b) = b { rlp::bytes(b) } else { vec![] }).collect::<Vec<_>>()),
                        _ => vec![],
                    })
                    .collect();
                let k = r.index(items.len());
                if r.bool() && items.len() > 1 {
                    items.remove(k);
                } else {
                    items[k] = rlp::list(&[rlp::bytes(&r.array::<32>()), rlp::uint(1 + r.below(9) as u128)]);
                }
                e[at].1 = frame(&rlp::list(&items));
                return (format!("slot {k} of entry {at}"), join(&e), None);
            }
            _ => {
                if e.len() < 5 {
                    continue;
                }
                let (x, y) = (r.usize_in(2, e.len() - 1), r.usize_in(2, e.len() - 1));
                if e[x] == e[y] {
                    continue;
                }
                e.swap(x, y);
                return (format!("entries {x} and {y} swapped"), join(&e), None);
            }
        }
    }
}
