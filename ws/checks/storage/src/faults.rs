//! Crash points and failing statements: the database is copied before, or failed at, every single
//! statement of an operation, and what is left must be a state the operation may pass through.
use std::{
    path::{Path, PathBuf},
    sync::{
        atomic::{AtomicUsize, Ordering::SeqCst},
        Arc,
    },
};

use ethportal_api::{IdentityContentKey, RawContentValue};
use trin_storage::ContentId;
use vcommon::{hex, json, Ctx, Rng};

use crate::model::{dump, farthest_first, scratch, some_distance, xor, Id, Map, Setup};

#[derive(Clone, Debug)]
enum Op {
    Insert(Id, Vec<u8>),
    Delete(Id),
    Open(u64),
}

fn copy_dir(from: &Path, to: &Path) {
    std::fs::create_dir_all(to).unwrap();
    for e in std::fs::read_dir(from).unwrap() {
        let e = e.unwrap();
        if e.file_type().unwrap().is_file() && !e.file_name().to_string_lossy().ends_with("-shm") {
            std::fs::copy(e.path(), to.join(e.file_name())).unwrap();
        }
    }
}

struct Armed;
impl Drop for Armed {
    fn drop(&mut self) {
        rusqlite::hook::set(None);
    }
}

/// Runs `f` with the callback in place; returns its result and the number of statements seen.
fn with_hook<R>(at: usize, fault: Option<i32>, snapshot: Option<(PathBuf, PathBuf)>, f: impl FnOnce() -> R) -> (R, usize) {
    let n = Arc::new(AtomicUsize::new(0));
    let m = n.clone();
    rusqlite::hook::set(Some(Arc::new(move |_sql: &str| {
        let i = m.fetch_add(1, SeqCst);
        if i == at {
            if let Some((from, to)) = &snapshot {
                copy_dir(from, to);
            }
            return fault;
        }
        None
    })));
    let _armed = Armed;
    let r = f();
    (r, n.load(SeqCst))
}

/// States an operation may leave behind when it stops half way.
fn legit(setup: &Setup, before: &Map, op: &Op, after: &Map) -> Result<(), String> {
    match op {
        Op::Insert(id, v) => {
            let mut with = before.clone();
            with.entry(*id).or_insert_with(|| v.clone());
            if after == before {
                return Ok(());
            }
            farthest_first(&setup.node, &with, after).map(|_| ())
        }
        Op::Delete(id) => {
            let mut without = before.clone();
            without.remove(id);
            if after == before || *after == without {
                Ok(())
            } else {
                Err(format!("{} items before, {} after", before.len(), after.len()))
            }
        }
        Op::Open(_) => farthest_first(&setup.node, before, after).map(|_| ()),
    }
}

/// Opens `dir`, checks that what is found is legitimate and that the store works.
fn judge(c: &mut Ctx, setup: &Setup, dir: &Path, before: &Map, op: &Op, what: &str) {
    let mut store = match setup.open(dir) {
        Ok(s) => s,
        Err(e) => return c.violation("unusable-after-crash", format!("{what}: {e}")),
    };
    let after = match dump(&store) {
        Ok(m) => m,
        Err(e) => return c.violation("unreadable-after-crash", format!("{what}: {e}")),
    };
    if let Err(e) = legit(setup, before, op, &after) {
        c.violation("state-after-crash", format!("{what}: {e}"));
    }
    let u = store.usage_stats();
    c.check_eq(&u.entry_count(), &(after.len() as u64), "count-after-crash", || what.to_string());
    c.check_eq(&u.estimated_disk_usage_bytes(), &setup.usage(&after), "usage-after-crash", || what.to_string());
    c.check(setup.usage(&after) <= setup.capacity, "over-capacity-after-crash", || what.to_string());
    // Still works: content at distance zero is always accepted.
    let id = setup.node;
    let fresh = !after.contains_key(&id);
    let res = store.insert(&IdentityContentKey::new(id), RawContentValue::from(vec![7u8; 3]));
    c.check(res.is_ok(), "unusable-after-crash", || format!("{what}: insert {res:?}"));
    // Content that shares the leading four bytes with the node counts as equally close.
    let tied = after.keys().any(|k| k[..4] == setup.node[..4]);
    if fresh && !tied && setup.capacity > 900 {
        c.check(matches!(store.lookup_content_value(&ContentId::from(id)), Ok(Some(v)) if v.to_vec() == [7, 7, 7]), "unusable-after-crash", || {
            format!("{what}: fresh content not found")
        });
    }
}

fn trial(c: &mut Ctx, r: &mut Rng) {
    let state = r.bool();
    let setup = Setup { node: r.array(), capacity: 3_000 + r.below(30_000), max_radius: [0xff; 32], state };
    let base = scratch();
    let mut before = Map::new();
    {
        let mut store = match setup.open(base.path()) {
            Ok(s) => s,
            Err(e) => return c.violation("open-failed", format!("{e}")),
        };
        let ds: Vec<Id> = vec![];
        // Fill without pruning.
        loop {
            let id = xor(&setup.node, &some_distance(r, &ds));
            let n = r.index(700);
            let v = r.bytes(n);
            let mut next = before.clone();
            next.entry(id).or_insert(v.clone());
            if id == setup.node {
                continue;
            }
            if setup.usage(&next) > setup.capacity {
                break;
            }
            if store.insert(&IdentityContentKey::new(id), RawContentValue::from(v)).is_err() {
                return c.violation("insert-refused", "while filling an empty store");
            }
            before = next;
        }
    }
    let ops = {
        let mut v = vec![Op::Open(setup.capacity), Op::Open(setup.usage(&before) / 3), Op::Open(0)];
        let n = 2_000 + r.index(2_000);
        // close by, so it stays inside the radius even if the store is above its target
        let mut d = [0u8; 32];
        d[20] = 1 + r.u8() / 2;
        v.push(Op::Insert(xor(&setup.node, &d), r.bytes(n)));
        d[20] += 1;
        v.push(Op::Insert(xor(&setup.node, &d), r.bytes(10)));
        if !before.is_empty() {
            let keys: Vec<Id> = before.keys().copied().collect();
            v.push(Op::Delete(*r.pick(&keys)));
            let near = *keys.iter().min_by_key(|k| xor(&setup.node, k)).unwrap();
            v.push(Op::Insert(near, r.bytes(2_000)));
        }
        v
    };
    for op in ops {
        let mut setup = setup.clone();
        if let Op::Open(capacity) = op {
            setup.capacity = capacity;
        }
        let filled_capacity = setup.capacity;
        let mut at = 0;
        loop {
            let mut total = 0;
            for mode in 0..2 {
                let work = scratch();
                copy_dir(base.path(), work.path());
                let snap = scratch();
                let code = *r.pick(&[5, 10, 13]);
                let (fault, snapshot) = if mode == 0 {
                    (Some(code), None)
                } else {
                    (None, Some((work.path().to_path_buf(), snap.path().join("db"))))
                };
                let what = format!(
                    "{} at statement {at} of {:?}, capacity {filled_capacity}, node {}",
                    if mode == 0 { format!("error {code}") } else { "crash".into() },
                    match &op {
                        Op::Insert(id, v) => format!("insert {} ({} bytes)", hex(id), v.len()),
                        o => format!("{o:?}"),
                    },
                    hex(&setup.node)
                );
                let run = vcommon::guard(|| match &op {
                    Op::Open(_) => {
                        let (res, n) = with_hook(at, fault, snapshot, || setup.open(work.path()));
                        (res.map_err(|e| e.to_string()), n, true)
                    }
                    _ => {
                        let mut store = setup.open(work.path()).expect("opened before");
                        let (res, n) = with_hook(at, fault, snapshot, || match &op {
                            Op::Insert(id, v) => store
                                .insert(&IdentityContentKey::new(*id), RawContentValue::from(v.clone()))
                                .map(|_| ())
                                .map_err(|e| e.to_string()),
                            Op::Delete(id) => store.delete(&ContentId::from(*id)).map_err(|e| e.to_string()),
                            Op::Open(_) => unreachable!(),
                        });
                        (res.map(|_| store).map_err(|e| e), n, false)
                    }
                });
                let (res, n, _) = match run {
                    Ok(x) => x,
                    Err(p) => {
                        c.violation("panic-on-failing-statement", format!("{what}: {p}"));
                        continue;
                    }
                };
                total = total.max(n);
                if at >= n {
                    continue;
                }
                c.eval(if mode == 0 { "failing statement" } else { "crash point" }, &(at, format!("{op:?}").len(), filled_capacity, before.len()));
                if mode == 0 {
                    // An operation that reports success must have had its full effect.
                    if let Ok(store) = &res {
                        c.event("failure survived");
                        if let Ok(m) = dump(store) {
                            if let Op::Delete(id) = &op {
                                c.check(!m.contains_key(id), "false-success", || what.clone());
                            }
                            c.check(setup.usage(&m) <= setup.capacity, "false-success", || what.clone());
                            c.check_eq(&store.usage_stats().entry_count(), &(m.len() as u64), "count-after-error", || what.clone());
                        }
                    } else {
                        c.event("failure reported");
                    }
                    drop(res);
                    judge(c, &setup, work.path(), &before, &op, &what);
                } else {
                    c.check(res.is_ok(), "operation-failed", || format!("{what}: {:?}", res.as_ref().err()));
                    drop(res);
                    judge(c, &setup, &snap.path().join("db"), &before, &op, &what);
                }
            }
            at += 1;
            if at >= total || c.saturated() {
                break;
            }
        }
        c.sample("operation", || json!({"op": format!("{op:?}").chars().take(60).collect::<String>(), "statements": at}));
        if c.saturated() {
            return;
        }
    }
}

/// A store that saw a failing statement keeps exact books without being reopened.
fn keeps_books(c: &mut Ctx, r: &mut Rng) {
    let setup = Setup { node: r.array(), capacity: 12_000, max_radius: [0xff; 32], state: true };
    let dir = scratch();
    let mut store = match setup.open(dir.path()) {
        Ok(s) => s,
        Err(e) => return c.violation("open-failed", format!("{e}")),
    };
    let mut log: Vec<String> = vec![];
    for _ in 0..60 {
        let mut d: Id = r.array();
        d[0] >>= r.below(8);
        let id = xor(&setup.node, &d);
        let n = r.index(500);
        let v = r.bytes(n);
        let before = match dump(&store) {
            Ok(m) => m,
            Err(e) => return c.violation("unreadable-after-error", e),
        };
        let del = r.chance(1, 5);
        let op = if del && !before.is_empty() {
            Op::Delete(*before.keys().nth(r.index(before.len())).unwrap())
        } else {
            Op::Insert(id, v)
        };
        let at = if r.chance(1, 3) { r.index(4) } else { usize::MAX };
        let res = vcommon::guard(|| {
            with_hook(at, Some(10), None, || match &op {
                Op::Insert(id, v) => store
                    .insert(&IdentityContentKey::new(*id), RawContentValue::from(v.clone()))
                    .map(|_| ())
                    .map_err(|e| e.to_string()),
                Op::Delete(id) => store.delete(&ContentId::from(*id)).map_err(|e| e.to_string()),
                Op::Open(_) => unreachable!(),
            })
        });
        log.push(format!("{} fault@{at} -> {}", format!("{op:?}").chars().take(30).collect::<String>(), match &res {
            Ok((r, _)) => format!("{r:?}").chars().take(60).collect(),
            Err(p) => p.clone(),
        }));
        let n = match res {
            Ok((_, n)) => n,
            Err(p) => return c.violation("panic-on-failing-statement", format!("{p}: {}", log.join("; "))),
        };
        if at < n {
            c.event("failure in a live store");
        }
        let after = match dump(&store) {
            Ok(m) => m,
            Err(e) => return c.violation("unreadable-after-error", e),
        };
        if let Err(e) = legit(&setup, &before, &op, &after) {
            return c.violation("state-after-error", format!("{e}: {}", log.join("; ")));
        }
        let u = store.usage_stats();
        c.eval("live step", &(vcommon::hash_of(&after), at));
        if !c.check_eq(&u.entry_count(), &(after.len() as u64), "count-after-error", || log.join("; "))
            || !c.check_eq(&u.estimated_disk_usage_bytes(), &setup.usage(&after), "usage-after-error", || log.join("; "))
        {
            return;
        }
    }
}

pub fn crash_and_failure(c: &mut Ctx) {
    c.rule("after a crash or failing statement at any point the database opens, holds a state the operation may pass through, and its books are exact");
    c.assume("the database engine itself is crash safe at statement granularity (file contents are copied between statements)");
    let n = c.n(40, 400);
    for i in 0..n {
        let mut r = c.rng.fork(&format!("trial{i}"));
        trial(c, &mut r);
        if c.saturated() {
            return;
        }
    }
    for i in 0..c.n(200, 3000) {
        let mut r = c.rng.fork(&format!("books{i}"));
        keeps_books(c, &mut r);
        if c.saturated() {
            return;
        }
    }
    c.require("failing statement", 30);
    c.require("crash point", 30);
    c.require("failure in a live store", 30);
}
