//! Two stores sharing one database file, used from several threads at once.
use std::sync::{
    atomic::{AtomicBool, AtomicU64, Ordering::SeqCst},
    Arc, Mutex, RwLock,
};

use ethportal_api::{IdentityContentKey, OverlayContentKey, RawContentValue};
use trin_storage::{
    utils::setup_sql,
    versioned::create_store,
    ContentId,
};
use vcommon::{hex, Ctx, Rng};

use crate::model::{dump, scratch, xor, Id, Map, Setup, Store};

struct Shared {
    setup: Setup,
    store: RwLock<(Store, Map)>,
}

fn trial(c: &mut Ctx, i: u64) {
    let mut r = c.rng.fork(&format!("parallel{i}"));
    let dir = scratch();
    let pool = setup_sql(dir.path()).expect("database");
    let node: Id = r.array();
    let mut stores: Vec<Arc<Shared>> = vec![];
    for state in [false, true] {
        let setup = Setup { node, capacity: 20_000 + r.below(40_000), max_radius: [0xff; 32], state };
        match create_store(setup.content_type(), setup.config(dir.path(), pool.clone()), pool.clone()) {
            Ok(s) => stores.push(Arc::new(Shared { setup, store: RwLock::new((s, Map::new())) })),
            Err(e) => return c.violation("open-failed", format!("{e}")),
        }
    }
    let bad: Arc<Mutex<Vec<(String, String)>>> = Arc::default();
    let reads = Arc::new(AtomicU64::new(0));
    let writes = Arc::new(AtomicU64::new(0));
    let evictions = Arc::new(AtomicU64::new(0));
    let stop = Arc::new(AtomicBool::new(false));
    let steps = 120;
    std::thread::scope(|scope| {
        let mut writers = vec![];
        for (si, sh) in stores.iter().enumerate() {
            for w in 0..2u64 {
                let (sh, bad, writes, evictions) = (sh.clone(), bad.clone(), writes.clone(), evictions.clone());
                let mut r = Rng::new(r.u64() ^ (w << 32) ^ si as u64);
                writers.push(scope.spawn(move || {
                    for _ in 0..steps {
                        let d: Id = {
                            let mut d: Id = r.array();
                            d[0] >>= r.below(6);
                            d
                        };
                        let id = xor(&sh.setup.node, &d);
                        let n = r.index(600);
                        let v = r.bytes(n);
                        let mut g = sh.store.write().unwrap();
                        let (store, map) = &mut *g;
                        if r.chance(1, 6) && !map.is_empty() {
                            let k = *map.keys().nth(r.index(map.len())).unwrap();
                            if let Err(e) = store.delete(&ContentId::from(k)) {
                                bad.lock().unwrap().push(("delete-failed".into(), format!("{e}")));
                            }
                            map.remove(&k);
                        } else {
                            match store.insert(&IdentityContentKey::new(id), RawContentValue::from(v.clone())) {
                                Ok(ev) => {
                                    map.entry(id).or_insert(v);
                                    for (k, v) in ev {
                                        evictions.fetch_add(1, SeqCst);
                                        if map.remove(&k.content_id()) != Some(v.to_vec()) {
                                            bad.lock().unwrap().push(("evicted-unknown".into(), hex(&k.content_id())));
                                        }
                                    }
                                }
                                Err(trin_storage::error::ContentStoreError::InsufficientRadius { .. }) => {}
                                Err(e) => bad.lock().unwrap().push(("insert-refused".into(), format!("{e}"))),
                            }
                        }
                        writes.fetch_add(1, SeqCst);
                    }
                }));
            }
            for w in 0..2u64 {
                let (sh, bad, stop, reads) = (sh.clone(), bad.clone(), stop.clone(), reads.clone());
                let mut r = Rng::new(r.u64() ^ (w << 40) ^ si as u64);
                scope.spawn(move || {
                    while !stop.load(SeqCst) {
                        {
                            let g = sh.store.read().unwrap();
                            let (store, map) = &*g;
                            let id = if map.is_empty() || r.chance(1, 4) { r.array() } else { *map.keys().nth(r.index(map.len())).unwrap() };
                            let got = store.lookup_content_value(&ContentId::from(id));
                            match got {
                                Ok(v) if v.as_ref().map(|v| v.to_vec()) == map.get(&id).cloned() => {}
                                other => bad.lock().unwrap().push(("lookup-value".into(), format!("{}: {other:?}", hex(&id)))),
                            }
                            match store.paginate(0, 10) {
                                Ok(p) if p.content_keys.iter().map(|k| k.content_id()).eq(map.keys().take(10).copied()) => {}
                                other => bad.lock().unwrap().push(("page-contents".into(), format!("{other:?}"))),
                            }
                        }
                        reads.fetch_add(1, SeqCst);
                        std::thread::yield_now();
                    }
                });
            }
        }
        for w in writers {
            let _ = w.join();
        }
        stop.store(true, SeqCst);
    });
    for (sig, d) in bad.lock().unwrap().drain(..).take(3) {
        c.violation(&sig, format!("while two stores share a database: {d}"));
    }
    for p in vcommon::take_background_panics() {
        c.violation("panic-in-code-under-test", p);
    }
    c.eval_bulk("parallel read", reads.load(SeqCst));
    c.eval_bulk("parallel write", writes.load(SeqCst));
    for _ in 0..evictions.load(SeqCst) {
        c.event("eviction");
    }
    for sh in &stores {
        let mut g = match sh.store.write() {
            Ok(g) => g,
            Err(p) => p.into_inner(),
        };
        let (store, map) = &mut *g;
        c.check(dump(store).as_ref() == Ok(map), "contents-differ", || format!("state={} after parallel use", sh.setup.state));
        c.check_eq(&store.usage_stats().entry_count(), &(map.len() as u64), "entry-count", || format!("state={}", sh.setup.state));
        c.check_eq(&store.usage_stats().estimated_disk_usage_bytes(), &sh.setup.usage(map), "estimated-usage", || format!("state={}", sh.setup.state));
        c.eval("parallel outcome", &(sh.setup.state, vcommon::hash_of(map)));
    }
}

pub fn shared_database(c: &mut Ctx) {
    c.rule("stores sharing one database file, used from several threads, each behave as if alone");
    for i in 0..c.n(30, 400) {
        trial(c, i);
        if c.saturated() {
            break;
        }
    }
    c.require("parallel outcome", 4);
    c.require("eviction", 5);
}
