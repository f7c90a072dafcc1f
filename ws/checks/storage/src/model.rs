//! Histories of a content store against a plain map, with capacity, eviction and radius monitors.
use std::{collections::BTreeMap, path::PathBuf};

use alloy::primitives::B256;
use discv5::enr::NodeId;
use ethportal_api::{
    types::{distance::Distance, network::Subnetwork},
    IdentityContentKey, OverlayContentKey, RawContentValue,
};
use tempfile::TempDir;
use trin_storage::{
    error::ContentStoreError,
    utils::setup_sql,
    versioned::{create_store, ContentType, IdIndexedV1Store, IdIndexedV1StoreConfig},
    ContentId, PortalStorageConfig,
};
use vcommon::{hex, json, Ctx, Rng};

pub type Store = IdIndexedV1Store<IdentityContentKey, ethportal_api::types::distance::XorMetric>;
pub type Id = [u8; 32];

pub fn scratch() -> TempDir {
    let shm = PathBuf::from("/dev/shm");
    TempDir::new_in(&shm).unwrap_or_else(|_| TempDir::new().expect("scratch directory"))
}

pub fn xor(a: &Id, b: &Id) -> Id {
    std::array::from_fn(|i| a[i] ^ b[i])
}

pub fn dist(d: &Id) -> Distance {
    Distance::from(alloy::primitives::U256::from_be_bytes(*d))
}

pub fn big(d: Distance) -> Id {
    d.big_endian()
}

pub fn short(d: &Id) -> u32 {
    u32::from_be_bytes(d[..4].try_into().unwrap())
}

#[derive(Clone)]
pub struct Setup {
    pub node: Id,
    pub capacity: u64,
    pub max_radius: Id,
    pub state: bool,
}

impl Setup {
    pub fn extra(&self) -> u64 {
        if self.state {
            500
        } else {
            750
        }
    }
    pub fn content_type(&self) -> ContentType {
        if self.state {
            ContentType::State
        } else {
            ContentType::LegacyHistoryEternal
        }
    }
    pub fn subnetwork(&self) -> Subnetwork {
        if self.state {
            Subnetwork::State
        } else {
            Subnetwork::LegacyHistory
        }
    }
    pub fn target(&self) -> u64 {
        (self.capacity as f64 * 0.95).round() as u64
    }
    pub fn config(&self, dir: &std::path::Path, pool: r2d2::Pool<r2d2_sqlite::SqliteConnectionManager>) -> IdIndexedV1StoreConfig {
        IdIndexedV1StoreConfig::new(
            self.content_type(),
            self.subnetwork(),
            PortalStorageConfig {
                storage_capacity_bytes: self.capacity,
                node_id: NodeId::new(&self.node),
                node_data_dir: dir.to_path_buf(),
                sql_connection_pool: pool,
                max_radius: dist(&self.max_radius),
            },
        )
    }
    pub fn open(&self, dir: &std::path::Path) -> Result<Store, ContentStoreError> {
        let pool = setup_sql(dir)?;
        create_store(self.content_type(), self.config(dir, pool.clone()), pool)
    }
    pub fn size(&self, value: &[u8]) -> u64 {
        64 + value.len() as u64
    }
    pub fn usage(&self, m: &Map) -> u64 {
        m.values().map(|v| self.size(v) + self.extra()).sum()
    }
}

pub type Map = BTreeMap<Id, Vec<u8>>;

pub fn farthest_short(node: &Id, m: &Map) -> Option<u32> {
    m.keys().map(|id| short(&xor(node, id))).max()
}

/// Checks that the radius is the one that follows from what is stored.
fn radius_is_farthest(s: &Setup, m: &Map, r: &Id) -> Result<(), String> {
    if m.is_empty() {
        let want = if s.capacity == 0 { [0; 32] } else { s.max_radius };
        return if *r == want { Ok(()) } else { Err(format!("empty store, radius {} instead of {}", hex(r), hex(&want))) };
    }
    let f = farthest_short(&s.node, m).unwrap();
    let candidates: Vec<Id> = m
        .keys()
        .map(|id| xor(&s.node, id))
        .filter(|d| short(d) == f)
        .map(|d| d.min(s.max_radius))
        .collect();
    if candidates.contains(r) {
        Ok(())
    } else {
        Err(format!("radius {} but the farthest stored distance is {}", hex(r), hex(candidates.iter().max().unwrap())))
    }
}

/// `after` must be `before` without a number of its farthest items.
pub fn farthest_first(node: &Id, before: &Map, after: &Map) -> Result<usize, String> {
    for (k, v) in after {
        match before.get(k) {
            None => return Err(format!("{} appeared from nowhere", hex(k))),
            Some(w) if w != v => return Err(format!("the value of {} changed", hex(k))),
            _ => {}
        }
    }
    let gone: Vec<&Id> = before.keys().filter(|k| !after.contains_key(*k)).collect();
    let nearest_gone = gone.iter().map(|k| short(&xor(node, k))).min();
    if let (Some(g), Some(kept)) = (nearest_gone, farthest_short(node, after)) {
        if g < kept {
            return Err(format!("an item at distance 0x{g:08x}.. was dropped while one at 0x{kept:08x}.. was kept"));
        }
    }
    Ok(gone.len())
}

/// What the store holds, as told by the store itself.
pub fn dump(store: &Store) -> Result<Map, String> {
    let p = store.paginate(0, 1_000_000).map_err(|e| format!("paginate failed: {e}"))?;
    let mut out = Map::new();
    for k in p.content_keys {
        let id = k.content_id();
        let v = store
            .lookup_content_value(&id.into())
            .map_err(|e| format!("lookup failed: {e}"))?
            .ok_or("listed content has no value")?;
        if out.insert(id, v.to_vec()).is_some() {
            return Err("a key is listed twice".into());
        }
    }
    Ok(out)
}

pub struct Run {
    pub dir: TempDir,
    pub setup: Setup,
    pub store: Option<Store>,
    pub map: Map,
    pub radius: Id,
    pub log: Vec<String>,
    /// All values of the same size, so the amount pruned is predictable.
    pub uniform: Option<usize>,
}

pub fn some_distance(r: &mut Rng, known: &[Id]) -> Id {
    let mut d: Id = r.array();
    match r.below(8) {
        0 => {
            let z = r.index(33);
            d[..z].fill(0);
        }
        1 => d[..4].copy_from_slice(&[0xff, 0xff, 0xff, 0xff]),
        2 if !known.is_empty() => d[..4].copy_from_slice(&r.pick(known)[..4]),
        3 => d[0] >>= r.below(8),
        _ => {}
    }
    d
}

impl Run {
    pub fn new(setup: Setup, uniform: Option<usize>) -> Result<Run, String> {
        let dir = scratch();
        let store = setup.open(dir.path()).map_err(|e| format!("{e}"))?;
        let radius = big(store.radius());
        let mut run = Run { dir, setup, store: Some(store), map: Map::new(), radius, log: vec![], uniform };
        run.log.push(format!("open capacity={} state={} max_radius={}", run.setup.capacity, run.setup.state, hex(&run.setup.max_radius)));
        Ok(run)
    }
    pub fn history(&self) -> String {
        let n = self.log.len();
        let from = n.saturating_sub(40);
        format!("node={} history(last {} of {n}): {}", hex(&self.setup.node), n - from, self.log[from..].join("; "))
    }

    /// Compares everything the store says about itself with the model.
    pub fn compare(&self, c: &mut Ctx) -> bool {
        let store = self.store.as_ref().unwrap();
        let what = || self.history();
        let u = store.usage_stats();
        let mut ok = c.check_eq(&u.entry_count(), &(self.map.len() as u64), "entry-count", what);
        ok &= c.check_eq(
            &u.total_entry_size_bytes(),
            &self.map.values().map(|v| self.setup.size(v)).sum::<u64>(),
            "stored-size",
            what,
        );
        ok &= c.check_eq(&u.estimated_disk_usage_bytes(), &self.setup.usage(&self.map), "estimated-usage", what);
        ok &= c.check(u.estimated_disk_usage_bytes() <= self.setup.capacity, "over-capacity", || {
            format!("usage {} capacity {}: {}", u.estimated_disk_usage_bytes(), self.setup.capacity, what())
        });
        ok &= c.check_eq(&hex(&big(store.radius())), &hex(&self.radius), "radius-changed", what);
        ok
    }

    pub fn full_compare(&self, c: &mut Ctx) -> bool {
        let store = self.store.as_ref().unwrap();
        match dump(store) {
            Ok(d) => c.check(d == self.map, "contents-differ", || {
                let lost: Vec<String> = self.map.keys().filter(|k| !d.contains_key(*k)).map(|k| hex(k)).collect();
                let extra: Vec<String> = d.keys().filter(|k| !self.map.contains_key(*k)).map(|k| hex(k)).collect();
                format!("missing {lost:?} unexpected {extra:?}: {}", self.history())
            }),
            Err(e) => {
                c.violation("contents-unreadable", format!("{e}: {}", self.history()));
                false
            }
        }
    }

    pub fn insert(&mut self, c: &mut Ctx, id: Id, value: Vec<u8>) -> bool {
        let d = xor(&self.setup.node, &id);
        let key = IdentityContentKey::new(id);
        self.log.push(format!("insert d={} len={}", hex(&d), value.len()));
        let store = self.store.as_mut().unwrap();
        let res = store.insert(&key, RawContentValue::from(value.clone()));
        if d > self.radius {
            c.event("insert outside radius");
            let h = self.history();
            return c.check(
                matches!(res, Err(ContentStoreError::InsufficientRadius { radius, distance }) if big(radius) == self.radius && big(distance) == d),
                "outside-radius-not-refused",
                || format!("{res:?}: {h}"),
            );
        }
        let evicted = match res {
            Ok(e) => e,
            Err(e) => {
                c.violation("insert-refused", format!("{e}: {}", self.history()));
                return false;
            }
        };
        let dup = self.map.contains_key(&id);
        c.event(if dup { "insert of known content" } else { "insert of new content" });
        let before = {
            let mut m = self.map.clone();
            m.entry(id).or_insert(value);
            m
        };
        let usage = self.setup.usage(&before);
        let mut after = before.clone();
        let mut ok = true;
        for (k, v) in &evicted {
            let kid = k.content_id();
            match after.remove(&kid) {
                None => {
                    ok = false;
                    c.violation("evicted-unknown", format!("{} reported as evicted but not stored: {}", hex(&kid), self.history()));
                }
                Some(w) => {
                    ok &= c.check(w == v.to_vec(), "evicted-value", || format!("{}: {}", hex(&kid), self.history()));
                }
            }
        }
        if usage <= self.setup.capacity {
            let h = self.history();
            ok &= c.check(evicted.is_empty(), "evicted-below-capacity", || {
                format!("{} evicted at usage {usage} of {}: {h}", evicted.len(), self.setup.capacity)
            });
        } else {
            c.event("eviction");
            if evicted.len() > 1 {
                c.event("eviction of several");
            }
            if let Err(e) = farthest_first(&self.setup.node, &before, &after) {
                ok = false;
                c.violation("eviction-order", format!("{e}: {}", self.history()));
            }
            if let Some(n) = self.uniform {
                if self.setup.capacity > 0 && ok {
                    let entry = 64 + n as u64 + self.setup.extra();
                    let left = self.setup.usage(&after);
                    let h = self.history();
                    ok &= c.check(left + entry >= self.setup.target(), "evicted-too-much", || {
                        format!("usage {left} after eviction, target {}: {h}", self.setup.target())
                    });
                }
            }
            let r = big(self.store.as_ref().unwrap().radius());
            if let Err(e) = radius_is_farthest(&self.setup, &after, &r) {
                ok = false;
                c.violation("radius-after-eviction", format!("{e}: {}", self.history()));
            }
            self.radius = r;
        }
        self.map = after;
        ok
    }

    pub fn delete(&mut self, c: &mut Ctx, id: Id) -> bool {
        self.log.push(format!("delete d={}", hex(&xor(&self.setup.node, &id))));
        let res = self.store.as_mut().unwrap().delete(&ContentId::from(id));
        if self.map.remove(&id).is_some() {
            c.event("delete of known content");
        } else {
            c.event("delete of unknown content");
        }
        let h = self.history();
        c.check(res.is_ok(), "delete-failed", || format!("{res:?}: {h}"))
    }

    pub fn lookups(&self, c: &mut Ctx, id: Id) -> bool {
        let store = self.store.as_ref().unwrap();
        let cid = ContentId::from(id);
        let want = self.map.get(&id);
        let what = || format!("id {}: {}", hex(&id), self.history());
        let mut ok = true;
        match (store.has_content(&cid), store.lookup_content_key(&cid), store.lookup_content_value(&cid)) {
            (Ok(h), Ok(k), Ok(v)) => {
                ok &= c.check_eq(&h, &want.is_some(), "has-content", what);
                ok &= c.check_eq(&k.map(|k| k.content_id()), &want.map(|_| id), "lookup-key", what);
                ok &= c.check_eq(&v.map(|v| v.to_vec()), &want.cloned(), "lookup-value", what);
            }
            other => {
                ok = false;
                c.violation("lookup-failed", format!("{other:?}: {}", what()));
            }
        }
        let d = store.distance_to_content_id(&cid);
        ok & c.check_eq(&big(d), &xor(&self.setup.node, &id), "distance", what)
    }

    pub fn paginate(&self, c: &mut Ctx, offset: u64, limit: u64) -> bool {
        let store = self.store.as_ref().unwrap();
        match store.paginate(offset, limit) {
            Ok(p) => {
                let want: Vec<Id> = self.map.keys().skip(offset.min(1 << 40) as usize).take(limit.min(1 << 40) as usize).copied().collect();
                let got: Vec<Id> = p.content_keys.iter().map(|k| k.content_id()).collect();
                let what = || format!("offset {offset} limit {limit}: {}", self.history());
                c.check_eq(&got.len(), &want.len(), "page-length", what)
                    & c.check(got == want, "page-contents", what)
                    & c.check_eq(&p.entry_count, &(self.map.len() as u64), "page-total", what)
            }
            Err(e) => c.check(offset.max(limit) > i64::MAX as u64, "paginate-failed", || format!("{e}: {}", self.history())),
        }
    }

    pub fn reopen(&mut self, c: &mut Ctx, setup: Setup) -> bool {
        self.log.push(format!("reopen capacity={} max_radius={}", setup.capacity, hex(&setup.max_radius)));
        drop(self.store.take());
        self.setup = setup;
        let store = match self.setup.open(self.dir.path()) {
            Ok(s) => s,
            Err(e) => {
                c.violation("reopen-failed", format!("{e}: {}", self.history()));
                return false;
            }
        };
        let before = self.map.clone();
        let usage = self.setup.usage(&before);
        let after = match dump(&store) {
            Ok(d) => d,
            Err(e) => {
                c.violation("contents-unreadable", format!("after reopening: {e}: {}", self.history()));
                return false;
            }
        };
        let mut ok = true;
        c.event("reopen");
        if usage <= self.setup.capacity {
            ok &= c.check(after == before, "lost-on-reopen", || {
                format!("{} of {} items left: {}", after.len(), before.len(), self.history())
            });
        } else {
            c.event("eviction on reopen");
            if let Err(e) = farthest_first(&self.setup.node, &before, &after) {
                ok = false;
                c.violation("eviction-order", format!("on reopening: {e}: {}", self.history()));
            }
        }
        let r = big(store.radius());
        if usage > self.setup.target() {
            c.event("reopen above target");
            if let Err(e) = radius_is_farthest(&self.setup, &after, &r) {
                ok = false;
                c.violation("radius-on-open", format!("{e}: {}", self.history()));
            }
        } else {
            let want = if self.setup.capacity == 0 { [0; 32] } else { self.setup.max_radius };
            ok &= c.check_eq(&hex(&r), &hex(&want), "radius-on-open", || self.history());
        }
        self.radius = r;
        self.map = after;
        self.store = Some(store);
        ok
    }

    /// Opening with another node id must not succeed while content is stored (unless the
    /// distances of the farthest item agree by chance, which the caller rules out).
    pub fn open_as_other(&mut self, c: &mut Ctx, r: &mut Rng) -> bool {
        if self.map.is_empty() {
            return true;
        }
        drop(self.store.take());
        let mut other = self.setup.clone();
        other.node[r.index(4)] ^= 1 << r.below(8);
        other.capacity = u64::MAX / 4;
        let res = other.open(self.dir.path());
        c.event("open with another node id");
        let ok = c.check(res.is_err(), "foreign-node-id-accepted", || self.history());
        drop(res);
        let same = self.setup.clone();
        ok & self.reopen(c, same)
    }
}

fn random_setup(r: &mut Rng, small: bool) -> Setup {
    let state = r.bool();
    let per = if state { 564 } else { 814 };
    let capacity = match r.below(if small { 8 } else { 12 }) {
        0 => 0,
        1 => per * r.range(1, 4) + r.below(per),
        2 => per * 20 + r.below(3),
        7.. if !small => per * r.range(150, 600) + r.below(per),
        _ => per * r.range(5, 80) + r.below(per),
    };
    let mut max_radius = [0xff; 32];
    if r.chance(1, 4) {
        max_radius = r.array();
    }
    Setup { node: r.array(), capacity, max_radius, state }
}

fn value(r: &mut Rng, run: &Run) -> Vec<u8> {
    let n = match run.uniform {
        Some(n) => n,
        None => match r.below(10) {
            0 => 0,
            1 => 5_000 + r.index(5_000),
            2 => 1,
            _ => r.index(900),
        },
    };
    r.bytes(n)
}

fn history(c: &mut Ctx, small: bool, steps: u64, label: &str) -> bool {
    let mut r = c.rng.fork(label);
    let setup = random_setup(&mut r, small);
    let uniform = r.bool().then(|| r.index(300));
    let mut run = match Run::new(setup, uniform) {
        Ok(run) => run,
        Err(e) => {
            c.violation("open-failed", e);
            return false;
        }
    };
    let want = if run.setup.capacity == 0 { [0; 32] } else { run.setup.max_radius };
    if !c.check_eq(&hex(&run.radius), &hex(&want), "radius-on-open", || run.history()) {
        return false;
    }
    let mut known: Vec<Id> = vec![];
    for i in 0..steps {
        let pick_known = |r: &mut Rng, known: &[Id]| -> Id {
            if known.is_empty() {
                r.array()
            } else {
                *r.pick(known)
            }
        };
        let ok = match r.below(100) {
            0..=54 => {
                let ds: Vec<Id> = known.iter().rev().take(8).map(|k| xor(&run.setup.node, k)).collect();
                let mut d = some_distance(&mut r, &ds);
                // With a shrunken radius most random content is refused; mostly stay inside.
                if d > run.radius && r.chance(3, 4) {
                    let lead = run.radius.iter().take_while(|b| **b == 0).count();
                    d[..lead].fill(0);
                    if lead < 32 && d > run.radius {
                        d[lead] = (d[lead] as u16 % (run.radius[lead] as u16).max(1)) as u8;
                    }
                }
                let id = xor(&run.setup.node, &d);
                known.push(id);
                let v = value(&mut r, &run);
                run.insert(c, id, v)
            }
            55..=64 => {
                let id = pick_known(&mut r, &known);
                let v = if r.bool() { run.map.get(&id).cloned().unwrap_or_default() } else { value(&mut r, &run) };
                let v = match run.uniform {
                    Some(n) if v.len() != n => r.bytes(n),
                    _ => v,
                };
                run.insert(c, id, v)
            }
            65..=72 => {
                let id = if r.chance(3, 4) { pick_known(&mut r, &known) } else { r.array() };
                run.delete(c, id)
            }
            73..=86 => {
                let id = if r.chance(3, 4) { pick_known(&mut r, &known) } else { r.array() };
                run.lookups(c, id)
            }
            87..=93 => {
                let n = run.map.len() as u64;
                let (o, l) = match r.below(6) {
                    0 => (0, u64::MAX),
                    1 => (r.edgy_u64(), r.edgy_u64()),
                    2 => (n, 5),
                    3 => (n.saturating_sub(1), 5),
                    _ => (r.below(n + 2), r.below(n + 2)),
                };
                run.paginate(c, o, l)
            }
            94..=96 => {
                let mut s = run.setup.clone();
                if r.bool() {
                    s.capacity = match r.below(5) {
                        0 => 0,
                        1 => run.setup.usage(&run.map),
                        2 => run.setup.usage(&run.map) * 100 / 95 + r.below(3),
                        3 => run.setup.usage(&run.map) / 2,
                        _ => s.capacity * 2 + 3_000,
                    };
                }
                if r.chance(1, 5) {
                    s.max_radius = r.array();
                }
                run.reopen(c, s)
            }
            97 => run.open_as_other(c, &mut r),
            _ => run.full_compare(c),
        };
        let ok = ok && run.compare(c);
        c.eval(label_kind(small), &(vcommon::hash_of(&run.map), run.radius, i % 7));
        if !ok {
            return false;
        }
    }
    c.sample("history", || {
        json!({"capacity": run.setup.capacity, "stored": run.map.len(), "radius": hex(&run.radius), "last": run.log.last()})
    });
    run.full_compare(c) && {
        let s = run.setup.clone();
        run.reopen(c, s) && run.compare(c) && run.full_compare(c)
    }
}

fn label_kind(small: bool) -> &'static str {
    if small {
        "map step"
    } else {
        "capacity step"
    }
}

pub fn map_histories(c: &mut Ctx) {
    c.rule("a store answers like a map from content id to the first value stored, minus deletions and reported evictions");
    let n = c.n(500, 6000);
    for i in 0..n {
        if c.saturated() {
            break;
        }
        history(c, true, 120, &format!("map{i}"));
    }
    real_keys(c);
    for k in ["insert of new content", "insert of known content", "delete of known content", "reopen", "eviction", "insert outside radius"] {
        c.require(k, 10);
    }
    c.require("open with another node id", 3);
}

pub fn capacity_histories(c: &mut Ctx) {
    c.rule("usage never exceeds capacity, evictions are farthest first, reported in full and only when needed, and the radius is the farthest stored distance");
    let n = c.n(150, 2500);
    for i in 0..n {
        if c.saturated() {
            break;
        }
        history(c, false, 700, &format!("cap{i}"));
    }
    disk_usage(c);
    for k in ["eviction", "eviction of several", "eviction on reopen", "reopen above target", "insert outside radius"] {
        c.require(k, 5);
    }
}

/// The real network keys, whose content ids are digests and whose lengths differ.
fn real_keys(c: &mut Ctx) {
    use ethportal_api::LegacyHistoryContentKey as K;
    let mut r = c.rng.fork("real keys");
    let dir = scratch();
    let setup = Setup { node: r.array(), capacity: 60_000, max_radius: [0xff; 32], state: false };
    type S = IdIndexedV1Store<K, ethportal_api::types::distance::XorMetric>;
    let pool = setup_sql(dir.path()).expect("database");
    let mut store: S = create_store(setup.content_type(), setup.config(dir.path(), pool.clone()), pool).expect("store");
    let mut model: BTreeMap<Vec<u8>, (K, Vec<u8>)> = BTreeMap::new();
    for i in 0..c.n(400, 6000) {
        let h = B256::from(r.array::<32>());
        let key = match r.below(4) {
            0 => K::new_block_header_by_hash(h),
            1 => K::new_block_header_by_number(r.edgy_u64()),
            2 => K::new_block_body(h),
            _ => K::new_block_receipts(h),
        };
        let n = r.index(1500);
        let v = r.bytes(n);
        match store.insert(&key, RawContentValue::from(v.clone())) {
            Ok(ev) => {
                model.entry(key.to_bytes().to_vec()).or_insert((key.clone(), v));
                for (k, v) in ev {
                    let gone = model.remove(&k.to_bytes().to_vec());
                    c.check(gone == Some((k.clone(), v.to_vec())), "evicted-value", || format!("real key {k:?} at step {i}"));
                }
            }
            Err(ContentStoreError::InsufficientRadius { .. }) => {
                c.check(store.distance_to_content_id(&key.content_id().into()) > store.radius(), "insert-refused", || format!("{key:?}"));
            }
            Err(e) => c.violation("insert-refused", format!("{e}")),
        }
        c.eval("real key step", &(i, model.len()));
    }
    let size: u64 = model.iter().map(|(k, (_, v))| (32 + k.len() + v.len()) as u64).sum();
    c.check_eq(&store.usage_stats().total_entry_size_bytes(), &size, "stored-size", || "real keys".into());
    for (k, v) in model.values() {
        let cid = ContentId::from(k.content_id());
        c.check(matches!(store.lookup_content_key(&cid), Ok(Some(x)) if x == *k), "lookup-key", || format!("{k:?}"));
        c.check(matches!(store.lookup_content_value(&cid), Ok(Some(x)) if x.to_vec() == *v), "lookup-value", || format!("{k:?}"));
    }
    match store.paginate(0, 100_000) {
        Ok(p) => {
            c.check_eq(&p.content_keys.iter().map(|k| k.to_bytes().to_vec()).collect::<Vec<_>>(), &model.keys().cloned().collect(), "page-contents", || "real keys".into());
        }
        Err(e) => c.violation("paginate-failed", format!("{e}")),
    }
}

/// The accounting must reflect what the database really needs on disk.
fn disk_usage(c: &mut Ctx) {
    let mut r = c.rng.fork("disk");
    for state in [false, true] {
        for len in [0usize, 100, 1_000] {
            let dir = scratch();
            let capacity = 1_500_000;
            let setup = Setup { node: r.array(), capacity, max_radius: [0xff; 32], state };
            let mut store = setup.open(dir.path()).expect("store");
            for _ in 0..4_000 {
                let id: Id = r.array();
                let _ = store.insert(&IdentityContentKey::new(id), RawContentValue::from(r.bytes(len)));
            }
            let u = store.usage_stats().estimated_disk_usage_bytes();
            drop(store);
            let conn = rusqlite::Connection::open(dir.path().join(trin_storage::DATABASE_NAME)).expect("database");
            let q = |s: &str| conn.query_row(s, [], |row| row.get::<usize, i64>(0)).expect("pragma");
            let pages = q("PRAGMA page_count") - q("PRAGMA freelist_count");
            let real = (pages * q("PRAGMA page_size")) as u64;
            c.eval("disk usage", &(state, len));
            c.sample("disk usage", || json!({"estimated": u, "pages": real, "capacity": capacity}));
            c.check(real <= capacity * 115 / 100, "disk-usage-over-capacity", || {
                format!("{real} bytes in use for values of {len} bytes, estimated {u}, capacity {capacity}")
            });
            c.check(u * 100 >= capacity * 85, "capacity-not-used", || format!("estimated {u} of {capacity}"));
        }
    }
}
