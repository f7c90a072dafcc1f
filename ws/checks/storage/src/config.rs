//! Capacity configuration, store versions, content ids from the database and the in-memory store.
use std::collections::HashMap;

use discv5::enr::NodeId;
use ethportal_api::{types::network::Subnetwork, IdentityContentKey};
use trin_storage::{
    config::StorageCapacityConfig,
    utils::{get_total_size_of_directory_in_bytes, setup_sql},
    versioned::{create_store, store::VersionedContentStore, ContentType, StoreVersion},
    ContentId, ContentStore, MemoryContentStore, PortalStorageConfig, PortalStorageConfigFactory, ShouldWeStoreContent,
};
use vcommon::{hex, json, Ctx};

use crate::model::{big, dist, dump, scratch, xor, Id, Setup, Store};

struct Other;
impl VersionedContentStore for Other {
    type Config = PortalStorageConfig;
    fn version() -> StoreVersion {
        StoreVersion::MockContentStore
    }
    fn migrate_from(_: &ContentType, old_version: StoreVersion, _: &Self::Config) -> Result<(), trin_storage::error::ContentStoreError> {
        Err(trin_storage::error::ContentStoreError::UnsupportedStoreMigration { old_version, new_version: Self::version() })
    }
    fn create(_: ContentType, _: Self::Config) -> Result<Self, trin_storage::error::ContentStoreError> {
        Ok(Other)
    }
}

fn shares(c: &mut Ctx) {
    use Subnetwork::*;
    let mut r = c.rng.fork("shares");
    let nets = [Beacon, LegacyHistory, State];
    let all = [Beacon, LegacyHistory, State, CanonicalIndices, VerkleState, TransactionGossip];
    for _ in 0..c.n(300, 3000) {
        let mb = match r.below(4) {
            0 => 0,
            1 => u32::MAX,
            2 => r.below(10) as u32,
            _ => r.u32(),
        };
        let enabled: Vec<Subnetwork> = nets.iter().filter(|_| r.bool()).cloned().collect();
        let dir = scratch();
        let node: Id = r.array();
        let combined = r.bool();
        let opt = |r: &mut vcommon::Rng| r.bool().then(|| if r.bool() { mb } else { r.u32() });
        let (b, h, s) = (opt(&mut r), opt(&mut r), opt(&mut r));
        let cfg = if combined {
            StorageCapacityConfig::Combined { total_mb: mb, subnetworks: enabled.clone() }
        } else {
            StorageCapacityConfig::Specific { beacon_mb: b, legacy_history_mb: h, state_mb: s }
        };
        let factory = match PortalStorageConfigFactory::new(cfg.clone(), NodeId::new(&node), dir.path().to_path_buf()) {
            Ok(f) => f,
            Err(e) => return c.violation("factory-failed", format!("{e}")),
        };
        let mut total = 0u128;
        for net in &all {
            let radius: Id = r.array();
            let weighted = [LegacyHistory, State].iter().filter(|n| enabled.contains(n)).count() as u64;
            let want: Option<u64> = if combined {
                if !enabled.contains(net) {
                    None
                } else if *net == Beacon || weighted == 0 {
                    Some(0)
                } else {
                    Some(mb as u64 * 1_000_000 / weighted)
                }
            } else {
                match net {
                    Beacon => b,
                    LegacyHistory => h,
                    State => s,
                    _ => None,
                }
                .map(|m| m as u64 * 1_000_000)
            };
            let what = format!("{cfg:?} {net:?}");
            let Some(got) = c.no_panic("capacity-panic", || what.clone(), || factory.create(net, dist(&radius))) else { continue };
            c.eval("share", &(what.clone(), mb));
            match (&got, want) {
                (Ok(g), Some(w)) => {
                    c.check_eq(&g.storage_capacity_bytes, &w, "share", || what.clone());
                    c.check_eq(&big(g.max_radius), &radius, "share-radius", || what.clone());
                    c.check_eq(&g.node_id.raw(), &node, "share-node", || what.clone());
                    c.check_eq(&g.node_data_dir, &dir.path().to_path_buf(), "share-dir", || what.clone());
                    total += g.storage_capacity_bytes as u128;
                }
                (Err(_), None) => {}
                _ => c.violation("share", format!("{what}: {:?}, expected {want:?}", got.as_ref().map(|g| g.storage_capacity_bytes))),
            }
        }
        if combined {
            c.check(total <= mb as u128 * 1_000_000, "shares-exceed-total", || format!("{cfg:?}: {total}"));
        }
    }
}

fn versions(c: &mut Ctx) {
    let mut r = c.rng.fork("versions");
    for state in [false, true] {
        for _ in 0..c.n(3, 20) {
            let dir = scratch();
            let setup = Setup { node: r.array(), capacity: 100_000, max_radius: [0xff; 32], state };
            let other_setup = Setup { state: !state, ..setup.clone() };
            let id: Id = r.array();
            {
                let mut s = setup.open(dir.path()).expect("store");
                s.insert(&IdentityContentKey::new(id), vec![1u8, 2, 3].into()).expect("insert");
            }
            let pool = setup_sql(dir.path()).expect("database");
            let portal = PortalStorageConfig {
                storage_capacity_bytes: 1,
                node_id: NodeId::new(&setup.node),
                node_data_dir: dir.path().to_path_buf(),
                sql_connection_pool: pool.clone(),
                max_radius: dist(&[0xff; 32]),
            };
            // Another version for the same content is refused and changes nothing.
            let refused = create_store::<Other>(setup.content_type(), portal.clone(), pool.clone());
            c.check(refused.is_err(), "other-version-accepted", || format!("state={state}"));
            drop(refused);
            let s = setup.open(dir.path());
            c.check(matches!(&s, Ok(s) if dump(s).ok().map(|m| m.keys().copied().collect::<Vec<_>>()) == Some(vec![id])), "lost-after-version-refusal", || {
                format!("state={state}")
            });
            drop(s);
            // A store of another content type is independent of it.
            let o = other_setup.open(dir.path());
            c.check(matches!(&o, Ok(o) if dump(o).map(|m| m.is_empty()).unwrap_or(false)), "content-types-mix", || format!("state={state}"));
            drop(o);
            // A store first created by another version cannot be opened by this one.
            let dir2 = scratch();
            let pool2 = setup_sql(dir2.path()).expect("database");
            let first = create_store::<Other>(setup.content_type(), portal, pool2.clone());
            c.check(first.is_ok(), "first-creation-failed", || format!("state={state}"));
            for _ in 0..2 {
                let again: Result<Store, _> = create_store(setup.content_type(), setup.config(dir2.path(), pool2.clone()), pool2.clone());
                c.check(again.is_err(), "other-version-accepted", || format!("state={state}, store created by another version"));
            }
            let o: Result<Store, _> = create_store(other_setup.content_type(), other_setup.config(dir2.path(), pool2.clone()), pool2.clone());
            c.check(o.is_ok(), "unrelated-version-refused", || format!("state={state}"));
            c.eval("version", &(state, id));
        }
    }
}

fn ids_and_sizes(c: &mut Ctx) {
    let mut r = c.rng.fork("ids");
    let conn = rusqlite::Connection::open_in_memory().expect("database");
    let read = |sql: &str| conn.query_row(sql, [], |row| row.get::<usize, ContentId>(0)).ok().map(|i| <[u8; 32]>::from(*i));
    for len in 0..70usize {
        let b = r.bytes(len);
        let got = read(&format!("SELECT x'{}'", hex(&b).trim_start_matches("0x")));
        let want: Option<Id> = b.clone().try_into().ok();
        c.eval("id from blob", &len);
        c.check_eq(&got, &want, "id-from-blob", || hex(&b));
        let text = hex(&b);
        let text = text.trim_start_matches("0x");
        for t in [text.to_string(), format!("0x{text}"), text.to_uppercase()] {
            let got = read(&format!("SELECT '{t}'"));
            c.eval("id from text", &t);
            c.check_eq(&got, &want, "id-from-text", || t.clone());
        }
    }
    for sql in ["SELECT 5", "SELECT NULL", "SELECT 1.5", "SELECT 'zz'"] {
        c.check(read(sql).is_none(), "id-from-other", || sql.into());
    }
    // Directory sizes: files count their length, directories add what is inside.
    for _ in 0..c.n(10, 100) {
        let dir = scratch();
        let mut dirs = vec![dir.path().to_path_buf()];
        let mut files = 0u64;
        for i in 0..r.index(12) {
            let at = r.pick(&dirs).join(format!("n{i}"));
            if r.chance(1, 3) {
                std::fs::create_dir(&at).unwrap();
                dirs.push(at);
            } else {
                let n = r.index(5000);
                std::fs::write(&at, r.bytes(n)).unwrap();
                files += n as u64;
            }
        }
        let own: u64 = dirs.iter().map(|d| std::fs::metadata(d).unwrap().len()).sum();
        let got = get_total_size_of_directory_in_bytes(dir.path()).ok();
        c.eval("directory size", &(files, dirs.len()));
        c.check_eq(&got, &Some(files + own), "directory-size", || format!("{} directories", dirs.len()));
        c.check_eq(&get_total_size_of_directory_in_bytes(dir.path().join("absent")).ok(), &Some(0), "directory-size", || "absent".into());
    }
}

fn in_memory(c: &mut Ctx) {
    let mut r = c.rng.fork("memory");
    for _ in 0..c.n(30, 400) {
        let node: Id = r.array();
        let mut store: MemoryContentStore = MemoryContentStore::new(NodeId::new(&node));
        let mut map: HashMap<Id, Vec<u8>> = HashMap::new();
        let mut radius = [0xff; 32];
        let mut ids: Vec<Id> = vec![];
        for _ in 0..60 {
            match r.below(5) {
                0 => {
                    radius = r.array();
                    if !ids.is_empty() && r.bool() {
                        radius = xor(&node, r.pick(&ids));
                    }
                    store.set_radius(dist(&radius));
                }
                1 | 2 => {
                    let id = if r.chance(1, 4) && !ids.is_empty() { *r.pick(&ids) } else { r.array() };
                    ids.push(id);
                    let n = r.index(40);
                    let v = r.bytes(n);
                    let ev = store.put(IdentityContentKey::new(id), v.clone());
                    c.check(matches!(&ev, Ok(e) if e.is_empty()), "memory-put", || format!("{ev:?}"));
                    map.insert(id, v);
                }
                _ => {}
            }
            let asked: Vec<Id> = (0..5).map(|_| if r.bool() && !ids.is_empty() { *r.pick(&ids) } else { r.array() }).collect();
            let keys: Vec<IdentityContentKey> = asked.iter().map(|i| IdentityContentKey::new(*i)).collect();
            let batch = store.should_we_store_batch(&keys);
            for (i, id) in asked.iter().enumerate() {
                let want = if xor(&node, id) > radius {
                    ShouldWeStoreContent::NotWithinRadius
                } else if map.contains_key(id) {
                    ShouldWeStoreContent::AlreadyStored
                } else {
                    ShouldWeStoreContent::Store
                };
                c.eval("memory store", &(id, radius));
                let what = || format!("node {} id {} radius {}", hex(&node), hex(id), hex(&radius));
                c.check_eq(&store.should_we_store(&keys[i]).ok().as_ref(), &Some(&want), "memory-should-store", what);
                c.check_eq(&batch.as_ref().ok().and_then(|b| b.get(i)), &Some(&want), "memory-should-store-batch", what);
                c.check_eq(&store.get(&keys[i]).ok().flatten().map(|v| v.to_vec()), &map.get(id).cloned(), "memory-get", what);
            }
            c.check_eq(&big(store.radius()), &radius, "memory-radius", || String::new());
        }
    }
    c.sample("memory", || json!("done"));
}

pub fn capacity_and_versions(c: &mut Ctx) {
    c.rule("each enabled network gets its configured share, databases of another version or node are refused untouched, and stores answer store-or-not from radius and contents");
    shares(c);
    versions(c);
    ids_and_sizes(c);
    in_memory(c);
    c.require("share", 100);
    c.require("version", 4);
    c.require("memory store", 100);
}
