//! A key-value store with the interface of the `rocksdb` crate.  What is stored under a path stays
//! until the process ends, so a store can be closed and opened again.  Every change passes a hook
//! that can let the change and everything after it fail, which is how a check stops a run at a
//! chosen write.
use std::{
    collections::{BTreeMap, HashMap, HashSet},
    fmt,
    path::{Path, PathBuf},
    sync::{Arc, Mutex, OnceLock},
};

#[derive(Debug, Clone, PartialEq, Eq)]
pub struct Error(String);
impl fmt::Display for Error {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str(&self.0)
    }
}
impl std::error::Error for Error {}
impl Error {
    pub fn into_string(self) -> String {
        self.0
    }
}

type Map = BTreeMap<Vec<u8>, Vec<u8>>;
#[derive(Default)]
struct World {
    stores: HashMap<PathBuf, Arc<Mutex<Map>>>,
    open: HashSet<PathBuf>,
    /// directories made for stores
    made: HashSet<PathBuf>,
}
fn world() -> &'static Mutex<World> {
    static W: OnceLock<Mutex<World>> = OnceLock::new();
    W.get_or_init(Default::default)
}
/// Called before every change with the path, the key and the new value; an answer of `false`
/// refuses the change.
pub type Hook = Arc<dyn Fn(&Path, &[u8], Option<&[u8]>) -> bool + Send + Sync>;
static HOOK: Mutex<Option<Hook>> = Mutex::new(None);
pub fn on_write(h: Option<Hook>) {
    *HOOK.lock().unwrap() = h;
}
/// A copy of everything stored under a path.
pub fn dump(p: &Path) -> Map {
    world().lock().unwrap().stores.get(p).map(|s| s.lock().unwrap().clone()).unwrap_or_default()
}
/// Replaces everything stored under a path.
pub fn restore(p: &Path, m: Map) {
    world().lock().unwrap().stores.insert(p.into(), Arc::new(Mutex::new(m)));
}
pub fn forget(p: &Path) {
    world().lock().unwrap().stores.remove(p);
}

pub struct DB {
    path: PathBuf,
    map: Arc<Mutex<Map>>,
}
impl fmt::Debug for DB {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "DB({})", self.path.display())
    }
}
impl Drop for DB {
    fn drop(&mut self) {
        if let Ok(mut w) = world().lock() {
            w.open.remove(&self.path);
        }
    }
}
#[derive(Default)]
pub struct WriteBatch(Vec<(Vec<u8>, Option<Vec<u8>>)>);
impl WriteBatch {
    pub fn put(&mut self, k: impl AsRef<[u8]>, v: impl AsRef<[u8]>) {
        self.0.push((k.as_ref().to_vec(), Some(v.as_ref().to_vec())));
    }
    pub fn delete(&mut self, k: impl AsRef<[u8]>) {
        self.0.push((k.as_ref().to_vec(), None));
    }
    pub fn len(&self) -> usize {
        self.0.len()
    }
    pub fn is_empty(&self) -> bool {
        self.0.is_empty()
    }
}
impl DB {
    pub fn open(_: &Options, path: impl AsRef<Path>) -> Result<DB, Error> {
        let path = path.as_ref().to_path_buf();
        let mut w = world().lock().unwrap();
        if !w.open.insert(path.clone()) {
            return Err(Error(format!("IO error: lock hold by current process: {}", path.display())));
        }
        // whoever clears a directory away clears its store away
        if w.made.contains(&path) && !path.exists() {
            w.stores.remove(&path);
        }
        if !path.starts_with("/nowhere") && path.parent().is_some_and(|d| d.exists()) && !path.exists() {
            std::fs::create_dir(&path).map_err(|e| Error(format!("IO error: {e}")))?;
            w.made.insert(path.clone());
        }
        let map = w.stores.entry(path.clone()).or_default().clone();
        Ok(DB { path, map })
    }
    pub fn open_default(path: impl AsRef<Path>) -> Result<DB, Error> {
        Self::open(&Options::default(), path)
    }
    pub fn get(&self, k: impl AsRef<[u8]>) -> Result<Option<Vec<u8>>, Error> {
        Ok(self.map.lock().unwrap().get(k.as_ref()).cloned())
    }
    fn allowed(&self, k: &[u8], v: Option<&[u8]>) -> Result<(), Error> {
        let h = HOOK.lock().unwrap().clone();
        if h.is_some_and(|h| !h(&self.path, k, v)) {
            return Err(Error("the process ended".into()));
        }
        Ok(())
    }
    pub fn put(&self, k: impl AsRef<[u8]>, v: impl AsRef<[u8]>) -> Result<(), Error> {
        self.allowed(k.as_ref(), Some(v.as_ref()))?;
        self.map.lock().unwrap().insert(k.as_ref().to_vec(), v.as_ref().to_vec());
        Ok(())
    }
    pub fn delete(&self, k: impl AsRef<[u8]>) -> Result<(), Error> {
        self.allowed(k.as_ref(), None)?;
        self.map.lock().unwrap().remove(k.as_ref());
        Ok(())
    }
    /// All or nothing: one change for the hook, named by its first key.
    pub fn write(&self, b: WriteBatch) -> Result<(), Error> {
        if let Some((k, v)) = b.0.first() {
            self.allowed(k, v.as_deref())?;
        }
        let mut m = self.map.lock().unwrap();
        for (k, v) in b.0 {
            match v {
                Some(v) => m.insert(k, v),
                None => m.remove(&k),
            };
        }
        Ok(())
    }
    pub fn flush(&self) -> Result<(), Error> {
        Ok(())
    }
    pub fn path(&self) -> &Path {
        &self.path
    }
}

#[derive(Default, Clone)]
pub struct Options;
impl Options {
    pub fn create_if_missing(&mut self, _: bool) {}
    pub fn set_write_buffer_size(&mut self, _: usize) {}
    pub fn set_block_based_table_factory(&mut self, _: &BlockBasedOptions) {}
    pub fn set_max_open_files(&mut self, _: i32) {}
    pub fn increase_parallelism(&mut self, _: i32) {}
    pub fn optimize_level_style_compaction(&mut self, _: usize) {}
}
#[derive(Default)]
pub struct BlockBasedOptions;
impl BlockBasedOptions {
    pub fn set_block_cache(&mut self, _: &Cache) {}
    pub fn set_block_size(&mut self, _: usize) {}
}
pub struct Cache;
impl Cache {
    pub fn new_lru_cache(_: usize) -> Self {
        Cache
    }
}
