//! SQLite connections for the pool, with the interface of the `r2d2_sqlite` crate.
use std::{
    path::{Path, PathBuf},
    sync::{
        atomic::{AtomicU64, Ordering},
        Mutex,
    },
};

pub use rusqlite;
use rusqlite::{Connection, OpenFlags};

type Init = Box<dyn Fn(&mut Connection) -> rusqlite::Result<()> + Send + Sync>;
pub struct SqliteConnectionManager {
    path: PathBuf,
    flags: OpenFlags,
    keep: Mutex<Option<Connection>>,
    init: Option<Init>,
    memory: bool,
}
impl SqliteConnectionManager {
    pub fn file(p: impl AsRef<Path>) -> Self {
        Self {
            path: p.as_ref().to_path_buf(),
            flags: OpenFlags::default(),
            keep: Mutex::new(None),
            init: None,
            memory: false,
        }
    }
    pub fn memory() -> Self {
        static N: AtomicU64 = AtomicU64::new(0);
        let n = N.fetch_add(1, Ordering::SeqCst);
        let mut s = Self::file(format!("file:mem{n}?mode=memory&cache=shared"));
        s.memory = true;
        s
    }
    pub fn with_flags(mut self, f: OpenFlags) -> Self {
        self.flags = f;
        self
    }
    pub fn with_init<F>(mut self, f: F) -> Self
    where
        F: Fn(&mut Connection) -> rusqlite::Result<()> + Send + Sync + 'static,
    {
        self.init = Some(Box::new(f));
        self
    }
}
impl r2d2::ManageConnection for SqliteConnectionManager {
    type Connection = Connection;
    type Error = rusqlite::Error;
    fn connect(&self) -> Result<Connection, rusqlite::Error> {
        if self.memory {
            let mut k = self.keep.lock().unwrap();
            if k.is_none() {
                *k = Some(Connection::open_with_flags(&self.path, self.flags)?);
            }
        }
        let mut c = Connection::open_with_flags(&self.path, self.flags)?;
        if let Some(i) = &self.init {
            i(&mut c)?;
        }
        Ok(c)
    }
}
