//! Connection pool with the interface of the `r2d2` crate.
use std::{
    fmt,
    ops::{Deref, DerefMut},
    sync::Arc,
    time::Duration,
};

use parking_lot::{Condvar, Mutex};

pub trait ManageConnection: Send + Sync + 'static {
    type Connection: Send + 'static;
    type Error: std::error::Error + Send + Sync + 'static;
    fn connect(&self) -> Result<Self::Connection, Self::Error>;
}
#[derive(Debug)]
pub struct Error(Option<String>);
impl fmt::Display for Error {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "timed out waiting for connection: {:?}", self.0)
    }
}
impl std::error::Error for Error {}
struct Inner<M: ManageConnection> {
    manager: M,
    state: Mutex<(Vec<M::Connection>, u32)>,
    cond: Condvar,
    max: u32,
    timeout: Duration,
}
pub struct Pool<M: ManageConnection>(Arc<Inner<M>>);
impl<M: ManageConnection> Clone for Pool<M> {
    fn clone(&self) -> Self {
        Self(self.0.clone())
    }
}
impl<M: ManageConnection> fmt::Debug for Pool<M> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("Pool")
    }
}
pub struct Builder<M> {
    max: u32,
    timeout: Duration,
    _m: std::marker::PhantomData<M>,
}
impl<M: ManageConnection> Builder<M> {
    pub fn max_size(mut self, n: u32) -> Self {
        self.max = n;
        self
    }
    pub fn min_idle(self, _: Option<u32>) -> Self {
        self
    }
    pub fn connection_timeout(mut self, d: Duration) -> Self {
        self.timeout = d;
        self
    }
    pub fn build(self, manager: M) -> Result<Pool<M>, Error> {
        let c = manager.connect().map_err(|e| Error(Some(e.to_string())))?;
        Ok(Pool(Arc::new(Inner {
            manager,
            state: Mutex::new((vec![c], 1)),
            cond: Condvar::new(),
            max: self.max,
            timeout: self.timeout,
        })))
    }
}
impl<M: ManageConnection> Pool<M> {
    pub fn new(m: M) -> Result<Self, Error> {
        Self::builder().build(m)
    }
    pub fn builder() -> Builder<M> {
        Builder { max: 10, timeout: Duration::from_secs(30), _m: std::marker::PhantomData }
    }
    pub fn max_size(&self) -> u32 {
        self.0.max
    }
    pub fn get(&self) -> Result<PooledConnection<M>, Error> {
        let mut s = self.0.state.lock();
        loop {
            if let Some(c) = s.0.pop() {
                return Ok(PooledConnection { pool: self.clone(), c: Some(c) });
            }
            if s.1 < self.0.max {
                let c = self.0.manager.connect().map_err(|e| Error(Some(e.to_string())))?;
                s.1 += 1;
                return Ok(PooledConnection { pool: self.clone(), c: Some(c) });
            }
            if self.0.cond.wait_for(&mut s, self.0.timeout).timed_out() {
                return Err(Error(None));
            }
        }
    }
}
pub struct PooledConnection<M: ManageConnection> {
    pool: Pool<M>,
    c: Option<M::Connection>,
}
impl<M: ManageConnection> Deref for PooledConnection<M> {
    type Target = M::Connection;
    fn deref(&self) -> &M::Connection {
        self.c.as_ref().unwrap()
    }
}
impl<M: ManageConnection> DerefMut for PooledConnection<M> {
    fn deref_mut(&mut self) -> &mut M::Connection {
        self.c.as_mut().unwrap()
    }
}
impl<M: ManageConnection> Drop for PooledConnection<M> {
    fn drop(&mut self) {
        self.pool.0.state.lock().0.push(self.c.take().unwrap());
        self.pool.0.cond.notify_one();
    }
}
