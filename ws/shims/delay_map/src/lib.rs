//! Maps and sets whose entries expire, with the interface of the `delay_map` crate.
use std::{
    collections::HashMap,
    hash::Hash,
    pin::Pin,
    task::{Context, Poll, Waker},
    time::Duration,
};

use futures::Stream;
use tokio_util::time::delay_queue::{DelayQueue, Key};

pub struct HashMapDelay<K, V> {
    entries: HashMap<K, (Key, V)>,
    queue: DelayQueue<K>,
    timeout: Duration,
    waker: Option<Waker>,
}
impl<K, V> Default for HashMapDelay<K, V>
where
    K: Eq + Hash + Clone + Unpin,
{
    fn default() -> Self {
        Self::new(Duration::from_secs(30))
    }
}
impl<K: Eq + Hash + Clone + Unpin, V> HashMapDelay<K, V> {
    pub fn new(timeout: Duration) -> Self {
        Self { entries: HashMap::new(), queue: DelayQueue::new(), timeout, waker: None }
    }
    pub fn insert(&mut self, k: K, v: V) {
        self.insert_at(k, v, self.timeout)
    }
    pub fn insert_at(&mut self, k: K, v: V, d: Duration) {
        if let Some((key, old)) = self.entries.get_mut(&k) {
            self.queue.reset(key, d);
            *old = v;
        } else {
            let key = self.queue.insert(k.clone(), d);
            self.entries.insert(k, (key, v));
        }
        if let Some(w) = self.waker.take() {
            w.wake()
        }
    }
    pub fn get(&self, k: &K) -> Option<&V> {
        self.entries.get(k).map(|e| &e.1)
    }
    pub fn get_mut(&mut self, k: &K) -> Option<&mut V> {
        self.entries.get_mut(k).map(|e| &mut e.1)
    }
    pub fn contains_key(&self, k: &K) -> bool {
        self.entries.contains_key(k)
    }
    pub fn len(&self) -> usize {
        self.entries.len()
    }
    pub fn is_empty(&self) -> bool {
        self.entries.is_empty()
    }
    pub fn keys(&self) -> impl Iterator<Item = &K> {
        self.entries.keys()
    }
    pub fn iter(&self) -> impl Iterator<Item = (&K, &V)> {
        self.entries.iter().map(|(k, v)| (k, &v.1))
    }
    pub fn update_timeout(&mut self, k: &K, d: Duration) -> bool {
        match self.entries.get(k) {
            Some((key, _)) => {
                self.queue.reset(key, d);
                true
            }
            None => false,
        }
    }
    pub fn deadline(&self, k: &K) -> Option<tokio::time::Instant> {
        self.entries.get(k).map(|e| self.queue.deadline(&e.0))
    }
    pub fn remove(&mut self, k: &K) -> Option<V> {
        self.entries.remove(k).map(|(key, v)| {
            self.queue.remove(&key);
            v
        })
    }
    pub fn retain<F: FnMut(&K) -> bool>(&mut self, mut f: F) {
        let gone: Vec<K> = self.entries.keys().filter(|k| !f(k)).cloned().collect();
        for k in gone {
            self.remove(&k);
        }
    }
    pub fn clear(&mut self) {
        self.entries.clear();
        self.queue.clear();
    }
    pub fn poll_expired(&mut self, cx: &mut Context<'_>) -> Poll<Option<Result<(K, V), String>>> {
        match self.queue.poll_expired(cx) {
            Poll::Ready(Some(k)) => {
                let k = k.into_inner();
                Poll::Ready(Some(match self.entries.remove(&k) {
                    Some((_, v)) => Ok((k, v)),
                    None => Err("Value no longer exists in expirations".into()),
                }))
            }
            Poll::Ready(None) => Poll::Ready(None),
            Poll::Pending => Poll::Pending,
        }
    }
}
impl<K: Eq + Hash + Clone + Unpin, V: Unpin> Stream for HashMapDelay<K, V> {
    type Item = Result<(K, V), String>;
    fn poll_next(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<Self::Item>> {
        match self.as_mut().get_mut().poll_expired(cx) {
            Poll::Ready(Some(r)) => Poll::Ready(Some(r)),
            _ => {
                self.waker = Some(cx.waker().clone());
                Poll::Pending
            }
        }
    }
}
impl<K: std::fmt::Debug, V> std::fmt::Debug for HashMapDelay<K, V> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.debug_set().entries(self.entries.keys()).finish()
    }
}
#[derive(Debug)]
pub struct HashSetDelay<K>(HashMapDelay<K, ()>);
impl<K: Eq + Hash + Clone + Unpin> Default for HashSetDelay<K> {
    fn default() -> Self {
        Self(HashMapDelay::default())
    }
}
impl<K: Eq + Hash + Clone + Unpin> HashSetDelay<K> {
    pub fn new(d: Duration) -> Self {
        Self(HashMapDelay::new(d))
    }
    pub fn insert(&mut self, k: K) {
        self.0.insert(k, ())
    }
    pub fn insert_at(&mut self, k: K, d: Duration) {
        self.0.insert_at(k, (), d)
    }
    pub fn contains(&self, k: &K) -> bool {
        self.0.contains_key(k)
    }
    pub fn contains_key(&self, k: &K) -> bool {
        self.0.contains_key(k)
    }
    pub fn len(&self) -> usize {
        self.0.len()
    }
    pub fn is_empty(&self) -> bool {
        self.0.is_empty()
    }
    pub fn keys(&self) -> impl Iterator<Item = &K> {
        self.0.keys()
    }
    pub fn update_timeout(&mut self, k: &K, d: Duration) -> bool {
        self.0.update_timeout(k, d)
    }
    pub fn remove(&mut self, k: &K) -> bool {
        self.0.remove(k).is_some()
    }
    pub fn deadline(&self, k: &K) -> Option<tokio::time::Instant> {
        self.0.deadline(k)
    }
    pub fn poll_expired(&mut self, cx: &mut Context<'_>) -> Poll<Option<Result<K, String>>> {
        self.0.poll_expired(cx).map(|o| o.map(|r| r.map(|p| p.0)))
    }
    pub fn clear(&mut self) {
        self.0.clear()
    }
}
impl<K: Eq + Hash + Clone + Unpin> Stream for HashSetDelay<K> {
    type Item = Result<K, String>;
    fn poll_next(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<Self::Item>> {
        Pin::new(&mut self.0).poll_next(cx).map(|o| o.map(|r| r.map(|p| p.0)))
    }
}
