//! A trie over a database of encoded nodes.  Nodes are read when they are needed and written when
//! the root is asked for; nodes that fell out of the trie are removed from the database then.
use std::{
    collections::{BTreeMap, BTreeSet},
    error::Error,
    sync::Arc,
};

use alloy_primitives::{keccak256, B256};
use alloy_rlp::{Encodable, Header, EMPTY_STRING_CODE};

use crate::{decode_node, nibbles::Nibbles, node::Node, RootWithTrieDiff, TrieError, TrieResult};

pub trait DB: Send + Sync {
    type Error: Error;
    fn get(&self, key: &[u8]) -> Result<Option<Vec<u8>>, Self::Error>;
    fn insert(&self, key: &[u8], value: Vec<u8>) -> Result<(), Self::Error>;
    fn remove(&self, key: &[u8]) -> Result<(), Self::Error>;
    fn insert_batch(&self, keys: Vec<Vec<u8>>, values: Vec<Vec<u8>>) -> Result<(), Self::Error> {
        for (k, v) in keys.into_iter().zip(values) {
            self.insert(&k, v)?;
        }
        Ok(())
    }
    fn remove_batch(&self, keys: &[Vec<u8>]) -> Result<(), Self::Error> {
        for k in keys {
            self.remove(k)?;
        }
        Ok(())
    }
    fn flush(&self) -> Result<(), Self::Error>;
}

pub trait Trie<D: DB> {
    fn get(&self, key: &[u8]) -> TrieResult<Option<Vec<u8>>>;
    fn contains(&self, key: &[u8]) -> TrieResult<bool>;
    fn insert(&mut self, key: &[u8], value: &[u8]) -> TrieResult<()>;
    fn remove(&mut self, key: &[u8]) -> TrieResult<bool>;
    fn root_hash(&mut self) -> TrieResult<B256>;
    fn root_hash_with_changed_nodes(&mut self) -> TrieResult<RootWithTrieDiff>;
    fn get_proof(&mut self, key: &[u8]) -> TrieResult<Vec<Vec<u8>>>;
    fn clear_trie_from_db(&mut self) -> TrieResult<()>;
}

#[derive(Debug, Clone)]
enum N {
    Empty,
    /// Stored under this hash and not read yet.
    Ref(B256),
    Leaf(Vec<u8>, Vec<u8>),
    Ext(Vec<u8>, Box<N>),
    Branch(Box<[N; 16]>, Option<Vec<u8>>),
}

#[derive(Debug)]
pub struct EthTrie<D: DB> {
    root: N,
    root_hash: B256,
    pub db: Arc<D>,
    /// Hashes of stored nodes that were taken apart since the last commit.
    passed: BTreeSet<B256>,
}

fn err<E: Error>(e: E) -> TrieError {
    TrieError::DB(e.to_string())
}
fn unpack(key: &[u8]) -> Vec<u8> {
    key.iter().flat_map(|b| [b >> 4, b & 15]).collect()
}
fn pack(n: &[u8]) -> Vec<u8> {
    n.chunks(2).map(|c| c[0] << 4 | c.get(1).copied().unwrap_or(0)).collect()
}
fn common(a: &[u8], b: &[u8]) -> usize {
    a.iter().zip(b).take_while(|(x, y)| x == y).count()
}
fn compact(n: &[u8], leaf: bool) -> Vec<u8> {
    let mut d = n.to_vec();
    if leaf {
        d.push(16);
    }
    Nibbles::from_hex(&d).encode_compact()
}
fn list(p: Vec<u8>) -> Vec<u8> {
    let mut out = vec![];
    Header { list: true, payload_length: p.len() }.encode(&mut out);
    out.extend(p);
    out
}
fn empties() -> Box<[N; 16]> {
    Box::new(std::array::from_fn(|_| N::Empty))
}
fn null_root() -> B256 {
    keccak256([EMPTY_STRING_CODE])
}
fn of(node: Node) -> N {
    match node {
        Node::Empty => N::Empty,
        Node::Hash(h) => N::Ref(h.hash),
        Node::Leaf(l) => {
            let mut k = l.key.get_data().to_vec();
            if k.last() == Some(&16) {
                k.pop();
            }
            N::Leaf(k, l.value)
        }
        Node::Extension(e) => {
            let e = e.read().unwrap();
            N::Ext(e.prefix.get_data().to_vec(), Box::new(of(e.node.clone())))
        }
        Node::Branch(b) => {
            let b = b.read().unwrap();
            N::Branch(Box::new(std::array::from_fn(|i| of(b.children[i].clone()))), b.value.clone())
        }
    }
}

impl<D: DB> EthTrie<D> {
    pub fn new(db: Arc<D>) -> Self {
        Self { root: N::Empty, root_hash: null_root(), db, passed: BTreeSet::new() }
    }
    pub fn from(db: Arc<D>, root: B256) -> TrieResult<Self> {
        if root == null_root() {
            return Ok(Self::new(db));
        }
        if db.get(root.as_slice()).map_err(err)?.is_none() {
            return Err(TrieError::InvalidStateRoot);
        }
        Ok(Self { root: N::Ref(root), root_hash: root, db, passed: BTreeSet::new() })
    }
    pub fn at_root(&self, root: B256) -> Self {
        Self {
            root: if root == null_root() { N::Empty } else { N::Ref(root) },
            root_hash: root,
            db: self.db.clone(),
            passed: BTreeSet::new(),
        }
    }
    fn load(&self, h: &B256) -> TrieResult<(N, Vec<u8>)> {
        let raw = self
            .db
            .get(h.as_slice())
            .map_err(err)?
            .ok_or(TrieError::MissingTrieNode { node_hash: *h })?;
        Ok((of(decode_node(&mut raw.as_slice())?), raw))
    }
    fn open(&mut self, n: N) -> TrieResult<N> {
        match n {
            N::Ref(h) => {
                let n = self.load(&h)?.0;
                self.passed.insert(h);
                Ok(n)
            }
            n => Ok(n),
        }
    }
    fn find(&self, n: &N, path: &[u8]) -> TrieResult<Option<Vec<u8>>> {
        match n {
            N::Empty => Ok(None),
            N::Ref(h) => self.find(&self.load(h)?.0, path),
            N::Leaf(k, v) => Ok((k == path).then(|| v.clone())),
            N::Ext(p, c) => match path.strip_prefix(&p[..]) {
                Some(rest) => self.find(c, rest),
                None => Ok(None),
            },
            N::Branch(c, v) => match path.split_first() {
                Some((i, rest)) => self.find(&c[*i as usize], rest),
                None => Ok(v.clone()),
            },
        }
    }
    fn put(&mut self, n: N, path: &[u8], value: &[u8]) -> TrieResult<N> {
        Ok(match self.open(n)? {
            N::Empty | N::Ref(_) => N::Leaf(path.to_vec(), value.to_vec()),
            N::Leaf(k, v) => {
                if k == path {
                    return Ok(N::Leaf(k, value.to_vec()));
                }
                let m = common(&k, path);
                let mut c = empties();
                let mut own = None;
                for (k, v) in [(&k[m..], &v[..]), (&path[m..], value)] {
                    match k.split_first() {
                        Some((i, r)) => c[*i as usize] = N::Leaf(r.to_vec(), v.to_vec()),
                        None => own = Some(v.to_vec()),
                    }
                }
                let b = N::Branch(c, own);
                if m > 0 {
                    N::Ext(path[..m].to_vec(), Box::new(b))
                } else {
                    b
                }
            }
            N::Ext(p, child) => {
                let m = common(&p, path);
                if m == p.len() {
                    return Ok(N::Ext(p, Box::new(self.put(*child, &path[m..], value)?)));
                }
                let mut c = empties();
                c[p[m] as usize] = if m + 1 == p.len() {
                    *child
                } else {
                    N::Ext(p[m + 1..].to_vec(), child)
                };
                let mut own = None;
                match path[m..].split_first() {
                    Some((i, r)) => c[*i as usize] = N::Leaf(r.to_vec(), value.to_vec()),
                    None => own = Some(value.to_vec()),
                }
                let b = N::Branch(c, own);
                if m > 0 {
                    N::Ext(path[..m].to_vec(), Box::new(b))
                } else {
                    b
                }
            }
            N::Branch(mut c, v) => match path.split_first() {
                Some((i, r)) => {
                    let old = std::mem::replace(&mut c[*i as usize], N::Empty);
                    c[*i as usize] = self.put(old, r, value)?;
                    N::Branch(c, v)
                }
                None => N::Branch(c, Some(value.to_vec())),
            },
        })
    }
    fn take(&mut self, n: N, path: &[u8]) -> TrieResult<(N, bool)> {
        Ok(match self.open(n)? {
            N::Empty | N::Ref(_) => (N::Empty, false),
            N::Leaf(k, v) => {
                if k == path {
                    (N::Empty, true)
                } else {
                    (N::Leaf(k, v), false)
                }
            }
            N::Ext(p, c) => match path.strip_prefix(&p[..]) {
                None => (N::Ext(p, c), false),
                Some(rest) => {
                    let (c, done) = self.take(*c, rest)?;
                    if !done {
                        return Ok((N::Ext(p, Box::new(c)), false));
                    }
                    (self.join(p, c)?, true)
                }
            },
            N::Branch(mut c, mut v) => {
                let done = match path.split_first() {
                    Some((i, r)) => {
                        let old = std::mem::replace(&mut c[*i as usize], N::Empty);
                        let (new, done) = self.take(old, r)?;
                        c[*i as usize] = new;
                        done
                    }
                    None => v.take().is_some(),
                };
                if !done {
                    return Ok((N::Branch(c, v), false));
                }
                let used: Vec<usize> = (0..16).filter(|i| !matches!(c[*i], N::Empty)).collect();
                let n = match (used.len(), v) {
                    (0, None) => N::Empty,
                    (0, Some(v)) => N::Leaf(vec![], v),
                    (1, None) => {
                        let i = used[0];
                        let child = std::mem::replace(&mut c[i], N::Empty);
                        self.join(vec![i as u8], child)?
                    }
                    (_, v) => N::Branch(c, v),
                };
                (n, true)
            }
        })
    }
    /// The node for `child` below a run of nibbles.
    fn join(&mut self, mut p: Vec<u8>, child: N) -> TrieResult<N> {
        Ok(match self.peek(&child)? {
            N::Empty | N::Ref(_) => N::Empty,
            N::Leaf(k, v) => {
                self.open(child)?;
                p.extend(k);
                N::Leaf(p, v)
            }
            N::Ext(q, c) => {
                self.open(child)?;
                p.extend(q);
                N::Ext(p, c)
            }
            N::Branch(..) => N::Ext(p, Box::new(child)),
        })
    }
    fn peek(&self, n: &N) -> TrieResult<N> {
        match n {
            N::Ref(h) => Ok(self.load(h)?.0),
            n => Ok(n.clone()),
        }
    }
    /// Encodes a node and turns every node of at least 32 bytes below it into a reference.
    fn fold(n: &N, new: &mut BTreeMap<B256, Vec<u8>>) -> Vec<u8> {
        match n {
            N::Empty => vec![EMPTY_STRING_CODE],
            N::Ref(h) => {
                let mut out = vec![];
                h.as_slice().encode(&mut out);
                out
            }
            N::Leaf(k, v) => {
                let mut p = vec![];
                compact(k, true).as_slice().encode(&mut p);
                v.as_slice().encode(&mut p);
                list(p)
            }
            N::Ext(k, c) => {
                let mut p = vec![];
                compact(k, false).as_slice().encode(&mut p);
                p.extend(Self::refer(c, new));
                list(p)
            }
            N::Branch(c, v) => {
                let mut p = vec![];
                for c in c.iter() {
                    p.extend(Self::refer(c, new));
                }
                match v {
                    Some(v) => v.as_slice().encode(&mut p),
                    None => p.push(EMPTY_STRING_CODE),
                }
                list(p)
            }
        }
    }
    fn refer(n: &N, new: &mut BTreeMap<B256, Vec<u8>>) -> Vec<u8> {
        let e = Self::fold(n, new);
        if matches!(n, N::Ref(_)) || e.len() < 32 {
            return e;
        }
        let h = keccak256(&e);
        new.insert(h, e);
        let mut out = vec![];
        h.as_slice().encode(&mut out);
        out
    }
    fn commit(&mut self) -> TrieResult<BTreeMap<B256, Vec<u8>>> {
        let mut new = BTreeMap::new();
        match &self.root {
            N::Ref(h) => {
                self.root_hash = *h;
                new.insert(*h, self.load(h)?.1);
            }
            N::Empty => {
                self.root_hash = null_root();
                new.insert(self.root_hash, vec![EMPTY_STRING_CODE]);
            }
            n => {
                let e = Self::fold(n, &mut new);
                self.root_hash = keccak256(&e);
                new.insert(self.root_hash, e);
            }
        }
        let (keys, values) = new.iter().map(|(k, v)| (k.to_vec(), v.clone())).unzip();
        self.db.insert_batch(keys, values).map_err(err)?;
        let gone: Vec<Vec<u8>> =
            self.passed.iter().filter(|h| !new.contains_key(*h)).map(|h| h.to_vec()).collect();
        self.db.remove_batch(&gone).map_err(err)?;
        self.passed.clear();
        if !matches!(self.root, N::Empty) {
            self.root = N::Ref(self.root_hash);
        }
        Ok(new)
    }
    fn walk(&self, n: &N, path: Vec<u8>, out: &mut Vec<TrieResult<(Vec<u8>, Vec<u8>)>>) {
        match n {
            N::Empty => {}
            N::Ref(h) => match self.load(h) {
                Ok((n, _)) => self.walk(&n, path, out),
                Err(e) => out.push(Err(e)),
            },
            N::Leaf(k, v) => out.push(Ok((pack(&[&path[..], k].concat()), v.clone()))),
            N::Ext(p, c) => self.walk(c, [&path[..], p].concat(), out),
            N::Branch(c, v) => {
                if let Some(v) = v {
                    out.push(Ok((pack(&path), v.clone())));
                }
                for (i, c) in c.iter().enumerate() {
                    self.walk(c, [&path[..], &[i as u8]].concat(), out);
                }
            }
        }
    }
    /// Every entry, by ascending key.
    pub fn iter(&self) -> std::vec::IntoIter<TrieResult<(Vec<u8>, Vec<u8>)>> {
        let mut out = vec![];
        self.walk(&self.root, vec![], &mut out);
        out.into_iter()
    }
    fn stored(&self, n: &N, out: &mut Vec<B256>) -> TrieResult<()> {
        match n {
            N::Ref(h) => {
                let n = self.load(h)?.0;
                out.push(*h);
                self.stored(&n, out)?;
            }
            N::Ext(_, c) => self.stored(c, out)?,
            N::Branch(c, _) => {
                for c in c.iter() {
                    self.stored(c, out)?;
                }
            }
            N::Empty | N::Leaf(..) => {}
        }
        Ok(())
    }
    fn proof(&self, n: &N, path: &[u8], out: &mut Vec<Vec<u8>>) -> TrieResult<()> {
        match n {
            N::Empty | N::Leaf(..) => Ok(()),
            N::Ref(h) => {
                let (n, raw) = self.load(h)?;
                out.push(raw);
                self.proof(&n, path, out)
            }
            N::Ext(p, c) => match path.strip_prefix(&p[..]) {
                Some(rest) => self.proof(c, rest, out),
                None => Ok(()),
            },
            N::Branch(c, _) => match path.split_first() {
                Some((i, rest)) => self.proof(&c[*i as usize], rest, out),
                None => Ok(()),
            },
        }
    }
}

impl<D: DB> Trie<D> for EthTrie<D> {
    fn get(&self, key: &[u8]) -> TrieResult<Option<Vec<u8>>> {
        self.find(&self.root, &unpack(key))
    }
    fn contains(&self, key: &[u8]) -> TrieResult<bool> {
        Ok(self.get(key)?.is_some())
    }
    fn insert(&mut self, key: &[u8], value: &[u8]) -> TrieResult<()> {
        if value.is_empty() {
            self.remove(key)?;
            return Ok(());
        }
        // Everything on the way can be read, so that nothing below fails.
        self.get(key)?;
        let root = std::mem::replace(&mut self.root, N::Empty);
        self.root = self.put(root, &unpack(key), value)?;
        Ok(())
    }
    fn remove(&mut self, key: &[u8]) -> TrieResult<bool> {
        if self.get(key)?.is_none() {
            return Ok(false);
        }
        let root = std::mem::replace(&mut self.root, N::Empty);
        match self.take(root, &unpack(key)) {
            Ok((n, done)) => {
                self.root = n;
                Ok(done)
            }
            Err(e) => {
                self.root = N::Ref(self.root_hash);
                Err(e)
            }
        }
    }
    fn root_hash(&mut self) -> TrieResult<B256> {
        self.commit()?;
        Ok(self.root_hash)
    }
    fn root_hash_with_changed_nodes(&mut self) -> TrieResult<RootWithTrieDiff> {
        let new = self.commit()?;
        Ok(RootWithTrieDiff { root: self.root_hash, trie_diff: new.into_iter().collect() })
    }
    fn get_proof(&mut self, key: &[u8]) -> TrieResult<Vec<Vec<u8>>> {
        self.commit()?;
        let mut out = vec![];
        self.proof(&self.root, &unpack(key), &mut out)?;
        Ok(out)
    }
    fn clear_trie_from_db(&mut self) -> TrieResult<()> {
        self.commit()?;
        let mut all = vec![];
        self.stored(&self.root, &mut all)?;
        let all: Vec<Vec<u8>> = all.into_iter().map(|h| h.to_vec()).collect();
        self.db.remove_batch(&all).map_err(err)?;
        self.root = N::Empty;
        self.root_hash = null_root();
        Ok(())
    }
}
