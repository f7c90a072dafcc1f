//! Worlds of accounts with storage and code, and the content that describes them.
use ethportal_api::{OverlayContentKey, StateContentKey};
use oracle::{
    keccak256, mpt,
    rlp::{self, Item},
    ssz::{container, var_list, Part},
    H,
};
use vcommon::Rng;

pub type Pairs = Vec<(Vec<u8>, Vec<u8>)>;
pub struct Account {
    pub hash: H,
    pub code: Vec<u8>,
    pub storage: Pairs,
}
pub struct World {
    pub accounts: Vec<Account>,
    pub trie: Pairs,
}
fn shared(r: &mut Rng, base: &H) -> H {
    let mut h = *base;
    let at = r.usize_in(0, 31);
    let rest = r.bytes(32 - at);
    h[at..].copy_from_slice(&rest);
    if r.chance(1, 3) {
        h[at] = base[at] & 0xf0 | h[at] & 0x0f;
    }
    h
}
fn keys(r: &mut Rng, n: usize) -> Vec<H> {
    let mut out: Vec<H> = vec![];
    while out.len() < n {
        let h = if out.is_empty() || r.chance(2, 3) {
            r.array()
        } else {
            let b = out[r.index(out.len())];
            shared(r, &b)
        };
        if !out.contains(&h) {
            out.push(h);
        }
    }
    out
}
impl World {
    pub fn new(r: &mut Rng) -> Self {
        let most = *r.pick(&[1usize, 3, 20, 60]);
        let n = r.usize_in(1, most);
        let mut accounts = vec![];
        let mut trie = vec![];
        for hash in keys(r, n) {
            let most = *r.pick(&[0usize, 1, 2, 12]);
            let n = r.usize_in(0, most);
            let storage: Pairs = {
                let mut v: Pairs = keys(r, n)
                    .into_iter()
                    .map(|k| {
                        let len = *r.pick(&[1usize, 4, 20, 32]);
                        let mut b = r.bytes(len);
                        b[0] |= 1;
                        (mpt::nibbles(&k), rlp::bytes(&b))
                    })
                    .collect();
                v.sort();
                v
            };
            let len = *r.pick(&[0usize, 1, 30, 200, 1500, 24000]);
            let code = r.bytes(len);
            let (nonce, len) = (r.edgy_u64(), r.usize_in(0, 12));
            let mut balance = r.bytes(len);
            if let Some(b) = balance.first_mut() {
                *b |= 1;
            }
            let root = mpt::root(&storage);
            trie.push((mpt::nibbles(&hash), rlp::list(&[rlp::uint(nonce as u128), rlp::uint_be(&balance), rlp::bytes(&root), rlp::bytes(&keccak256(&code))])));
            accounts.push(Account { hash, code, storage });
        }
        trie.sort();
        Self { accounts, trie }
    }
    pub fn proof(&self, a: usize) -> Vec<(Vec<u8>, Vec<u8>)> {
        mpt::path_nodes(&self.trie, &mpt::nibbles(&self.accounts[a].hash))
    }
}
/// A key in parts.
#[derive(Clone, Debug, PartialEq)]
pub enum Name {
    Account { path: Vec<u8>, hash: H },
    Storage { address: H, path: Vec<u8>, hash: H },
    Code { address: H, hash: H },
}
pub fn pack(n: &[u8]) -> Vec<u8> {
    let (mut out, rest) = if n.len() % 2 == 1 { (vec![0x10 | n[0]], &n[1..]) } else { (vec![0], n) };
    out.extend(rest.chunks(2).map(|c| c[0] << 4 | c[1]));
    out
}
impl Name {
    pub fn bytes(&self) -> Vec<u8> {
        match self {
            Name::Account { path, hash } => [vec![0x20], container(&[Part::Var(pack(path)), Part::Fixed(hash.to_vec())])].concat(),
            Name::Storage { address, path, hash } => [vec![0x21], container(&[Part::Fixed(address.to_vec()), Part::Var(pack(path)), Part::Fixed(hash.to_vec())])].concat(),
            Name::Code { address, hash } => [vec![0x22], address.to_vec(), hash.to_vec()].concat(),
        }
    }
    pub fn key(&self) -> StateContentKey {
        StateContentKey::try_from_bytes(self.bytes()).expect("harness key")
    }
    pub fn hash(&mut self) -> &mut H {
        match self {
            Name::Account { hash, .. } | Name::Storage { hash, .. } | Name::Code { hash, .. } => hash,
        }
    }
}
/// A value in parts.
#[derive(Clone, Debug)]
pub enum Form {
    Node(Vec<u8>),
    Proof(Vec<Vec<u8>>),
    Both { storage: Vec<Vec<u8>>, account: Vec<Vec<u8>> },
    Code(Vec<u8>),
    CodeProof(Vec<u8>, Vec<Vec<u8>>),
}
impl Form {
    pub fn bytes(&self, block: &H) -> Vec<u8> {
        let block = Part::Fixed(block.to_vec());
        match self {
            Form::Node(n) | Form::Code(n) => container(&[Part::Var(n.clone())]),
            Form::Proof(p) => container(&[Part::Var(var_list(p)), block]),
            Form::Both { storage, account } => container(&[Part::Var(var_list(storage)), Part::Var(var_list(account)), block]),
            Form::CodeProof(c, p) => container(&[Part::Var(c.clone()), Part::Var(var_list(p)), block]),
        }
    }
    /// As kept after having been accepted.
    pub fn kept(&self) -> Form {
        match self {
            Form::Proof(p) | Form::Both { storage: p, .. } => Form::Node(p.last().cloned().unwrap_or_default()),
            Form::CodeProof(c, _) => Form::Code(c.clone()),
            other => other.clone(),
        }
    }
}
/// Something in the world with its proof.
pub fn some(r: &mut Rng, w: &World) -> (Name, Form) {
    let a = r.index(w.accounts.len());
    let proof = w.proof(a);
    let whole: Vec<Vec<u8>> = proof.iter().map(|p| p.1.clone()).collect();
    let acc = &w.accounts[a];
    match r.below(3) {
        0 => {
            let d = r.index(proof.len());
            (Name::Account { path: proof[d].0.clone(), hash: keccak256(&proof[d].1) }, Form::Proof(whole[..=d].to_vec()))
        }
        1 if !acc.storage.is_empty() => {
            let slot = r.pick(&acc.storage).0.clone();
            let nodes = mpt::path_nodes(&acc.storage, &slot);
            let d = r.index(nodes.len());
            (
                Name::Storage { address: acc.hash, path: nodes[d].0.clone(), hash: keccak256(&nodes[d].1) },
                Form::Both { storage: nodes[..=d].iter().map(|n| n.1.clone()).collect(), account: whole },
            )
        }
        _ => (Name::Code { address: acc.hash, hash: keccak256(&acc.code) }, Form::CodeProof(acc.code.clone(), whole)),
    }
}

#[derive(Debug, PartialEq)]
enum Step {
    Nothing,
    Value(Vec<u8>),
    Next(H, usize),
    Bad,
    /// the node is not well formed, so nothing is said about it
    Odd,
}
fn hp(b: &[u8]) -> Option<(bool, Vec<u8>)> {
    let n = mpt::nibbles(b);
    if n.is_empty() || n[0] > 3 || (n[0] & 1 == 0 && n[1] != 0) {
        return None;
    }
    Some((n[0] & 2 != 0, n[if n[0] & 1 == 1 { 1 } else { 2 }..].to_vec()))
}
fn walk(i: &Item, path: &[u8], top: bool) -> Step {
    match i {
        Item::Bytes(b) if b.is_empty() => Step::Nothing,
        Item::Bytes(b) if b.len() == 32 && !top => Step::Next(b[..].try_into().unwrap(), path.len()),
        Item::Bytes(_) => Step::Odd,
        Item::List(l) if l.len() == 2 => {
            let Some((leaf, prefix)) = l[0].as_bytes().and_then(hp) else { return Step::Odd };
            if leaf {
                match l[1].as_bytes() {
                    Some(_) if prefix.is_empty() => Step::Bad,
                    Some(v) if prefix == path => Step::Value(v.to_vec()),
                    Some(_) => Step::Nothing,
                    None => Step::Odd,
                }
            } else if let Some(rest) = path.strip_prefix(&prefix[..]) {
                walk(&l[1], rest, false)
            } else {
                Step::Nothing
            }
        }
        Item::List(l) if l.len() == 17 => match path.split_first() {
            Some((n, rest)) => walk(&l[*n as usize], rest, false),
            None => match l[16].as_bytes() {
                Some(b) if !b.is_empty() => Step::Value(b.to_vec()),
                Some(_) => Step::Nothing,
                None => Step::Odd,
            },
        },
        _ => Step::Odd,
    }
}
fn node(b: &[u8], path: &[u8]) -> Step {
    match rlp::parse_all(b) {
        Some(i) if fine(&i, true) => walk(&i, path, true),
        _ => Step::Odd,
    }
}
/// Whether every part of a node is as it should be, on the path or not.
fn fine(i: &Item, top: bool) -> bool {
    match i {
        Item::Bytes(b) => b.is_empty() || (b.len() == 32 && !top),
        Item::List(l) if l.len() == 2 => match l[0].as_bytes().and_then(hp) {
            Some((true, _)) => l[1].as_bytes().is_some(),
            Some((false, p)) => !p.is_empty() && fine(&l[1], false),
            None => false,
        },
        Item::List(l) if l.len() == 17 => l[..16].iter().all(|c| fine(c, false) && c.encode().len() <= 33) && l[16].as_bytes().is_some(),
        _ => false,
    }
}
/// What the rules say about a value.
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Verdict {
    /// right for its key but not proven to be part of the chain
    Matching,
    Proven,
    Wrong,
    Unsaid,
}
/// The last node of a linked proof and what is left of the path; `Err` with the verdict otherwise.
fn linked<'a>(root: Option<&H>, path: &'a [u8], proof: &'a [Vec<u8>]) -> Result<(&'a [u8], &'a [u8]), Verdict> {
    let first = proof.first().ok_or(Verdict::Wrong)?;
    if root.is_some_and(|h| keccak256(first) != *h) {
        return Err(Verdict::Wrong);
    }
    let (mut at, mut rest) = (first, path);
    for next in &proof[1..] {
        match node(at, rest) {
            Step::Next(h, left) if keccak256(next) == h => {
                at = next;
                rest = &rest[rest.len() - left..];
            }
            Step::Odd => return Err(Verdict::Unsaid),
            _ => return Err(Verdict::Wrong),
        }
    }
    Ok((at, rest))
}
fn reaches(root: Option<&H>, path: &[u8], hash: &H, proof: &[Vec<u8>]) -> Verdict {
    match linked(root, path, proof) {
        Ok((n, rest)) if rest.is_empty() && keccak256(n) == *hash => Verdict::Proven,
        Ok(_) => Verdict::Wrong,
        Err(v) => v,
    }
}
/// Storage root and code hash of the account.
fn account(address: &H, proof: &[Vec<u8>]) -> Result<(H, H), Verdict> {
    let path = mpt::nibbles(address);
    let (n, rest) = linked(None, &path, proof)?;
    let v = match node(n, rest) {
        Step::Value(v) => v,
        Step::Odd => return Err(Verdict::Unsaid),
        _ => return Err(Verdict::Wrong),
    };
    let fields = rlp::parse_all(&v).and_then(|i| i.as_list().map(|l| l.to_vec())).ok_or(Verdict::Unsaid)?;
    if fields.len() != 4 {
        return Err(Verdict::Unsaid);
    }
    let h = |i: usize| fields[i].as_bytes().and_then(|b| H::try_from(b).ok()).ok_or(Verdict::Unsaid);
    let number = |i: usize, most: usize| fields[i].as_bytes().is_some_and(|b| b.len() <= most && b.first() != Some(&0));
    if !number(0, 8) || !number(1, 32) {
        return Err(Verdict::Unsaid);
    }
    Ok((h(2)?, h(3)?))
}
pub fn verdict(name: &Name, form: &Form) -> Verdict {
    match (name, form) {
        (Name::Account { hash, .. } | Name::Storage { hash, .. }, Form::Node(n)) | (Name::Code { hash, .. }, Form::Code(n)) => {
            if keccak256(n) == *hash {
                Verdict::Matching
            } else {
                Verdict::Wrong
            }
        }
        (Name::Account { path, hash }, Form::Proof(p)) => reaches(None, path, hash, p),
        (Name::Storage { address, path, hash }, Form::Both { storage, account: a }) => match account(address, a) {
            Ok((root, _)) => reaches(Some(&root), path, hash, storage),
            Err(v) => v,
        },
        (Name::Code { address, hash }, Form::CodeProof(c, a)) => {
            if keccak256(c) != *hash {
                return Verdict::Wrong;
            }
            match account(address, a) {
                Ok((_, h)) if h == *hash => Verdict::Proven,
                Ok(_) => Verdict::Wrong,
                Err(v) => v,
            }
        }
        _ => Verdict::Wrong,
    }
}
