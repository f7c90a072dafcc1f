//! What accounts hold, and what blocks of a fork do to them, written down from the rules.
use std::collections::{BTreeMap, BTreeSet};

use alloy::primitives::{keccak256, Address, TxKind, B256, U256};
use oracle::{mpt, rlp};
use revm::ops;

/// Fork blocks of mainnet, with the number the machine knows a fork by.
pub const FORKS: [(&str, u64, u8); 17] = [
    ("frontier", 0, 0),
    ("thawing", 200_000, 1),
    ("homestead", 1_150_000, 2),
    ("dao", 1_920_000, 3),
    ("tangerine", 2_463_000, 4),
    ("spurious dragon", 2_675_000, 5),
    ("byzantium", 4_370_000, 6),
    ("petersburg", 7_280_000, 8),
    ("istanbul", 9_069_000, 9),
    ("muir glacier", 9_200_000, 10),
    ("berlin", 12_244_000, 11),
    ("london", 12_965_000, 12),
    ("arrow glacier", 13_773_000, 13),
    ("gray glacier", 15_050_000, 14),
    ("paris", 15_537_394, 15),
    ("shanghai", 17_034_870, 16),
    ("cancun", 19_426_587, 17),
];
pub const HOMESTEAD: u64 = 1_150_000;
pub const DAO: u64 = 1_920_000;
pub const SPURIOUS: u64 = 2_675_000;
pub const BYZANTIUM: u64 = 4_370_000;
pub const CONSTANTINOPLE: u64 = 7_280_000;
pub const BERLIN: u64 = 12_244_000;
pub const LONDON: u64 = 12_965_000;
pub const PARIS: u64 = 15_537_394;
pub const SHANGHAI: u64 = 17_034_870;
pub const CANCUN: u64 = 19_426_587;

pub fn fork(number: u64) -> (&'static str, u64, u8) {
    *FORKS.iter().rev().find(|f| number >= f.1).expect("a fork")
}
pub fn dao_accounts() -> Vec<Address> {
    include_str!("dao.txt").lines().map(|l| Address::from_slice(&vcommon::unhex(l))).collect()
}
pub fn dao_refund() -> Address {
    Address::from_slice(&vcommon::unhex("bf4ed7b27f1d666546e30d74d50d173d20bca754"))
}
pub fn beacon_roots() -> Address {
    Address::from_slice(&vcommon::unhex("000f3df6d732807ef1319fb7b8bb8522d0beac02"))
}

#[derive(Clone, Debug, Default, PartialEq, Eq)]
pub struct Acc {
    pub nonce: u64,
    pub balance: U256,
    pub code: Vec<u8>,
    pub slots: BTreeMap<U256, U256>,
}
pub type Pairs = Vec<(Vec<u8>, Vec<u8>)>;
impl Acc {
    pub fn is_empty(&self) -> bool {
        self.nonce == 0 && self.balance.is_zero() && self.code.is_empty()
    }
    pub fn storage_pairs(&self) -> Pairs {
        let mut p: Pairs = self
            .slots
            .iter()
            .filter(|(_, v)| !v.is_zero())
            .map(|(k, v)| (mpt::nibbles(&oracle::keccak256(&k.to_be_bytes::<32>())), rlp::uint_be(&v.to_be_bytes::<32>())))
            .collect();
        p.sort();
        p
    }
    pub fn storage_root(&self) -> [u8; 32] {
        mpt::root(&self.storage_pairs())
    }
    pub fn rlp(&self) -> Vec<u8> {
        rlp::list(&[
            rlp::uint(self.nonce as u128),
            rlp::uint_be(&self.balance.to_be_bytes::<32>()),
            rlp::bytes(&self.storage_root()),
            rlp::bytes(&oracle::keccak256(&self.code)),
        ])
    }
}

#[derive(Clone, Debug, Default, PartialEq, Eq)]
pub struct World {
    pub accs: BTreeMap<Address, Acc>,
}
impl World {
    pub fn pairs(&self) -> Pairs {
        let mut p: Pairs = self.accs.iter().map(|(a, x)| (mpt::nibbles(&oracle::keccak256(a.as_slice())), x.rlp())).collect();
        p.sort();
        p
    }
    pub fn root(&self) -> B256 {
        mpt::root(&self.pairs()).into()
    }
    pub fn get(&self, a: &Address) -> Acc {
        self.accs.get(a).cloned().unwrap_or_default()
    }
    pub fn pay(&mut self, a: Address, v: U256) {
        if !v.is_zero() {
            self.accs.entry(a).or_default().balance += v;
        }
    }
}

/// What a block tells the transactions in it.
#[derive(Clone, Debug)]
pub struct Env {
    pub number: u64,
    pub timestamp: u64,
    pub gas_limit: u64,
    pub basefee: u64,
    pub difficulty: U256,
    pub mix: B256,
    pub excess_blob: u64,
    pub coinbase: Address,
    /// Hashes of earlier blocks.
    pub hashes: BTreeMap<u64, B256>,
}
impl Env {
    pub fn blob_price(&self) -> u128 {
        if self.number < CANCUN {
            return 0;
        }
        // the rule of EIP-4844
        let (d, n) = (3_338_477u128, self.excess_blob as u128);
        let (mut i, mut out, mut acc) = (1u128, 0u128, d);
        while acc > 0 {
            out += acc;
            acc = acc * n / (d * i);
            i += 1;
        }
        out / d
    }
}
#[derive(Clone, Debug)]
pub struct Tx {
    pub ty: u8,
    pub from: Address,
    pub kind: TxKind,
    pub gas_limit: u64,
    pub max_fee: u128,
    pub tip: Option<u128>,
    pub value: U256,
    pub data: Vec<u8>,
    pub nonce: u64,
    pub chain_id: Option<u64>,
    pub access: Vec<(Address, Vec<B256>)>,
    pub blobs: Vec<B256>,
    pub max_blob_fee: u128,
}
impl Tx {
    pub fn price(&self, e: &Env) -> u128 {
        let base = if e.number >= LONDON { e.basefee as u128 } else { 0 };
        match self.tip {
            Some(t) => self.max_fee.min(base + t),
            None => self.max_fee,
        }
    }
    /// The most it may take from the sender.
    pub fn most(&self) -> U256 {
        U256::from(self.gas_limit) * U256::from(self.max_fee)
            + self.value
            + U256::from(self.blobs.len() as u128 * ops::BLOB_GAS as u128) * U256::from(self.max_blob_fee)
    }
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum End {
    Done,
    Undone,
    OutOfGas,
}
#[derive(Clone, Debug)]
pub struct Outcome {
    pub end: End,
    pub gas: u64,
    pub made: Option<Address>,
    pub destroyed: bool,
    /// Operations that were started.
    pub steps: usize,
    /// What the caller gets.
    pub out: Vec<u8>,
}
struct Doing {
    out: Vec<u8>,
    w: World,
    touched: BTreeSet<Address>,
    gone: BTreeSet<Address>,
}
impl Doing {
    fn acc(&mut self, a: Address) -> &mut Acc {
        self.touched.insert(a);
        self.w.accs.entry(a).or_default()
    }
    fn send(&mut self, from: Address, to: Address, v: U256) {
        if self.w.get(&from).balance >= v {
            self.acc(from).balance -= v;
            self.acc(to).balance += v;
        }
    }
}
impl World {
    /// Carries out a transaction that is known to be acceptable.
    pub fn apply(&mut self, e: &Env, t: &Tx) -> Outcome {
        let price = t.price(e);
        let base = if e.number >= LONDON { e.basefee as u128 } else { 0 };
        let mut d = Doing { out: vec![], w: self.clone(), touched: BTreeSet::new(), gone: BTreeSet::new() };
        {
            let a = d.acc(t.from);
            a.nonce += 1;
            a.balance -= U256::from(t.gas_limit) * U256::from(price);
            a.balance -= U256::from(t.blobs.len() as u128 * ops::BLOB_GAS as u128) * U256::from(e.blob_price());
        }
        let before = (d.w.clone(), d.touched.clone());
        let mut gas = ops::BASE_GAS;
        let mut steps = 0;
        let mut end = End::Done;
        let creates = t.kind == TxKind::Create;
        if creates && e.number >= HOMESTEAD {
            gas += ops::CREATE_GAS;
        }
        let this = match t.kind {
            TxKind::Create => created(t.from, t.nonce),
            TxKind::Call(a) => a,
        };
        let known = d.w.get(&this);
        if creates && (known.nonce != 0 || !known.code.is_empty()) {
            end = End::OutOfGas;
        } else {
            d.acc(this);
            if creates {
                let a = d.acc(this);
                a.slots.clear();
                a.nonce = (e.number >= SPURIOUS) as u64;
            }
            d.send(t.from, this, t.value);
            if this == beacon_roots() && !known.code.is_empty() {
                let mut root = [0u8; 32];
                if t.data.len() >= 32 {
                    root.copy_from_slice(&t.data[..32]);
                }
                note_beacon_root(d.acc(this), e.timestamp, U256::from_be_bytes(root));
            } else if creates || !known.code.is_empty() {
                let mut at = 0;
                end = steps_of(&mut d, e, t, price, this, creates, &mut at, &mut gas, &mut steps);
                if end == End::Done && !creates {
                    d.out.extend_from_slice(&t.data[at..]);
                }
                if end == End::Done && creates && !d.gone.contains(&this) {
                    d.acc(this).code = t.data[at..].to_vec();
                }
            }
        }
        if end == End::OutOfGas {
            gas = t.gas_limit;
        }
        let destroyed = end == End::Done && !d.gone.is_empty();
        if end != End::Done {
            (d.w, d.touched) = before;
            d.gone.clear();
        }
        d.acc(t.from).balance += U256::from(t.gas_limit - gas) * U256::from(price);
        d.acc(e.coinbase).balance += U256::from(gas) * U256::from(price - base);
        for a in &d.touched {
            if d.gone.contains(a) || (e.number >= SPURIOUS && d.w.get(a).is_empty()) {
                d.w.accs.remove(a);
            }
        }
        for a in d.w.accs.values_mut() {
            a.slots.retain(|_, v| !v.is_zero());
        }
        *self = d.w;
        if end != End::Done || creates {
            d.out.clear();
        }
        Outcome { out: d.out, end, gas, made: (creates && end == End::Done).then_some(this), destroyed, steps }
    }
}
pub fn created(from: Address, nonce: u64) -> Address {
    Address::from_slice(&oracle::keccak256(&rlp::list(&[rlp::bytes(from.as_slice()), rlp::uint(nonce as u128)]))[12..])
}
pub fn note_beacon_root(a: &mut Acc, timestamp: u64, root: U256) {
    let slot = timestamp % ops::BEACON_SLOTS;
    a.slots.insert(U256::from(slot), U256::from(timestamp));
    a.slots.insert(U256::from(slot + ops::BEACON_SLOTS), root);
    a.slots.retain(|_, v| !v.is_zero());
}
#[allow(clippy::too_many_arguments)]
fn steps_of(d: &mut Doing, e: &Env, t: &Tx, price: u128, this: Address, creates: bool, at: &mut usize, gas: &mut u64, steps: &mut usize) -> End {
    macro_rules! take {
        ($n:expr) => {{
            let Some(b) = t.data.get(*at..*at + $n) else { return End::OutOfGas };
            *at += $n;
            b
        }};
    }
    macro_rules! word {
        () => {
            U256::from_be_slice(take!(32))
        };
    }
    macro_rules! addr {
        () => {
            Address::from_slice(take!(20))
        };
    }
    while *at < t.data.len() {
        let op = t.data[*at];
        *at += 1;
        *gas += ops::GAS;
        *steps += 1;
        if *gas > t.gas_limit {
            return End::OutOfGas;
        }
        let of = |a: Address| U256::from_be_slice(a.as_slice());
        match op {
            ops::STORE => {
                let (k, v) = (word!(), word!());
                d.acc(this).slots.insert(k, v);
            }
            ops::DESTROY => {
                let to = addr!();
                let gone = creates || e.number < CANCUN;
                let all = d.w.get(&this).balance;
                if to != this {
                    d.send(this, to, all);
                } else if gone {
                    d.acc(this).balance = U256::ZERO;
                }
                d.acc(to);
                if gone {
                    d.acc(this);
                    d.gone.insert(this);
                }
                return End::Done;
            }
            ops::BLOCK_HASH => {
                let (k, n) = (word!(), word!());
                let mut v = U256::ZERO;
                if n < U256::from(e.number) && U256::from(e.number) - n <= U256::from(256) {
                    v = e.hashes[&n.to::<u64>()].into();
                }
                d.acc(this).slots.insert(k, v);
            }
            ops::REVERT => return End::Undone,
            ops::FACT => {
                let (k, w) = (word!(), word!());
                let v = match w.to::<u64>() % 16 {
                    0 => U256::from(e.number),
                    1 => U256::from(e.timestamp),
                    2 => U256::from(e.gas_limit),
                    3 => U256::from(if e.number >= LONDON { e.basefee } else { 0 }),
                    4 => e.difficulty,
                    5 if e.number >= PARIS => e.mix.into(),
                    5 => U256::MAX,
                    6 => U256::from(e.blob_price()),
                    7 => of(e.coinbase),
                    8 => of(t.from),
                    9 => U256::from(t.nonce),
                    10 => U256::from(price),
                    11 => t.value,
                    12 if t.ty == 0 => U256::from((e.number >= SPURIOUS) as u64),
                    12 => U256::from(t.chain_id.unwrap_or(0)),
                    13 => {
                        let mut all = vec![];
                        for (a, ks) in &t.access {
                            all.extend_from_slice(a.as_slice());
                            ks.iter().for_each(|k| all.extend_from_slice(k.as_slice()));
                        }
                        keccak256(all).into()
                    }
                    14 => keccak256(t.blobs.iter().flat_map(|h| h.0).collect::<Vec<u8>>()).into(),
                    _ => U256::from(t.gas_limit) << 8 | U256::from(t.ty) | U256::from(fork(e.number).2) << 128,
                };
                d.acc(this).slots.insert(k, v);
            }
            ops::COPY => {
                let (k, o) = (word!(), word!());
                let v = d.w.get(&this).slots.get(&o).copied().unwrap_or_default();
                d.acc(this).slots.insert(k, v.wrapping_add(U256::from(1)));
            }
            ops::BALANCE => {
                let (k, a) = (word!(), addr!());
                let v = d.w.get(&a).balance;
                d.acc(this).slots.insert(k, v);
            }
            ops::CODE => {
                let (k, a) = (word!(), addr!());
                let x = d.w.get(&a);
                let v = if x.is_empty() { U256::ZERO } else { keccak256(&x.code).into() };
                d.acc(this).slots.insert(k, v);
            }
            ops::SEND => {
                let (a, v) = (addr!(), word!());
                d.send(this, a, v);
            }
            ops::END => return End::Done,
            ops::SHOW => {
                let k = word!();
                let v = d.w.get(&this).slots.get(&k).copied().unwrap_or_default();
                d.out.extend_from_slice(&v.to_be_bytes::<32>());
            }
            _ => return End::OutOfGas,
        }
    }
    End::Done
}

/// Every node of a trie that is stored by itself (the root and all of 32 bytes or more), with the
/// nodes above it.
pub fn all_nodes(pairs: &Pairs) -> Vec<(Vec<u8>, Vec<Vec<u8>>)> {
    let mut out = vec![];
    if !pairs.is_empty() {
        below(pairs.clone(), vec![], &[], true, &mut out);
    }
    out
}
fn below(pairs: Pairs, path: Vec<u8>, above: &[Vec<u8>], root: bool, out: &mut Vec<(Vec<u8>, Vec<Vec<u8>>)>) {
    let enc = mpt::node(&pairs);
    if !root && enc.len() < 32 {
        return;
    }
    let mut proof = above.to_vec();
    proof.push(enc);
    out.push((path.clone(), proof.clone()));
    if pairs.len() == 1 {
        return;
    }
    let first = pairs[0].0.clone();
    let common = pairs.iter().map(|(k, _)| k.iter().zip(&first).take_while(|(a, b)| a == b).count()).min().unwrap_or(0);
    let deeper = |n: usize, keep: &dyn Fn(&[u8]) -> bool| -> Pairs { pairs.iter().filter(|(k, _)| keep(k)).map(|(k, v)| (k[n..].to_vec(), v.clone())).collect() };
    if common > 0 {
        below(deeper(common, &|_| true), [&path[..], &first[..common]].concat(), &proof, false, out);
    } else {
        for n in 0..16u8 {
            let sub = deeper(1, &|k| k.first() == Some(&n));
            if !sub.is_empty() {
                below(sub, [&path[..], &[n]].concat(), &proof, false, out);
            }
        }
    }
}
