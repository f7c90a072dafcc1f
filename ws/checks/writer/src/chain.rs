//! A chain of beacon blocks and their execution blocks, and providers that know it.
use std::collections::{BTreeMap, HashMap};

use oracle::{
    exec::{Block, Era},
    keccak256, mpt, rlp,
    schema::{self, Fork, T, V},
    ssz as ossz, H,
};
use reqwest::Told;
use vcommon::{hex, json, Rng, Value};

pub const GENESIS: u64 = 1_606_824_023;
pub const PERIOD: u64 = 8192;
pub const PER_FILE: u64 = 8192;
/// The period the first summary is about.
pub const FIRST_SUMMARY: u64 = 194_048 * 32 / PERIOD;
pub const JSON: &str = "application/json";
pub const SSZ: &str = "application/octet-stream";

pub fn put(v: &mut V, t: &T, path: &[&str], to: V) {
    let V::Items(x) = v else { panic!("composite") };
    let i = t.field(path[0]);
    if path.len() == 1 {
        x[i] = to;
    } else {
        put(&mut x[i], t.ty(path[0]), &path[1..], to);
    }
}
pub fn num(n: u64) -> V {
    V::Raw(n.to_le_bytes().to_vec())
}
pub fn told(ty: &str, body: Vec<u8>) -> Told {
    Told { status: 200, body, headers: vec![("content-type", ty.to_string())], ..Default::default() }
}
pub fn not_found() -> Told {
    Told { status: 404, ..told(JSON, b"{\"code\":404,\"message\":\"NOT_FOUND: no such thing\"}".to_vec()) }
}
fn requests_hash(t: &T, v: &V) -> H {
    let V::Items(lists) = v else { panic!("three lists") };
    let mut all = vec![];
    for (i, name) in ["deposits", "withdrawals", "consolidations"].iter().enumerate() {
        let b = t.ty(name).ser(&lists[i]);
        if !b.is_empty() {
            all.extend(oracle::sha256(&[vec![i as u8], b].concat()));
        }
    }
    oracle::sha256(&all)
}
#[derive(Clone)]
pub struct Made {
    pub slot: u64,
    pub number: u64,
    pub root: H,
    /// the signed beacon block
    pub signed: Vec<u8>,
    pub header: Vec<u8>,
    pub hash: H,
    pub body: Vec<u8>,
    pub receipts: Vec<Vec<u8>>,
    pub fork: Fork,
}
impl Made {
    /// How deep in the beacon block the hash of the execution block is, and where.
    pub fn deep(&self) -> usize {
        if self.fork >= Fork::Deneb {
            12
        } else {
            11
        }
    }
    pub fn place(&self) -> u64 {
        let below = if self.fork >= Fork::Deneb { 5 } else { 4 };
        ((4 << 4 | 9) << below) | 12
    }
}
pub fn fork_of(slot: u64) -> Fork {
    match slot {
        0..6_209_536 => Fork::Bellatrix,
        6_209_536..8_626_176 => Fork::Capella,
        8_626_176..11_649_024 => Fork::Deneb,
        _ => Fork::Electra,
    }
}
pub struct Maker {
    /// beacon blocks to begin from
    patterns: Vec<(Fork, T, Vec<V>)>,
    /// part of every block, if it is to be a large one
    pub ballast: Option<(Vec<u8>, Vec<u8>)>,
}
impl Maker {
    pub fn new(r: &mut Rng) -> Self {
        let patterns = schema::FORKS
            .map(|f| {
                let t = schema::signed_beacon_block(f);
                let some = (0..12).map(|i| t.gen(r, (i % 4 == 1) as usize)).collect();
                (f, t, some)
            })
            .into();
        Maker { patterns, ballast: None }
    }
    pub fn make(&self, r: &mut Rng, parent: Option<&Made>, number: u64, slot: u64) -> Made {
        let fork = fork_of(slot);
        let (_, t, patterns) = self.patterns.iter().find(|p| p.0 == fork).expect("one of each fork");
        let mut v = r.pick(patterns).clone();
        let era = match fork {
            Fork::Bellatrix => Era::Paris,
            Fork::Capella => Era::Shanghai,
            Fork::Deneb => Era::Cancun,
            Fork::Electra => Era::Prague,
        };
        let mut b = Block::random(r, era, 2);
        let parent_root = parent.map_or_else(|| r.array(), |p| p.root);
        put(&mut v, t, &["message", "slot"], num(slot));
        put(&mut v, t, &["message", "parent_root"], V::Raw(parent_root.to_vec()));
        if let Some((tx, receipt)) = &self.ballast {
            b.txs.push(tx.clone());
            b.receipts.push(receipt.clone());
            b.header.txs_root = mpt::ordered_root(&b.txs);
            b.header.receipts_root = mpt::ordered_root(&b.receipts);
        }
        let h = &mut b.header;
        h.beacon_root = parent_root;
        h.difficulty = vec![];
        h.nonce = [0; 8];
        h.number = number;
        if let Some(p) = parent {
            h.parent = p.hash;
        }
        h.timestamp = GENESIS + slot * 12;
        if fork >= Fork::Electra {
            let bt = t.ty("message").ty("body");
            let V::Items(top) = &v else { panic!("composite") };
            h.requests_hash = requests_hash(bt.ty("execution_requests"), top[t.field("message")].item(t.ty("message").field("body")).item(bt.field("execution_requests")));
        }
        let header = h.rlp();
        let hash = keccak256(&header);
        let mut set = |name: &'static str, to: V| put(&mut v, t, &["message", "body", "execution_payload", name], to);
        let raw = |b: &[u8]| V::Raw(b.to_vec());
        set("parent_hash", raw(&h.parent));
        set("fee_recipient", raw(&h.beneficiary));
        set("state_root", raw(&h.state_root));
        set("receipts_root", raw(&h.receipts_root));
        set("logs_bloom", raw(&h.bloom));
        set("prev_randao", raw(&h.mix));
        set("block_number", num(h.number));
        set("gas_limit", num(h.gas_limit));
        set("gas_used", num(h.gas_used));
        set("timestamp", num(h.timestamp));
        set("extra_data", raw(&h.extra));
        let mut fee = h.base_fee.to_le_bytes().to_vec();
        fee.resize(32, 0);
        set("base_fee_per_gas", V::Raw(fee));
        set("block_hash", raw(&hash));
        set("transactions", V::Items(b.txs.iter().map(|t| V::Raw(t.clone())).collect()));
        let ws = b.withdrawals.iter().flatten().map(|w| {
            let w = <alloy::rpc::types::Withdrawal as alloy_rlp::Decodable>::decode(&mut &w[..]).expect("harness withdrawal");
            V::Items(vec![num(w.index), num(w.validator_index), raw(w.address.as_slice()), num(w.amount)])
        });
        if fork >= Fork::Capella {
            set("withdrawals", V::Items(ws.collect()));
        }
        if fork >= Fork::Deneb {
            set("blob_gas_used", num(h.blob_gas));
            set("excess_blob_gas", num(h.excess_blob));
        }
        let V::Items(top) = &v else { panic!("composite") };
        let root = t.ty("message").root(&top[t.field("message")]);
        Made { slot, number, root, signed: t.ser(&v), header, hash, body: b.body_rlp(), receipts: b.receipts, fork }
    }
}
/// What goes wrong with one block.
#[derive(Clone, Copy, Debug, PartialEq, Hash)]
pub enum Wrong {
    /// receipts that are not those of the block
    Receipts,
    /// one receipt too few
    ReceiptMissing,
    NoReceipts,
    /// another beacon block is given for the slot
    OtherBlock,
    /// the beacon block with one bit changed
    Bit,
    /// the provider forgets the block
    Forgotten,
    /// the roots of the period are not those of its blocks
    Roots,
    /// the summaries are not those of the period
    Summaries,
}
pub const WRONG: [Wrong; 8] = [Wrong::Receipts, Wrong::ReceiptMissing, Wrong::NoReceipts, Wrong::OtherBlock, Wrong::Bit, Wrong::Forgotten, Wrong::Roots, Wrong::Summaries];

#[derive(Default)]
pub struct World {
    pub made: Vec<Made>,
    pub by_slot: BTreeMap<u64, usize>,
    pub by_root: HashMap<String, usize>,
    pub by_number: HashMap<u64, usize>,
    pub roots: BTreeMap<u64, Vec<H>>,
    /// what they come to
    pub tops: HashMap<u64, H>,
    pub states: HashMap<u64, Vec<u8>>,
    /// the newest final block
    pub finalized: usize,
    /// block and what is wrong with it
    pub wrong: Option<(usize, Wrong, Vec<u8>)>,
    /// how often receipts are not there yet
    pub nulls: HashMap<u64, u32>,
    /// blocks whose receipts were asked for
    pub receipts_of: Vec<u64>,
    pub asked: u64,
}
impl World {
    pub fn add(&mut self, m: Made) -> usize {
        let i = self.made.len();
        self.by_slot.insert(m.slot, i);
        self.by_root.insert(hex(&m.root), i);
        self.by_number.insert(m.number, i);
        self.made.push(m);
        i
    }
    /// Works out the roots of each period that is over, as a node keeps them.
    pub fn settle(&mut self, r: &mut Rng) {
        let mut last = r.array();
        let (Some(first), Some(end)) = (self.by_slot.keys().next().copied(), self.by_slot.keys().next_back().copied()) else { return };
        for p in first / PERIOD..end / PERIOD {
            let roots: Vec<H> = (p * PERIOD..(p + 1) * PERIOD)
                .map(|s| {
                    if let Some(i) = self.by_slot.get(&s) {
                        last = self.made[*i].root;
                    }
                    last
                })
                .collect();
            self.roots.insert(p, roots);
        }
    }
    /// Roots for one period, where there are no others.
    pub fn settle_one(&mut self, r: &mut Rng, p: u64) {
        let roots = (p * PERIOD..(p + 1) * PERIOD).map(|s| self.by_slot.get(&s).map_or_else(|| r.array(), |i| self.made[*i].root)).collect();
        self.roots.insert(p, roots);
    }
    /// The state at the first slot after a period.
    pub fn state(&mut self, r: &mut Rng, p: u64) -> Option<Vec<u8>> {
        let roots = self.roots.get(&p)?.clone();
        let wrong = match &self.wrong {
            Some((i, w @ (Wrong::Roots | Wrong::Summaries), _)) if self.made[*i].slot / PERIOD == p => Some(*w),
            _ => None,
        };
        if wrong.is_none() {
            if let Some(s) = self.states.get(&p) {
                return Some(s.clone());
            }
        }
        let t = schema::beacon_state(fork_of((p + 1) * PERIOD));
        let mut v = t.gen(r, 0);
        put(&mut v, &t, &["slot"], num((p + 1) * PERIOD));
        let mut summaries: Vec<V> = (FIRST_SUMMARY..p).map(|q| V::Items(vec![V::Raw(self.roots.get(&q).map_or_else(|| r.array::<32>().to_vec(), |x| ossz::merkleize(x, 13).to_vec())), V::Raw(r.bytes(32))])).collect();
        let mut own = ossz::merkleize(&roots, 13).to_vec();
        if wrong == Some(Wrong::Summaries) {
            own = r.bytes(32);
        }
        summaries.push(V::Items(vec![V::Raw(own), V::Raw(r.bytes(32))]));
        put(&mut v, &t, &["historical_summaries"], V::Items(summaries));
        let mut roots = roots;
        if wrong == Some(Wrong::Roots) {
            let i = r.index(roots.len());
            roots[i] = r.array();
        }
        put(&mut v, &t, &["block_roots"], V::Items(roots.iter().map(|h| V::Raw(h.to_vec())).collect()));
        let s = t.ser(&v);
        if wrong.is_none() {
            self.states.insert(p, s.clone());
        }
        Some(s)
    }
    fn block(&self, i: usize) -> Told {
        let m = &self.made[i];
        let signed = match &self.wrong {
            Some((k, Wrong::Forgotten, _)) if *k == i => return not_found(),
            Some((k, Wrong::OtherBlock | Wrong::Bit, b)) if *k == i => b.clone(),
            _ => m.signed.clone(),
        };
        let mut a = told(SSZ, signed);
        a.headers.push(("Eth-Consensus-Version", "electra".into()));
        a
    }
    pub fn answer(&mut self, r: &mut Rng, path: &str, body: &[u8]) -> Option<Told> {
        self.asked += 1;
        let head = self.made[self.finalized].slot + 70;
        if body.is_empty() {
            if path == "/eth/v1/node/version" {
                return Some(told(JSON, b"{\"data\":{\"version\":\"x/1\"}}".to_vec()));
            }
            if let Some(id) = path.strip_prefix("/eth/v2/beacon/blocks/") {
                let found = match id {
                    "finalized" => Some(self.finalized),
                    "head" => self.by_slot.range(..=head).next_back().map(|x| *x.1),
                    _ => match id.strip_prefix("0x") {
                        Some(root) => self.by_root.get(root).copied(),
                        None => self.by_slot.get(&id.parse().ok()?).copied(),
                    },
                };
                return Some(match found {
                    Some(i) if self.made[i].slot <= head => self.block(i),
                    _ => not_found(),
                });
            }
            if let Some(id) = path.strip_prefix("/eth/v2/debug/beacon/states/") {
                let slot: u64 = id.parse().ok()?;
                if slot % PERIOD != 0 || slot > head {
                    return Some(not_found());
                }
                return Some(match self.state(r, slot / PERIOD - 1) {
                    Some(s) => told(SSZ, s),
                    None => not_found(),
                });
            }
            return Some(not_found());
        }
        let q: Value = serde_json::from_slice(body).ok()?;
        let a = match &q {
            Value::Array(all) => {
                let mut got: Vec<Value> = all.iter().filter_map(|q| self.said(q)).collect();
                // in whatever order they are ready
                r.shuffle(&mut got);
                Value::Array(got)
            }
            q => self.said(q)?,
        };
        Some(told(JSON, a.to_string().into_bytes()))
    }
    fn said(&mut self, q: &Value) -> Option<Value> {
        let said = |result: Value| Some(json!({"jsonrpc": "2.0", "id": q["id"], "result": result}));
        let n = q["params"][0].as_str().and_then(|s| u64::from_str_radix(s.strip_prefix("0x")?, 16).ok());
        let known = n.and_then(|n| self.by_number.get(&n).copied());
        match q["method"].as_str()? {
            "eth_getBlockByNumber" if q["params"][0] == "latest" => said(whole(self.made.last()?)),
            "eth_getBlockByNumber" => said(known.map_or(Value::Null, |i| whole(&self.made[i]))),
            "eth_getBlockReceipts" => {
                let n = n?;
                self.receipts_of.push(n);
                if let Some(k) = self.nulls.get_mut(&n) {
                    if *k > 0 {
                        *k -= 1;
                        return said(Value::Null);
                    }
                }
                let Some(i) = known else { return said(Value::Null) };
                let mut list = self.made[i].receipts.clone();
                match &self.wrong {
                    Some((k, Wrong::NoReceipts, _)) if *k == i => return said(Value::Null),
                    Some((k, Wrong::Receipts, b)) if *k == i => list.push(b.clone()),
                    Some((k, Wrong::ReceiptMissing, b)) if *k == i => {
                        if list.pop().is_none() {
                            list.push(b.clone());
                        }
                    }
                    _ => {}
                }
                said(list.iter().map(|x| format!("0x{}", hex(x))).collect())
            }
            _ => said("x/1".into()),
        }
    }
}
fn whole(m: &Made) -> Value {
    let h = <alloy::consensus::Header as alloy_rlp::Decodable>::decode(&mut m.header.as_slice()).expect("harness header");
    let b = alloy::rpc::types::Block { header: alloy::rpc::types::Header::new(h), uncles: vec![], transactions: alloy::rpc::types::BlockTransactions::Full(Vec::<alloy::rpc::types::Transaction>::new()), withdrawals: None };
    serde_json::to_value(&b).expect("harness block")
}
pub fn ballast(r: &mut Rng, len: usize) -> (Vec<u8>, Vec<u8>) {
    let f = [rlp::uint(7), rlp::uint(9), rlp::uint(21000), rlp::bytes(&r.bytes(20)), rlp::uint(3), rlp::bytes(&r.bytes(len)), rlp::uint(27), rlp::uint(r.u64() as u128 + 1), rlp::uint(r.u64() as u128 + 1)];
    (rlp::list(&f), oracle::exec::receipt(r, 0).raw)
}
pub fn wrapped(items: &[Vec<u8>]) -> Vec<u8> {
    rlp::list(&items.iter().map(|t| if t[0] >= 0xc0 { t.clone() } else { rlp::bytes(t) }).collect::<Vec<_>>())
}
