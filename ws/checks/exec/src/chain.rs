//! Chains of blocks that are right, together with what is true after each of them.
use std::collections::{BTreeMap, BTreeSet};

use alloy::{
    consensus::{Header, Signed, TxEip1559, TxEip2930, TxEip4844, TxEip4844Variant, TxEnvelope, TxLegacy},
    eips::{
        eip2930::{AccessList, AccessListItem},
        eip4895::Withdrawal,
    },
    primitives::{Address, Bytes, Signature, TxKind, B256, U256},
};
use oracle::{mpt, rlp};
use revm::ops;
use trin_execution::e2hs::types::{ProcessedBlock, TransactionsWithSender};
use vcommon::Rng;

use super::world::*;

pub struct Chain {
    pub world: World,
    pub next: u64,
    pub hashes: BTreeMap<u64, B256>,
    pub senders: Vec<(U256, Address)>,
    pub contracts: Vec<Address>,
    pub seen: BTreeSet<Address>,
    pub keys: Vec<U256>,
    pub parent: B256,
    pub time: u64,
    /// First block whose hash is known to whoever executes.
    pub oldest: u64,
    /// Whether hashes far back are asked for often.
    pub far: bool,
    /// transactions that tell the rules in force next to a fork
    pub told: u64,
    /// who is paid for blocks, if that matters
    pub miner: Option<Address>,
}
#[derive(Clone)]
pub struct Made {
    pub block: ProcessedBlock,
    pub txs: Vec<(Tx, Outcome)>,
    pub world: World,
}
fn eth(n: u64) -> U256 {
    U256::from(n) * U256::from(1_000_000_000_000_000_000u64)
}
/// About when a block was made.
pub fn time(n: u64) -> u64 {
    match n {
        CANCUN.. => 1_710_338_135 + (n - CANCUN) * 12,
        SHANGHAI.. => 1_681_338_455 + (n - SHANGHAI) * 12,
        PARIS.. => 1_663_224_179 + (n - PARIS) * 12,
        _ => 1_438_269_988 + n * 14,
    }
}
pub fn address(r: &mut Rng) -> Address {
    Address::from(r.array::<20>())
}
pub fn value(r: &mut Rng) -> U256 {
    match r.below(6) {
        0 => U256::ZERO,
        1 => U256::from(r.below(200)),
        2 => U256::MAX,
        3 => U256::from(1) << r.below(256),
        4 => U256::from(r.u64()),
        _ => U256::from_be_bytes(r.array::<32>()),
    }
}
impl Chain {
    /// Starts a chain whose next block is `next`.
    pub fn start(r: &mut Rng, next: u64, contracts: usize) -> Chain {
        let mut world = World::default();
        let senders: Vec<_> = (0..r.usize_in(2, 6))
            .map(|_| {
                let s = U256::from_be_bytes(r.array::<32>());
                (s, Address::from_slice(&oracle::keccak256(&s.to_be_bytes::<32>())[12..]))
            })
            .collect();
        for (_, a) in &senders {
            world.accs.insert(*a, Acc { nonce: *r.pick(&[0, 1, 127, 128, 255, 256, 70_000]), balance: eth(1_000_000 + r.below(1000)), ..Default::default() });
        }
        let mut keys: Vec<U256> = (0..r.range(2, 10)).map(U256::from).collect();
        keys.push(U256::MAX);
        keys.push(U256::from_be_bytes(r.array::<32>()));
        let mut list = vec![];
        for i in 0..contracts {
            let a = address(r);
            let n = r.usize_in(1, 60);
            let mut acc = Acc { nonce: (next >= SPURIOUS) as u64, balance: if r.bool() { U256::ZERO } else { eth(r.below(50)) }, code: r.bytes(n), ..Default::default() };
            let slots = if i == 0 { r.usize_in(20, 90) } else { r.usize_in(0, 5) };
            for k in 0..slots {
                acc.slots.insert(if i == 0 { U256::from(1000 + k) } else { *r.pick(&keys) }, value(r));
            }
            if i == 0 {
                keys.push(U256::from(1000));
                keys.push(U256::from(1001));
            }
            acc.slots.retain(|_, v| !v.is_zero());
            world.accs.insert(a, acc);
            list.push(a);
        }
        for _ in 0..r.usize_in(0, 20) {
            let a = address(r);
            world.accs.insert(a, Acc { balance: U256::from(1 + r.u64() / 2), ..Default::default() });
        }
        if next < SPURIOUS {
            for _ in 0..r.usize_in(0, 3) {
                world.accs.insert(address(r), Acc::default());
            }
        }
        if next <= DAO && DAO - next < 1000 {
            for a in dao_accounts() {
                let x = world.accs.entry(a).or_default();
                x.balance = if r.chance(1, 5) { U256::ZERO } else { U256::from(r.u64()) * U256::from(r.below(1 << 20)) };
            }
        }
        if next + 1000 >= CANCUN && r.chance(4, 5) {
            world.accs.insert(beacon_roots(), Acc { nonce: 1, code: r.bytes(97), ..Default::default() });
        }
        let seen = world.accs.keys().copied().collect();
        Chain {
            world,
            next,
            hashes: BTreeMap::new(),
            senders,
            contracts: list,
            seen,
            keys,
            parent: r.array::<32>().into(),
            time: 0,
            oldest: next,
            far: false,
            told: 0,
            miner: None,
        }
    }
    fn someone(&self, r: &mut Rng) -> Address {
        match r.below(5) {
            0 => self.senders[r.index(self.senders.len())].1,
            1 if !self.contracts.is_empty() => *r.pick(&self.contracts),
            2 => address(r),
            _ => {
                let dao: BTreeSet<_> = if self.next <= DAO && DAO - self.next < 1000 { dao_accounts().into_iter().collect() } else { BTreeSet::new() };
                let all: Vec<_> = self.seen.iter().filter(|a| !dao.contains(*a) && **a != dao_refund()).collect();
                *all[r.index(all.len())]
            }
        }
    }
    fn program(&self, r: &mut Rng, number: u64) -> Vec<u8> {
        let mut out = vec![];
        let word = |v: U256| v.to_be_bytes::<32>();
        for _ in 0..r.usize_in(0, 8) {
            let k = word(*r.pick(&self.keys));
            match r.below(24) {
                0..=6 => {
                    out.push(ops::STORE);
                    out.extend(k);
                    out.extend(word(value(r)));
                }
                7..=9 => {
                    out.push(ops::FACT);
                    out.extend(k);
                    out.extend(word(U256::from(r.below(16))));
                }
                10..=12 => {
                    out.push(ops::COPY);
                    out.extend(k);
                    out.extend(word(*r.pick(&self.keys)));
                }
                13..=15 => {
                    let n = match r.below(6) {
                        _ if self.far && r.bool() => number.saturating_sub(256),
                        0 => number,
                        1 => number + 1 + r.below(5),
                        2 => number.saturating_sub(257 + r.below(3)),
                        3 => number.saturating_sub(254 + r.below(3)),
                        _ => number.saturating_sub(1 + r.below(20)),
                    };
                    if n >= self.oldest || (n < number && number - n > 256) {
                        out.push(ops::BLOCK_HASH);
                        out.extend(k);
                        out.extend(word(U256::from(n)));
                    }
                }
                16 | 17 => {
                    out.push(ops::BALANCE);
                    out.extend(k);
                    out.extend(self.someone(r).as_slice());
                }
                18 | 19 => {
                    out.push(ops::CODE);
                    out.extend(k);
                    out.extend(self.someone(r).as_slice());
                }
                20 | 21 => {
                    out.push(ops::SEND);
                    out.extend(self.someone(r).as_slice());
                    out.extend(word(*r.pick(&[U256::ZERO, U256::from(1), U256::from(1_000_000), eth(60)])));
                }
                22 if r.chance(1, 3) => {
                    out.push(ops::DESTROY);
                    out.extend(self.someone(r).as_slice());
                }
                23 if r.chance(1, 4) => out.push(ops::REVERT),
                _ => {}
            }
        }
        if r.chance(1, 40) {
            out.push(0xfe);
        }
        out
    }
    fn tx(&mut self, r: &mut Rng, e: &Env, w: &World) -> (U256, Tx) {
        let (secret, from) = *r.pick(&self.senders);
        let mut types = vec![0u8, 0];
        if e.number >= BERLIN {
            types.push(1);
        }
        if e.number >= LONDON {
            types.extend([2, 2]);
        }
        if e.number >= CANCUN {
            types.push(3);
        }
        let ty = *r.pick(&types);
        let mut data = vec![];
        let mut kind = TxKind::Call(self.someone(r));
        match r.below(10) {
            0 | 1 => {
                if r.chance(1, 4) {
                    data = self.program(r, e.number);
                }
            }
            2 if ty != 3 => {
                kind = TxKind::Create;
                data = self.program(r, e.number);
                if r.chance(7, 8) {
                    data.push(ops::END);
                    let n = r.usize_in(0, 80);
                    data.extend(r.bytes(n));
                }
            }
            _ if !self.contracts.is_empty() => {
                kind = TxKind::Call(*r.pick(&self.contracts));
                data = self.program(r, e.number);
            }
            _ => {}
        }
        let base = ops::BASE_GAS + if kind == TxKind::Create && e.number >= HOMESTEAD { ops::CREATE_GAS } else { 0 };
        let gas_limit = base
            + match r.below(8) {
                0 => r.below(8) * ops::GAS,
                1 => 9 * ops::GAS,
                _ => 1000 + r.below(400_000),
            };
        let floor = if e.number >= LONDON { e.basefee as u128 } else { 0 };
        let max_fee = floor + *r.pick(&[0u128, 1, 1_000_000_000, 77_000_000_000]);
        let tip = (ty >= 2).then(|| (*r.pick(&[0u128, 1, 2_000_000_000])).min(max_fee));
        let access = if ty == 0 {
            vec![]
        } else {
            (0..r.index(3))
                .map(|_| {
                    let a = address(r);
                    (a, (0..r.index(3)).map(|_| r.array::<32>().into()).collect())
                })
                .collect()
        };
        let blobs: Vec<B256> = if ty == 3 { (0..r.range(1, 3)).map(|_| r.array::<32>().into()).collect() } else { vec![] };
        let max_blob_fee = if ty == 3 { e.blob_price() + r.below(1000) as u128 } else { 0 };
        let t = Tx {
            ty,
            from,
            kind,
            gas_limit,
            max_fee,
            tip,
            value: match r.below(4) {
                0 => eth(r.below(3)),
                1 => U256::from(r.below(1000)),
                _ => U256::ZERO,
            },
            data,
            nonce: w.get(&from).nonce,
            chain_id: (ty != 0 || (e.number >= SPURIOUS && r.bool())).then_some(1),
            access,
            blobs,
            max_blob_fee,
        };
        (secret, t)
    }
    /// The next block, with up to so many transactions.
    pub fn block(&mut self, r: &mut Rng, most: usize) -> Made {
        let n = self.next;
        self.time = time(n) + r.below(10);
        let coinbase = match r.below(5) {
            0 => address(r),
            1 if !self.contracts.is_empty() => *r.pick(&self.contracts),
            2 => self.senders[0].1,
            _ => Address::from([0x11; 20]),
        };
        let coinbase = self.miner.unwrap_or(coinbase);
        let e = Env {
            number: n,
            timestamp: self.time,
            gas_limit: 30_000_000 + r.below(1000),
            basefee: if n >= LONDON { 7 + r.below(90_000_000_000) } else { 0 },
            difficulty: if n >= PARIS { U256::ZERO } else { U256::from(1 + r.u64() / 2) },
            mix: r.array::<32>().into(),
            excess_blob: if n >= CANCUN { *r.pick(&[0, 131_072, 393_216, 10_000_000, 60_000_000]) } else { 0 },
            coinbase,
            hashes: self.hashes.clone(),
        };
        let mut w = self.world.clone();
        let beacon_root: B256 = r.array::<32>().into();
        if n >= CANCUN {
            let a = beacon_roots();
            if !w.get(&a).code.is_empty() {
                note_beacon_root(w.accs.get_mut(&a).expect("present"), e.timestamp, beacon_root.into());
            } else if w.accs.contains_key(&a) && w.get(&a).is_empty() {
                w.accs.remove(&a);
            }
        }
        let mut txs = vec![];
        let mut enveloped = vec![];
        let mut gas_used = 0;
        // the blocks on both sides of a fork tell under which rules they run
        let edge = fork(n).1 == n || fork(n + 1).1 == n + 1;
        let asked = self.contracts.iter().find(|a| edge && most > 0 && !w.get(a).code.is_empty()).copied();
        for i in 0..most {
            let (secret, mut t) = self.tx(r, &e, &w);
            if let (0, Some(a), true) = (i, asked, t.ty != 3) {
                t.kind = TxKind::Call(a);
                t.data = [vec![ops::FACT], self.keys[0].to_be_bytes::<32>().to_vec(), U256::from(15).to_be_bytes::<32>().to_vec()].concat();
                t.gas_limit = ops::BASE_GAS + 400_000;
                self.told += 1;
            }
            if !w.get(&t.from).code.is_empty() || w.get(&t.from).balance < t.most() {
                continue;
            }
            let o = w.apply(&e, &t);
            gas_used += o.gas;
            if let Some(a) = o.made {
                self.seen.insert(a);
                if !w.get(&a).code.is_empty() {
                    self.contracts.push(a);
                }
            }
            enveloped.push(TransactionsWithSender { transaction: envelope(r, secret, &t), sender_address: t.from });
            txs.push((t, o));
        }
        let mut uncles = vec![];
        if n < PARIS {
            let reward = eth(if n >= CONSTANTINOPLE {
                2
            } else if n >= BYZANTIUM {
                3
            } else {
                5
            });
            for _ in 0..*r.pick(&[0usize, 0, 1, 2]) {
                let back = 1 + r.below(6.min(n).max(1));
                let who = if r.chance(1, 5) { coinbase } else { address(r) };
                uncles.push(Header { number: n - back.min(n), beneficiary: who, difficulty: U256::from(1), gas_limit: 5000, ..Default::default() });
                w.pay(who, U256::from(8 - back) * reward / U256::from(8));
                w.pay(coinbase, reward / U256::from(32));
            }
            w.pay(coinbase, reward);
        }
        let withdrawals = (n >= SHANGHAI).then(|| {
            (0..r.index(6))
                .map(|i| {
                    let address = if r.chance(1, 3) { address(r) } else { self.someone(r) };
                    let amount = *r.pick(&[0u64, 1, 32_000_000_000, u64::MAX / 3]);
                    w.pay(address, U256::from(amount) * U256::from(1_000_000_000u64));
                    Withdrawal { index: n * 16 + i as u64, validator_index: r.below(1 << 20), address, amount }
                })
                .collect::<Vec<_>>()
        });
        if n == DAO {
            let mut sum = U256::ZERO;
            for a in dao_accounts() {
                let x = w.accs.entry(a).or_default();
                sum += x.balance;
                x.balance = U256::ZERO;
            }
            w.pay(dao_refund(), sum);
        }
        for a in w.accs.keys() {
            self.seen.insert(*a);
        }
        let raw: Vec<Vec<u8>> = enveloped.iter().map(|t| alloy::eips::eip2718::Encodable2718::encoded_2718(&t.transaction)).collect();
        let header = Header {
            parent_hash: self.parent,
            ommers_hash: oracle::keccak256(&rlp::list(&uncles.iter().map(|u: &Header| alloy_rlp::encode(u)).collect::<Vec<_>>())).into(),
            beneficiary: coinbase,
            state_root: w.root(),
            transactions_root: mpt::ordered_root(&raw).into(),
            difficulty: e.difficulty,
            number: n,
            gas_limit: e.gas_limit,
            gas_used,
            timestamp: e.timestamp,
            extra_data: Bytes::from(vec![r.u8(); 3]),
            mix_hash: e.mix,
            base_fee_per_gas: (n >= LONDON).then_some(e.basefee),
            withdrawals_root: withdrawals.as_ref().map(|ws| mpt::ordered_root(&ws.iter().map(alloy_rlp::encode).collect::<Vec<_>>()).into()),
            blob_gas_used: (n >= CANCUN).then(|| txs.iter().map(|(t, _)| t.blobs.len() as u64 * ops::BLOB_GAS).sum()),
            excess_blob_gas: (n >= CANCUN).then_some(e.excess_blob),
            parent_beacon_block_root: (n >= CANCUN).then_some(beacon_root),
            ..Default::default()
        };
        let hash: B256 = oracle::keccak256(&alloy_rlp::encode(&header)).into();
        self.hashes.insert(n, hash);
        self.parent = hash;
        self.next += 1;
        self.world = w.clone();
        Made { block: ProcessedBlock { header, uncles: (n < PARIS || r.bool()).then_some(uncles), withdrawals, transactions: enveloped }, txs, world: w }
    }
}
fn envelope(r: &mut Rng, secret: U256, t: &Tx) -> TxEnvelope {
    let sig = Signature::new(secret, U256::from(1 + r.u64() / 2), r.bool());
    let input = Bytes::from(t.data.clone());
    let access_list = AccessList(t.access.iter().map(|(address, k)| AccessListItem { address: *address, storage_keys: k.clone() }).collect());
    let (nonce, gas_limit, value) = (t.nonce, t.gas_limit, t.value);
    match t.ty {
        0 => Signed::new_unhashed(TxLegacy { chain_id: t.chain_id, nonce, gas_price: t.max_fee, gas_limit, to: t.kind, value, input }, sig).into(),
        1 => Signed::new_unhashed(TxEip2930 { chain_id: 1, nonce, gas_price: t.max_fee, gas_limit, to: t.kind, value, input, access_list }, sig).into(),
        2 => Signed::new_unhashed(
            TxEip1559 { chain_id: 1, nonce, max_fee_per_gas: t.max_fee, max_priority_fee_per_gas: t.tip.unwrap_or(0), gas_limit, to: t.kind, value, input, access_list },
            sig,
        )
        .into(),
        _ => {
            let TxKind::Call(to) = t.kind else { unreachable!("blobs come with calls") };
            let x = TxEip4844 {
                chain_id: 1,
                nonce,
                max_fee_per_gas: t.max_fee,
                max_priority_fee_per_gas: t.tip.unwrap_or(0),
                gas_limit,
                to,
                value,
                input,
                access_list,
                blob_versioned_hashes: t.blobs.clone(),
                max_fee_per_blob_gas: t.max_blob_fee,
            };
            Signed::new_unhashed(TxEip4844Variant::TxEip4844(x), sig).into()
        }
    }
}
