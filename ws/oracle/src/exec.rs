//! Execution-layer data in its binary forms: headers, transactions, receipts, withdrawals.
use super::{
    keccak256, mpt,
    rlp::{bytes, list, uint, uint_be},
    H,
};
use vcommon::Rng;

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub enum Era {
    Frontier,
    London,
    Paris,
    Shanghai,
    Cancun,
    Prague,
}
pub const ERAS: [Era; 6] = [Era::Frontier, Era::London, Era::Paris, Era::Shanghai, Era::Cancun, Era::Prague];

/// Mainnet activation points.
pub const PARIS_BLOCK: u64 = 15_537_394;
pub const LONDON_BLOCK: u64 = 12_965_000;
pub const SHANGHAI_TIME: u64 = 1_681_338_455;
pub const CANCUN_TIME: u64 = 1_710_338_135;
pub const PRAGUE_TIME: u64 = 1_746_612_311;

#[derive(Clone, Debug, PartialEq)]
pub struct Hdr {
    pub era: Era,
    pub parent: H,
    pub ommers: H,
    pub beneficiary: [u8; 20],
    pub state_root: H,
    pub txs_root: H,
    pub receipts_root: H,
    pub bloom: Vec<u8>,
    pub difficulty: Vec<u8>,
    pub number: u64,
    pub gas_limit: u64,
    pub gas_used: u64,
    pub timestamp: u64,
    pub extra: Vec<u8>,
    pub mix: H,
    pub nonce: [u8; 8],
    pub base_fee: u64,
    pub withdrawals_root: H,
    pub blob_gas: u64,
    pub excess_blob: u64,
    pub beacon_root: H,
    pub requests_hash: H,
}

impl Hdr {
    /// A header of the era, with a block number and time inside it on mainnet.
    pub fn random(r: &mut Rng, era: Era) -> Hdr {
        let (number, timestamp) = match era {
            Era::Frontier => (r.range(0, LONDON_BLOCK - 1), r.range(1_438_269_988, 1_628_166_000)),
            Era::London => (r.range(LONDON_BLOCK, PARIS_BLOCK - 1), r.range(1_628_166_822, 1_663_224_000)),
            Era::Paris => (r.range(PARIS_BLOCK, 17_034_869), r.range(1_663_224_179, SHANGHAI_TIME - 12)),
            Era::Shanghai => (r.range(17_034_870, 19_426_586), r.range(SHANGHAI_TIME, CANCUN_TIME - 12)),
            Era::Cancun => (r.range(19_426_587, 22_431_083), r.range(CANCUN_TIME, PRAGUE_TIME - 12)),
            Era::Prague => (r.range(22_431_084, 30_000_000), r.range(PRAGUE_TIME, 1_800_000_000)),
        };
        let extra = *r.pick(&[0usize, 1, 2, 31, 32]);
        let dl = *r.pick(&[0usize, 1, 7, 8, 32]);
        Hdr {
            era,
            parent: r.array(),
            ommers: empty_ommers(),
            beneficiary: r.array(),
            state_root: r.array(),
            txs_root: r.array(),
            receipts_root: r.array(),
            bloom: r.bytes(256),
            difficulty: r.bytes(dl),
            number,
            gas_limit: r.edgy_u64(),
            gas_used: r.edgy_u64(),
            timestamp,
            extra: r.bytes(extra),
            mix: r.array(),
            nonce: r.array(),
            base_fee: r.edgy_u64(),
            withdrawals_root: r.array(),
            blob_gas: r.edgy_u64(),
            excess_blob: r.edgy_u64(),
            beacon_root: r.array(),
            requests_hash: r.array(),
        }
    }
    pub fn rlp(&self) -> Vec<u8> {
        let mut f = vec![
            bytes(&self.parent),
            bytes(&self.ommers),
            bytes(&self.beneficiary),
            bytes(&self.state_root),
            bytes(&self.txs_root),
            bytes(&self.receipts_root),
            bytes(&self.bloom),
            uint_be(&self.difficulty),
            uint(self.number as u128),
            uint(self.gas_limit as u128),
            uint(self.gas_used as u128),
            uint(self.timestamp as u128),
            bytes(&self.extra),
            bytes(&self.mix),
            bytes(&self.nonce),
        ];
        if self.era >= Era::London {
            f.push(uint(self.base_fee as u128));
        }
        if self.era >= Era::Shanghai {
            f.push(bytes(&self.withdrawals_root));
        }
        if self.era >= Era::Cancun {
            f.push(uint(self.blob_gas as u128));
            f.push(uint(self.excess_blob as u128));
            f.push(bytes(&self.beacon_root));
        }
        if self.era >= Era::Prague {
            f.push(bytes(&self.requests_hash));
        }
        list(&f)
    }
    pub fn hash(&self) -> H {
        keccak256(&self.rlp())
    }
}

pub fn empty_ommers() -> H {
    keccak256(&[0xc0])
}
pub fn empty_trie() -> H {
    keccak256(&[0x80])
}

fn amount(r: &mut Rng, max: usize) -> Vec<u8> {
    let n = r.usize_in(0, max);
    uint_be(&r.bytes(n))
}
fn blob(r: &mut Rng) -> Vec<u8> {
    let n = *r.pick(&[0usize, 1, 4, 55, 56, 68, 260]);
    bytes(&r.bytes(n))
}
fn access_list(r: &mut Rng) -> Vec<u8> {
    let n = r.usize_in(0, 2);
    list(
        &(0..n)
            .map(|_| {
                let k = r.usize_in(0, 2);
                list(&[bytes(&r.bytes(20)), list(&(0..k).map(|_| bytes(&r.bytes(32))).collect::<Vec<_>>())])
            })
            .collect::<Vec<_>>(),
    )
}
fn sig(r: &mut Rng) -> [Vec<u8>; 3] {
    [uint(r.below(2) as u128), amount(r, 32), amount(r, 32)]
}

/// The canonical binary form of a random transaction of the type.
pub fn tx(r: &mut Rng, ty: u8) -> Vec<u8> {
    let to_or_create = |r: &mut Rng| if r.chance(1, 4) { bytes(&[]) } else { bytes(&r.bytes(20)) };
    let mut f = vec![];
    let number = |r: &mut Rng| uint(r.edgy_u64() as u128);
    if ty == 0 {
        let v = match r.below(3) {
            0 => 27 + r.below(2) as u128,
            1 => 37 + r.below(2) as u128,
            _ => 35 + 2 * (r.u32() as u128) + r.below(2) as u128,
        };
        f.extend([number(r), amount(r, 16), number(r), to_or_create(r), amount(r, 32), blob(r)]);
        f.extend([uint(v), amount(r, 32), amount(r, 32)]);
        return list(&f);
    }
    f.extend([number(r), number(r), amount(r, 16)]);
    if ty >= 2 {
        f.push(amount(r, 16));
    }
    f.push(number(r));
    f.push(if ty >= 3 { bytes(&r.bytes(20)) } else { to_or_create(r) });
    f.extend([amount(r, 32), blob(r), access_list(r)]);
    if ty == 3 {
        f.push(amount(r, 16));
        let n = r.usize_in(0, 3);
        f.push(list(&(0..n).map(|_| bytes(&r.bytes(32))).collect::<Vec<_>>()));
    }
    if ty == 4 {
        let n = r.usize_in(0, 2);
        f.push(list(
            &(0..n)
                .map(|_| {
                    let mut a = vec![amount(r, 32), bytes(&r.bytes(20)), number(r)];
                    a.extend(sig(r));
                    list(&a)
                })
                .collect::<Vec<_>>(),
        ));
    }
    f.extend(sig(r));
    [vec![ty], list(&f)].concat()
}

pub fn withdrawal(r: &mut Rng) -> Vec<u8> {
    list(&[
        uint(r.edgy_u64() as u128),
        uint(r.edgy_u64() as u128),
        bytes(&r.bytes(20)),
        uint(r.edgy_u64() as u128),
    ])
}

/// A receipt in its consensus form and in the form without bloom used by the newer protocol.
pub struct Rcpt {
    pub raw: Vec<u8>,
    pub eip7642: Vec<u8>,
}

fn bloom_add(bloom: &mut [u8], data: &[u8]) {
    let h = keccak256(data);
    for i in [0, 2, 4] {
        let bit = ((h[i] as usize) << 8 | h[i + 1] as usize) & 2047;
        bloom[255 - bit / 8] |= 1 << (bit % 8);
    }
}

pub fn receipt(r: &mut Rng, ty: u8) -> Rcpt {
    let status = match r.below(3) {
        0 => bytes(&[]),
        1 => bytes(&[1]),
        _ if ty == 0 => bytes(&r.bytes(32)),
        _ => bytes(&[1]),
    };
    let gas = uint(r.edgy_u64() as u128);
    let mut bloom = vec![0u8; 256];
    let n = r.usize_in(0, 3);
    let logs = list(
        &(0..n)
            .map(|_| {
                let addr = r.bytes(20);
                bloom_add(&mut bloom, &addr);
                let k = r.usize_in(0, 4);
                let topics: Vec<Vec<u8>> = (0..k)
                    .map(|_| {
                        let t = r.bytes(32);
                        bloom_add(&mut bloom, &t);
                        bytes(&t)
                    })
                    .collect();
                list(&[bytes(&addr), list(&topics), blob(r)])
            })
            .collect::<Vec<_>>(),
    );
    let body = list(&[status.clone(), gas.clone(), bytes(&bloom), logs.clone()]);
    let raw = if ty == 0 { body } else { [vec![ty], body].concat() };
    Rcpt { raw, eip7642: list(&[uint(ty as u128), status, gas, logs]) }
}

/// Transaction types that exist in an era.
pub fn tx_types(era: Era) -> u64 {
    match era {
        Era::Frontier => 2,
        Era::London | Era::Paris | Era::Shanghai => 3,
        Era::Cancun => 4,
        Era::Prague => 5,
    }
}

/// A block with consistent header, body and receipts.
#[derive(Clone, Debug)]
pub struct Block {
    pub header: Hdr,
    pub txs: Vec<Vec<u8>>,
    pub ommers: Vec<Hdr>,
    pub withdrawals: Option<Vec<Vec<u8>>>,
    pub receipts: Vec<Vec<u8>>,
    pub receipts7642: Vec<Vec<u8>>,
}

impl Block {
    pub fn random(r: &mut Rng, era: Era, max_txs: usize) -> Block {
        let mut header = Hdr::random(r, era);
        let n = r.usize_in(0, max_txs);
        let types: Vec<u8> = (0..n).map(|_| r.below(tx_types(era)) as u8).collect();
        let txs: Vec<Vec<u8>> = types.iter().map(|t| tx(r, *t)).collect();
        let rs: Vec<Rcpt> = types.iter().map(|t| receipt(r, *t)).collect();
        let ommers: Vec<Hdr> =
            if era < Era::Paris { (0..r.below(3)).map(|_| Hdr::random(r, era)).collect() } else { vec![] };
        let withdrawals = (era >= Era::Shanghai).then(|| (0..r.below(17)).map(|_| withdrawal(r)).collect::<Vec<_>>());
        let receipts: Vec<Vec<u8>> = rs.iter().map(|x| x.raw.clone()).collect();
        header.ommers = keccak256(&list(&ommers.iter().map(|o| o.rlp()).collect::<Vec<_>>()));
        header.txs_root = mpt::ordered_root(&txs);
        header.receipts_root = mpt::ordered_root(&receipts);
        if let Some(w) = &withdrawals {
            header.withdrawals_root = mpt::ordered_root(w);
        }
        Block { header, txs, ommers, withdrawals, receipts, receipts7642: rs.into_iter().map(|x| x.eip7642).collect() }
    }
    pub fn ommers_rlp(&self) -> Vec<u8> {
        list(&self.ommers.iter().map(|o| o.rlp()).collect::<Vec<_>>())
    }
    /// The SSZ form of the legacy history network.
    pub fn body_ssz(&self) -> Vec<u8> {
        use super::ssz::{container, var_list, Part::Var};
        let mut parts = vec![Var(var_list(&self.txs)), Var(self.ommers_rlp())];
        if let Some(w) = &self.withdrawals {
            parts.push(Var(var_list(w)));
        }
        container(&parts)
    }
    /// The RLP form of the history network.
    pub fn body_rlp(&self) -> Vec<u8> {
        let txs: Vec<Vec<u8>> =
            self.txs.iter().map(|t| if t[0] >= 0xc0 { t.clone() } else { bytes(t) }).collect();
        let mut f = vec![list(&txs), self.ommers_rlp()];
        if let Some(w) = &self.withdrawals {
            f.push(list(w));
        }
        list(&f)
    }
    pub fn receipts_ssz(&self) -> Vec<u8> {
        super::ssz::var_list(&self.receipts)
    }
    pub fn receipts_rlp7642(&self) -> Vec<u8> {
        list(&self.receipts7642)
    }
}
