//! Headers with proofs: accepted exactly when the chain of proofs leads to the trusted roots.
use alloy::{
    consensus::Header,
    primitives::{B256, U256},
};
use alloy_rlp::Decodable;
use ethportal_api::{
    types::execution::{
        accumulator::{EpochAccumulator, HeaderRecord},
        header_with_proof::{
            BlockHeaderProof, BlockProofHistoricalRoots, BlockProofHistoricalSummariesCapella, BlockProofHistoricalSummariesDeneb,
            HeaderWithProof,
        },
    },
    consensus::historical_summaries::{HistoricalSummaries, HistoricalSummary},
};
use oracle::{
    exec::{Era, Hdr, CANCUN_TIME, PARIS_BLOCK, SHANGHAI_TIME},
    sha2, ssz as ossz, H,
};
use ssz_types::FixedVector;
use tokio::runtime::Runtime;
use trin_validation::{
    accumulator::PreMergeAccumulator, header_validator::HeaderValidator, historical_roots_acc::HistoricalRootsAccumulator,
};
use vcommon::{hex, json, Ctx, Rng};

pub const CAPELLA_SLOT: u64 = 194_048 * 32;
pub const PERIOD: u64 = 8192;

pub fn header(h: &Hdr) -> Header {
    Header::decode(&mut h.rlp().as_slice()).expect("header of the checker is readable")
}

fn b(h: &H) -> B256 {
    B256::from(*h)
}

/// Root reached from a leaf with the siblings given bottom up.
fn climb(leaf: &H, siblings: &[H], index: u64) -> H {
    let mut x = *leaf;
    for (i, s) in siblings.iter().enumerate() {
        x = if (index >> i) & 1 == 1 { sha2(s, &x) } else { sha2(&x, s) };
    }
    x
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Kind {
    Hashes,
    Roots,
    Capella,
    Deneb,
}
pub const KINDS: [Kind; 4] = [Kind::Hashes, Kind::Roots, Kind::Capella, Kind::Deneb];

/// A claim: header, proof and slot.
#[derive(Clone, Debug)]
pub struct Claim {
    pub kind: Kind,
    pub hdr: Hdr,
    pub beacon: Vec<H>,
    pub block_root: H,
    pub exec: Vec<H>,
    pub slot: u64,
}

/// Trusted roots.
#[derive(Clone)]
pub struct World {
    pub epochs: Vec<H>,
    pub roots: Vec<H>,
    pub summaries: Vec<H>,
}

impl World {
    pub fn validator(&self, base: &HeaderValidator, r: &mut Rng) -> HeaderValidator {
        let mut v = HeaderValidator::new_with_historical_summaries(
            HistoricalSummaries::new(
                self.summaries
                    .iter()
                    .map(|s| HistoricalSummary { block_summary_root: b(s), state_summary_root: b(&r.array()) })
                    .collect(),
            )
            .expect("few summaries"),
        );
        let _ = base;
        v.pre_merge_acc = PreMergeAccumulator { historical_epochs: self.epochs.iter().map(b).collect::<Vec<_>>().try_into().expect("few epochs") };
        v.historical_roots_acc =
            HistoricalRootsAccumulator { historical_roots: self.roots.iter().map(b).collect::<Vec<_>>().try_into().expect("few roots") };
        v
    }
}

impl Claim {
    pub fn holds(&self, w: &World) -> bool {
        let h = self.hdr.hash();
        let merged = self.hdr.number >= PARIS_BLOCK;
        let shanghai = self.hdr.timestamp >= SHANGHAI_TIME;
        let cancun = self.hdr.timestamp >= CANCUN_TIME;
        let at = |l: &[H], i: u64| usize::try_from(i).ok().and_then(|i| l.get(i).copied());
        match self.kind {
            Kind::Hashes => {
                // hash and total difficulty, 13 levels, number of records
                let idx = (self.hdr.number % PERIOD) * 2;
                !merged && self.beacon.len() == 15 && at(&w.epochs, self.hdr.number / PERIOD) == Some(climb(&h, &self.beacon, idx))
            }
            Kind::Roots => {
                merged
                    && !shanghai
                    && climb(&h, &self.exec, (4 << 8) | (9 << 4) | 12) == self.block_root
                    && at(&w.roots, self.slot / PERIOD) == Some(climb(&self.block_root, &self.beacon, self.slot % PERIOD))
            }
            Kind::Capella | Kind::Deneb => {
                let (times, index) = if self.kind == Kind::Capella {
                    (shanghai && !cancun, (4 << 8) | (9 << 4) | 12)
                } else {
                    (cancun, (4 << 9) | (9 << 5) | 12)
                };
                times
                    && climb(&h, &self.exec, index) == self.block_root
                    && self.slot >= CAPELLA_SLOT
                    && at(&w.summaries, (self.slot - CAPELLA_SLOT) / PERIOD) == Some(climb(&self.block_root, &self.beacon, self.slot % PERIOD))
            }
        }
    }

    pub fn build(&self) -> HeaderWithProof {
        let v = |x: &[H]| x.iter().map(b).collect::<Vec<_>>();
        let proof = match self.kind {
            Kind::Hashes => BlockHeaderProof::HistoricalHashes(FixedVector::new(v(&self.beacon)).expect("15")),
            Kind::Roots => BlockHeaderProof::HistoricalRoots(BlockProofHistoricalRoots {
                beacon_block_proof: FixedVector::new(v(&self.beacon)).expect("14"),
                beacon_block_root: b(&self.block_root),
                execution_block_proof: FixedVector::new(v(&self.exec)).expect("11"),
                slot: self.slot,
            }),
            Kind::Capella => BlockHeaderProof::HistoricalSummariesCapella(BlockProofHistoricalSummariesCapella {
                beacon_block_proof: FixedVector::new(v(&self.beacon)).expect("13"),
                beacon_block_root: b(&self.block_root),
                execution_block_proof: FixedVector::new(v(&self.exec)).expect("11"),
                slot: self.slot,
            }),
            Kind::Deneb => BlockHeaderProof::HistoricalSummariesDeneb(BlockProofHistoricalSummariesDeneb {
                beacon_block_proof: FixedVector::new(v(&self.beacon)).expect("13"),
                beacon_block_root: b(&self.block_root),
                execution_block_proof: FixedVector::new(v(&self.exec)).expect("12"),
                slot: self.slot,
            }),
        };
        HeaderWithProof { header: header(&self.hdr), proof }
    }

    /// Chooses proof elements at random and makes the trusted roots agree with them.
    pub fn anchor(&mut self, w: &mut World) {
        let h = self.hdr.hash();
        match self.kind {
            Kind::Hashes => {
                let root = climb(&h, &self.beacon, (self.hdr.number % PERIOD) * 2);
                if let Some(e) = w.epochs.get_mut((self.hdr.number / PERIOD) as usize) {
                    *e = root;
                }
            }
            Kind::Roots | Kind::Capella | Kind::Deneb => {
                let index = if self.kind == Kind::Deneb { (4 << 9) | (9 << 5) | 12 } else { (4 << 8) | (9 << 4) | 12 };
                self.block_root = climb(&h, &self.exec, index);
                let root = climb(&self.block_root, &self.beacon, self.slot % PERIOD);
                let (list, i) = if self.kind == Kind::Roots {
                    (&mut w.roots, self.slot / PERIOD)
                } else {
                    (&mut w.summaries, self.slot.saturating_sub(CAPELLA_SLOT) / PERIOD)
                };
                if let Some(e) = list.get_mut(i as usize) {
                    *e = root;
                }
            }
        }
    }
}

pub fn siblings(r: &mut Rng, n: usize) -> Vec<H> {
    (0..n).map(|_| r.array()).collect()
}

pub fn sizes(k: Kind) -> (usize, usize) {
    match k {
        Kind::Hashes => (15, 0),
        Kind::Roots => (14, 11),
        Kind::Capella => (13, 11),
        Kind::Deneb => (13, 12),
    }
}

pub fn claim(r: &mut Rng, kind: Kind, w: &World) -> Claim {
    let (n, m) = sizes(kind);
    let era = match kind {
        Kind::Hashes => *r.pick(&[Era::Frontier, Era::London]),
        Kind::Roots => Era::Paris,
        Kind::Capella => Era::Shanghai,
        Kind::Deneb => *r.pick(&[Era::Cancun, Era::Prague]),
    };
    let mut hdr = Hdr::random(r, era);
    match (kind, r.below(4)) {
        (Kind::Hashes, 0) => hdr.number = *r.pick(&[PERIOD - 1, PERIOD, 0, 1, PARIS_BLOCK - 1, LAST_EPOCH * PERIOD, LAST_EPOCH * PERIOD - 1]),
        (Kind::Roots, 0) => hdr.timestamp = SHANGHAI_TIME - 1,
        (Kind::Roots, 1) => hdr.number = PARIS_BLOCK,
        (Kind::Capella, 0) => hdr.timestamp = SHANGHAI_TIME,
        (Kind::Capella, 1) => hdr.timestamp = CANCUN_TIME - 1,
        (Kind::Deneb, 0) => hdr.timestamp = CANCUN_TIME,
        _ => {}
    }
    let period = match r.below(3) {
        0 => 0,
        1 => PERIOD - 1,
        _ => r.below(PERIOD),
    };
    let slot = match kind {
        Kind::Hashes => 0,
        Kind::Roots => r.below(w.roots.len() as u64) * PERIOD + period,
        _ => CAPELLA_SLOT + r.below(w.summaries.len() as u64) * PERIOD + period,
    };
    Claim { kind, hdr, beacon: siblings(r, n), block_root: r.array(), exec: siblings(r, m), slot }
}

pub const LAST_EPOCH: u64 = (PARIS_BLOCK - 1) / PERIOD;

fn judge(c: &mut Ctx, rt: &Runtime, v: &HeaderValidator, w: &World, cl: &Claim, what: &str) {
    let hwp = cl.build();
    let want = cl.holds(w);
    let desc = || {
        format!(
            "{what}: {:?} number {} time {} slot {} roots {} summaries {}",
            cl.kind,
            cl.hdr.number,
            cl.hdr.timestamp,
            cl.slot,
            w.roots.len(),
            w.summaries.len()
        )
    };
    let Some(res) = c.no_panic("validator-panic", desc, || rt.block_on(v.validate_header_with_proof(&hwp))) else {
        c.eval("claim", &(cl.kind, what.to_string(), cl.slot, cl.hdr.hash()));
        return;
    };
    c.eval("claim", &(cl.kind, what.to_string(), cl.slot, cl.hdr.hash()));
    c.event(if want { "accepted claim" } else { "refused claim" });
    let sig = if want { "true-header-refused" } else { "false-header-accepted" };
    c.check(res.is_ok() == want, sig, || format!("{}: {:?}", desc(), res.as_ref().err().map(|e| e.to_string())));
}

fn variants(c: &mut Ctx, rt: &Runtime, r: &mut Rng, v: &HeaderValidator, w: &World, cl: &Claim) {
    judge(c, rt, v, w, cl, "true");
    // every proof element
    for i in 0..cl.beacon.len() {
        let mut m = cl.clone();
        m.beacon[i][r.index(32)] ^= 1 << r.below(8);
        judge(c, rt, v, w, &m, &format!("beacon element {i}"));
    }
    for i in 0..cl.exec.len() {
        let mut m = cl.clone();
        m.exec[i][r.index(32)] ^= 1 << r.below(8);
        judge(c, rt, v, w, &m, &format!("execution element {i}"));
        // with a block root that fits the altered execution part
        let h = m.hdr.hash();
        m.block_root = climb(&h, &m.exec, if m.kind == Kind::Deneb { (4 << 9) | (9 << 5) | 12 } else { (4 << 8) | (9 << 4) | 12 });
        judge(c, rt, v, w, &m, &format!("execution element {i} and block root"));
    }
    // any other header
    let mut m = cl.clone();
    m.hdr.extra = r.bytes(5);
    judge(c, rt, v, w, &m, "other header");
    let mut m = cl.clone();
    m.hdr.number ^= 1 << r.below(14);
    judge(c, rt, v, w, &m, "other number");
    let mut m = cl.clone();
    m.block_root = r.array();
    judge(c, rt, v, w, &m, "other block root");
    // a proof of the same root at another position: index bits of the fixed part
    if cl.kind != Kind::Hashes {
        for i in 0..cl.exec.len() {
            let mut m = cl.clone();
            let h = m.hdr.hash();
            let base: u64 = if m.kind == Kind::Deneb { (4 << 9) | (9 << 5) | 12 } else { (4 << 8) | (9 << 4) | 12 };
            m.block_root = climb(&h, &m.exec, base ^ (1 << i));
            let mut w2 = w.clone();
            let root = climb(&m.block_root, &m.beacon, m.slot % PERIOD);
            let (list, k) = if m.kind == Kind::Roots { (&mut w2.roots, m.slot / PERIOD) } else { (&mut w2.summaries, (m.slot - CAPELLA_SLOT) / PERIOD) };
            list[k as usize] = root;
            let v2 = w2.validator(v, r);
            judge(c, rt, &v2, &w2, &m, &format!("position bit {i}"));
        }
        // right block, wrong place inside the period (the upper half of the tree holds state roots)
        for i in 0..cl.beacon.len() {
            let mut m = cl.clone();
            m.anchor(&mut w.clone());
            let mut w2 = w.clone();
            let root = climb(&m.block_root, &m.beacon, (m.slot % PERIOD) ^ (1 << i));
            let (list, k) = if m.kind == Kind::Roots { (&mut w2.roots, m.slot / PERIOD) } else { (&mut w2.summaries, (m.slot - CAPELLA_SLOT) / PERIOD) };
            list[k as usize] = root;
            let v2 = w2.validator(v, r);
            judge(c, rt, &v2, &w2, &m, &format!("beacon position bit {i}"));
        }
        let edge = if cl.kind == Kind::Roots { w.roots.len() as u64 * PERIOD } else { CAPELLA_SLOT + w.summaries.len() as u64 * PERIOD };
        for s in [
            cl.slot ^ 1,
            cl.slot + PERIOD,
            cl.slot.wrapping_sub(PERIOD),
            edge,
            edge - 1,
            edge + PERIOD * 10,
            u64::MAX,
            u64::MAX - PERIOD + 1,
            0,
            CAPELLA_SLOT - 1,
            CAPELLA_SLOT,
            r.edgy_u64(),
        ] {
            let mut m = cl.clone();
            m.slot = s;
            judge(c, rt, v, w, &m, "other slot");
        }
        // times of another fork with everything else in order
        for t in [0, SHANGHAI_TIME - 1, SHANGHAI_TIME, CANCUN_TIME - 1, CANCUN_TIME, u64::MAX] {
            let mut m = cl.clone();
            m.hdr.timestamp = t;
            let mut w2 = w.clone();
            m.anchor(&mut w2);
            let v2 = w2.validator(v, r);
            judge(c, rt, &v2, &w2, &m, "other time, proof in order");
        }
        for n in [0, PARIS_BLOCK - 1, PARIS_BLOCK, u64::MAX] {
            let mut m = cl.clone();
            m.hdr.number = n;
            let mut w2 = w.clone();
            m.anchor(&mut w2);
            let v2 = w2.validator(v, r);
            judge(c, rt, &v2, &w2, &m, "other number, proof in order");
        }
    } else {
        for n in [cl.hdr.number ^ 1, cl.hdr.number ^ 4096, cl.hdr.number + PERIOD, PARIS_BLOCK - 1, PARIS_BLOCK, PARIS_BLOCK + 1, u64::MAX, (LAST_EPOCH + 1) * PERIOD] {
            let mut m = cl.clone();
            m.hdr.number = n;
            judge(c, rt, v, w, &m, "other number");
            if n < (LAST_EPOCH + 1) * PERIOD {
                let mut w2 = w.clone();
                m.anchor(&mut w2);
                let v2 = w2.validator(v, r);
                judge(c, rt, &v2, &w2, &m, "other number, proof in order");
            }
        }
        // the position of the header inside the record and of the length
        for i in 0..15u64 {
            let mut w2 = w.clone();
            w2.epochs[(cl.hdr.number / PERIOD) as usize] = climb(&cl.hdr.hash(), &cl.beacon, ((cl.hdr.number % PERIOD) * 2) ^ (1 << i));
            let v2 = w2.validator(v, r);
            judge(c, rt, &v2, &w2, cl, &format!("position bit {i}"));
        }
    }
}

/// Proofs built for headers of an epoch are the ones the validator accepts.
fn constructed(c: &mut Ctx, rt: &Runtime, r: &mut Rng, len: usize, v: &HeaderValidator, w: &World) {
    let epoch = r.below(LAST_EPOCH + 1);
    let mut records: Vec<(H, H)> = (0..len)
        .map(|_| {
            let mut td = [0u8; 32];
            let n = r.index(33);
            r.fill(&mut td[..n]);
            (r.array(), td)
        })
        .collect();
    let mut picks = vec![0, len - 1, r.index(len), r.index(len)];
    picks.dedup();
    for i in picks {
        let mut hdr = Hdr::random(r, Era::Frontier);
        hdr.number = epoch * PERIOD + i as u64;
        if hdr.number >= PARIS_BLOCK {
            continue;
        }
        records[i].0 = hdr.hash();
        let leaves: Vec<H> = records.iter().map(|(h, td)| sha2(h, td)).collect();
        let root = ossz::mix_in_length(&ossz::merkleize(&leaves, 13), len);
        let mut want = vec![records[i].1];
        want.extend(ossz::merkle_proof(&leaves, 13, i));
        let mut n = [0u8; 32];
        n[..8].copy_from_slice(&(len as u64).to_le_bytes());
        want.push(n);
        let acc: EpochAccumulator = records
            .iter()
            .map(|(h, td)| HeaderRecord { block_hash: b(h), total_difficulty: U256::from_le_bytes(*td) })
            .collect::<Vec<_>>()
            .try_into()
            .expect("at most 8192");
        let got = PreMergeAccumulator::construct_proof(&header(&hdr), &acc);
        c.eval("constructed proof", &(len, i, epoch));
        let what = || format!("record {i} of {len} in epoch {epoch}");
        match got {
            Ok(p) => {
                let p: Vec<H> = p.iter().map(|x| x.0).collect();
                c.check(p == want, "constructed-proof", what);
                let mut w2 = w.clone();
                w2.epochs[epoch as usize] = root;
                let v2 = w2.validator(v, r);
                let cl = Claim { kind: Kind::Hashes, hdr: hdr.clone(), beacon: p, block_root: [0; 32], exec: vec![], slot: 0 };
                judge(c, rt, &v2, &w2, &cl, "constructed");
            }
            Err(e) => c.violation("constructed-proof", format!("{}: {e}", what())),
        }
        // a header that is not in the epoch gets no proof
        let mut other = hdr.clone();
        other.extra = r.bytes(7);
        if other.hash() != hdr.hash() {
            c.check(PreMergeAccumulator::construct_proof(&header(&other), &acc).is_err(), "proof-for-foreign-header", what);
        }
    }
}

/// The embedded trusted data, hashed independently.
fn embedded(c: &mut Ctx) {
    use ssz::Encode;
    let acc = PreMergeAccumulator::default();
    let roots: Vec<H> = acc.historical_epochs.iter().map(|x| x.0).collect();
    let root = ossz::root_container(&[ossz::root_list(&roots, 131_072)]);
    c.eval("embedded data", &0);
    c.check_eq(&hex(&root), &"8eac399e24480dce3cfe06f4bdecba51c6e5d0c46200e3e8611a0b44a3a69ff9".to_string(), "trusted-epochs", || {
        format!("{} epochs", roots.len())
    });
    use tree_hash::TreeHash;
    c.check_eq(&hex(&acc.tree_hash_root().0), &hex(&root), "trusted-epochs-root", || String::new());
    let hr = HistoricalRootsAccumulator::default();
    let roots: Vec<H> = hr.historical_roots.iter().map(|x| x.0).collect();
    let root = ossz::root_list(&roots, 1 << 24);
    c.eval("embedded data", &1);
    c.check_eq(&hex(&root), &"4df6b89755125d4f6c5575039a04e22301a5a49ee893c1d27e559e3eeab73da7".to_string(), "trusted-roots", || {
        format!("{} roots", roots.len())
    });
    c.check_eq(&hex(&hr.tree_hash_root().0), &hex(&root), "trusted-roots-root", || String::new());
    c.check_eq(&hr.as_ssz_bytes(), &roots.concat(), "trusted-roots-bytes", || String::new());
}

/// Recorded epochs and headers of mainnet against the embedded accumulator.
fn recorded(c: &mut Ctx, rt: &Runtime) {
    let v = HeaderValidator::new_with_historical_summaries(HistoricalSummaries::default());
    let Ok(dir) = std::fs::read_dir("/repo/crates/validation/src/assets/epoch_accs") else { return };
    use ssz::Decode;
    let known: Vec<H> = v.pre_merge_acc.historical_epochs.iter().map(|x| x.0).collect();
    for f in dir.flatten() {
        let raw = std::fs::read(f.path()).unwrap_or_default();
        let Ok(acc) = EpochAccumulator::from_ssz_bytes(&raw) else {
            c.violation("recorded-epoch-unreadable", format!("{:?}", f.path()));
            continue;
        };
        let leaves: Vec<H> = raw.chunks(64).map(|x| sha2(x[..32].try_into().unwrap(), x[32..].try_into().unwrap())).collect();
        let root = ossz::mix_in_length(&ossz::merkleize(&leaves, 13), leaves.len());
        let Some(e) = known.iter().position(|k| *k == root) else { continue };
        c.event("recorded epoch");
        use tree_hash::TreeHash;
        c.check_eq(&hex(&acc.tree_hash_root().0), &hex(&root), "epoch-root", || format!("{e}"));
        // No recorded header has to be at hand: a made-up header never fits a recorded epoch.
        let mut r = c.rng.fork("recorded");
        for _ in 0..3 {
            let i = r.index(leaves.len());
            let mut hdr = Hdr::random(&mut r, Era::Frontier);
            hdr.number = e as u64 * PERIOD + i as u64;
            if hdr.number >= PARIS_BLOCK {
                continue;
            }
            c.check(PreMergeAccumulator::construct_proof(&header(&hdr), &acc).is_err(), "proof-for-foreign-header", || format!("epoch {e} record {i}"));
            let mut n = [0u8; 32];
            n[..8].copy_from_slice(&(leaves.len() as u64).to_le_bytes());
            let mut p: Vec<H> = vec![raw[i * 64 + 32..i * 64 + 64].try_into().unwrap()];
            p.extend(ossz::merkle_proof(&leaves, 13, i));
            p.push(n);
            let cl = Claim { kind: Kind::Hashes, hdr, beacon: p, block_root: [0; 32], exec: vec![], slot: 0 };
            let w = World { epochs: known.clone(), roots: vec![], summaries: vec![] };
            judge(c, rt, &v, &w, &cl, "made-up header in a recorded epoch");
        }
    }
}

pub fn header_proofs(c: &mut Ctx) {
    c.rule("a header is accepted exactly when an independent climb from its hash through the given siblings at the prescribed positions reaches the trusted root for its era and period");
    let rt = crate::rt();
    embedded(c);
    recorded(c, &rt);
    for i in 0..c.n(200, 6000) {
        let mut r = c.rng.fork(&format!("claim{i}"));
        let mut w = World {
            epochs: (0..=LAST_EPOCH).map(|_| r.array()).collect(),
            roots: (0..r.range(1, 800)).map(|_| r.array()).collect(),
            summaries: (0..r.range(1, 60)).map(|_| r.array()).collect(),
        };
        let kind = KINDS[(i % 4) as usize];
        let mut cl = claim(&mut r, kind, &w);
        cl.anchor(&mut w);
        let base = HeaderValidator::new_with_historical_summaries(HistoricalSummaries::default());
        let v = w.validator(&base, &mut r);
        if i < 4 {
            c.sample("claim", || json!({"kind": format!("{kind:?}"), "slot": cl.slot, "number": cl.hdr.number}));
        }
        variants(c, &rt, &mut r, &v, &w, &cl);
        if i % 10 == 0 {
            let len = *r.pick(&[1usize, 2, 3, 5, 100, 4096, 4097, 8191, 8192]);
            constructed(c, &rt, &mut r, len, &v, &w);
        }
        if c.saturated() {
            break;
        }
    }
    c.require("accepted claim", 50);
    c.require("refused claim", 500);
    c.require("constructed proof", 5);
}
