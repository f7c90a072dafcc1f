//! Descriptions of SSZ types as the consensus specification gives them, with generation of random
//! values, serialization and hash tree roots that follow the description.
use super::{
    ssz::{self, Part},
    H,
};
use vcommon::Rng;

#[derive(Clone, Debug)]
pub enum T {
    Bool,
    U8,
    U64,
    U256,
    /// Fixed byte vector.
    B(usize),
    /// Byte list with limit.
    BL(usize),
    BitV(usize),
    BitL(usize),
    Vector(Box<T>, usize),
    /// List with limit given as a power of two exponent for big ones.
    List(Box<T>, usize),
    C(Vec<(&'static str, T)>),
}
use T::*;

#[derive(Clone, Debug, PartialEq)]
pub enum V {
    Raw(Vec<u8>),
    Bits(Vec<bool>),
    Items(Vec<V>),
}

impl V {
    pub fn item(&self, i: usize) -> &V {
        match self {
            V::Items(v) => &v[i],
            _ => panic!("not a composite"),
        }
    }
    pub fn raw(&self) -> &[u8] {
        match self {
            V::Raw(b) => b,
            _ => panic!("not raw"),
        }
    }
}

impl T {
    pub fn field(&self, name: &str) -> usize {
        match self {
            C(f) => f.iter().position(|(n, _)| *n == name).expect("field"),
            _ => panic!("not a container"),
        }
    }
    pub fn ty(&self, name: &str) -> &T {
        match self {
            C(f) => &f[self.field(name)].1,
            _ => panic!("not a container"),
        }
    }

    pub fn fixed_len(&self) -> Option<usize> {
        match self {
            Bool | U8 => Some(1),
            U64 => Some(8),
            U256 => Some(32),
            B(n) => Some(*n),
            BL(_) | BitL(_) | List(..) => None,
            BitV(n) => Some(n.div_ceil(8)),
            Vector(t, n) => t.fixed_len().map(|l| l * n),
            C(f) => f.iter().map(|(_, t)| t.fixed_len()).sum(),
        }
    }

    fn basic(&self) -> bool {
        matches!(self, Bool | U8 | U64 | U256)
    }

    /// Random value; `size` bounds the length of lists.
    pub fn gen(&self, r: &mut Rng, size: usize) -> V {
        match self {
            Bool => V::Raw(vec![r.bool() as u8]),
            U8 => V::Raw(vec![r.u8()]),
            U64 => V::Raw(r.edgy_u64().to_le_bytes().to_vec()),
            U256 => V::Raw(if r.chance(1, 8) { vec![*r.pick(&[0, 255]); 32] } else { r.bytes(32) }),
            B(n) => V::Raw(r.bytes(*n)),
            BL(limit) => {
                let top = (*limit).min(size * 16);
                let n = *r.pick(&[0, 1, top.min(31), top.min(32), top.min(33), top]);
                let n = if r.bool() { n } else { r.usize_in(0, top) };
                V::Raw(r.bytes(n))
            }
            BitV(n) => V::Bits((0..*n).map(|_| r.bool()).collect()),
            BitL(limit) => {
                let top = (*limit).min(size * 20);
                let n = *r.pick(&[0, 1, top.min(7), top.min(8), top.min(9), top]);
                V::Bits((0..n).map(|_| r.bool()).collect())
            }
            Vector(t, n) => V::Items((0..*n).map(|_| t.gen(r, size)).collect()),
            List(t, limit) => {
                let top = (*limit).min(size);
                let n = if r.chance(1, 4) { top } else { r.usize_in(0, top) };
                V::Items((0..n).map(|_| t.gen(r, size)).collect())
            }
            C(f) => V::Items(f.iter().map(|(_, t)| t.gen(r, size)).collect()),
        }
    }

    pub fn ser(&self, v: &V) -> Vec<u8> {
        match (self, v) {
            (BitV(_), V::Bits(b)) => bits(b, false),
            (BitL(_), V::Bits(b)) => bits(b, true),
            (Vector(t, _), V::Items(i)) | (List(t, _), V::Items(i)) => {
                let parts: Vec<Vec<u8>> = i.iter().map(|x| t.ser(x)).collect();
                if t.fixed_len().is_some() {
                    parts.concat()
                } else {
                    ssz::var_list(&parts)
                }
            }
            (C(f), V::Items(i)) => {
                let parts: Vec<Part> = f
                    .iter()
                    .zip(i)
                    .map(|((_, t), x)| {
                        if t.fixed_len().is_some() {
                            Part::Fixed(t.ser(x))
                        } else {
                            Part::Var(t.ser(x))
                        }
                    })
                    .collect();
                ssz::container(&parts)
            }
            (_, V::Raw(b)) => b.clone(),
            _ => panic!("value does not fit its description"),
        }
    }

    /// The value the way the beacon API writes it: numbers as decimal strings, bytes as hex.
    pub fn json(&self, v: &V) -> vcommon::Value {
        use vcommon::json;
        match (self, v) {
            (Bool, V::Raw(b)) => json!(b[0] != 0),
            (U8 | U64 | U256, V::Raw(b)) => json!(decimal(b)),
            (B(_) | BL(_), V::Raw(b)) => json!(format!("0x{}", vcommon::hex(b))),
            (BitV(_), V::Bits(b)) => json!(format!("0x{}", vcommon::hex(&bits(b, false)))),
            (BitL(_), V::Bits(b)) => json!(format!("0x{}", vcommon::hex(&bits(b, true)))),
            (Vector(t, _) | List(t, _), V::Items(i)) => i.iter().map(|x| t.json(x)).collect(),
            (C(f), V::Items(i)) => {
                let mut m = json!({});
                for ((n, t), x) in f.iter().zip(i) {
                    m[*n] = t.json(x);
                }
                m
            }
            _ => panic!("value does not fit its description"),
        }
    }

    pub fn root(&self, v: &V) -> H {
        match (self, v) {
            (Bool | U8 | U64 | U256, V::Raw(b)) => ssz::pack(b)[0],
            (B(_), V::Raw(b)) => ssz::root_bytes(b),
            (BL(limit), V::Raw(b)) => ssz::root_byte_list(b, *limit),
            (BitV(n), V::Bits(b)) => {
                let c = ssz::pack(&bits(b, false));
                ssz::merkleize(&c, ssz::depth_of(n.div_ceil(256)))
            }
            (BitL(limit), V::Bits(b)) => {
                let c = ssz::pack(&bits(b, false));
                ssz::mix_in_length(&ssz::merkleize(&c, ssz::depth_of(limit.div_ceil(256))), b.len())
            }
            (Vector(t, n), V::Items(i)) => {
                if t.basic() {
                    let c = ssz::pack(&self.ser(v));
                    ssz::merkleize(&c, ssz::depth_of((n * t.fixed_len().unwrap()).div_ceil(32)))
                } else {
                    let c: Vec<H> = i.iter().map(|x| t.root(x)).collect();
                    ssz::merkleize(&c, ssz::depth_of(*n))
                }
            }
            (List(t, limit), V::Items(i)) => {
                let r = if t.basic() {
                    let c = ssz::pack(&i.iter().flat_map(|x| t.ser(x)).collect::<Vec<_>>());
                    ssz::merkleize(&c, ssz::depth_of((limit * t.fixed_len().unwrap()).div_ceil(32)))
                } else {
                    let c: Vec<H> = i.iter().map(|x| t.root(x)).collect();
                    ssz::merkleize(&c, ssz::depth_of(*limit))
                };
                ssz::mix_in_length(&r, i.len())
            }
            (C(_), V::Items(_)) => ssz::root_container(&self.field_roots(v)),
            _ => panic!("value does not fit its description"),
        }
    }

    pub fn field_roots(&self, v: &V) -> Vec<H> {
        match (self, v) {
            (C(f), V::Items(i)) => f.iter().zip(i).map(|((_, t), x)| t.root(x)).collect(),
            _ => panic!("not a container"),
        }
    }

    /// Branch proving a field of a container, deepest sibling first.
    pub fn field_proof(&self, v: &V, name: &str) -> Vec<H> {
        let roots = self.field_roots(v);
        ssz::merkle_proof(&roots, ssz::depth_of(roots.len()), self.field(name))
    }
}

/// Little endian bytes as a decimal number.
fn decimal(b: &[u8]) -> String {
    let mut n: Vec<u8> = b.iter().rev().copied().collect();
    let mut out = vec![];
    while n.iter().any(|x| *x != 0) {
        let mut rest = 0u32;
        for x in n.iter_mut() {
            let cur = rest * 256 + *x as u32;
            *x = (cur / 10) as u8;
            rest = cur % 10;
        }
        out.push(b'0' + rest as u8);
    }
    if out.is_empty() {
        out.push(b'0');
    }
    out.reverse();
    String::from_utf8(out).unwrap()
}

fn bits(b: &[bool], delimiter: bool) -> Vec<u8> {
    let n = b.len() + delimiter as usize;
    let mut out = vec![0u8; n.div_ceil(8)];
    for (i, x) in b.iter().enumerate() {
        if *x {
            out[i / 8] |= 1 << (i % 8);
        }
    }
    if delimiter {
        out[b.len() / 8] |= 1 << (b.len() % 8);
    }
    out
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub enum Fork {
    Bellatrix,
    Capella,
    Deneb,
    Electra,
}
pub const FORKS: [Fork; 4] = [Fork::Bellatrix, Fork::Capella, Fork::Deneb, Fork::Electra];

impl Fork {
    pub fn digest(self) -> [u8; 4] {
        match self {
            Fork::Bellatrix => [0x4a, 0x26, 0xc5, 0x8b],
            Fork::Capella => [0xbb, 0xa4, 0xda, 0x96],
            Fork::Deneb => [0x6a, 0x95, 0xa1, 0xa9],
            Fork::Electra => [0xad, 0x53, 0x2c, 0xeb],
        }
    }
}

fn list(t: T, limit: usize) -> T {
    List(Box::new(t), limit)
}
fn vector(t: T, n: usize) -> T {
    Vector(Box::new(t), n)
}

pub fn beacon_block_header() -> T {
    C(vec![
        ("slot", U64),
        ("proposer_index", U64),
        ("parent_root", B(32)),
        ("state_root", B(32)),
        ("body_root", B(32)),
    ])
}

fn payload_head() -> Vec<(&'static str, T)> {
    vec![
        ("parent_hash", B(32)),
        ("fee_recipient", B(20)),
        ("state_root", B(32)),
        ("receipts_root", B(32)),
        ("logs_bloom", B(256)),
        ("prev_randao", B(32)),
        ("block_number", U64),
        ("gas_limit", U64),
        ("gas_used", U64),
        ("timestamp", U64),
        ("extra_data", BL(32)),
        ("base_fee_per_gas", U256),
        ("block_hash", B(32)),
    ]
}

pub fn withdrawal() -> T {
    C(vec![("index", U64), ("validator_index", U64), ("address", B(20)), ("amount", U64)])
}

pub fn execution_payload(f: Fork) -> T {
    let mut p = payload_head();
    p.push(("transactions", list(BL(1 << 30), 1 << 20)));
    if f >= Fork::Capella {
        p.push(("withdrawals", list(withdrawal(), 16)));
    }
    if f >= Fork::Deneb {
        p.push(("blob_gas_used", U64));
        p.push(("excess_blob_gas", U64));
    }
    C(p)
}

pub fn execution_payload_header(f: Fork) -> T {
    let mut p = payload_head();
    p.push(("transactions_root", B(32)));
    if f >= Fork::Capella {
        p.push(("withdrawals_root", B(32)));
    }
    if f >= Fork::Deneb {
        p.push(("blob_gas_used", U64));
        p.push(("excess_blob_gas", U64));
    }
    C(p)
}

pub fn checkpoint() -> T {
    C(vec![("epoch", U64), ("root", B(32))])
}
pub fn eth1_data() -> T {
    C(vec![("deposit_root", B(32)), ("deposit_count", U64), ("block_hash", B(32))])
}
pub fn attestation_data() -> T {
    C(vec![
        ("slot", U64),
        ("index", U64),
        ("beacon_block_root", B(32)),
        ("source", checkpoint()),
        ("target", checkpoint()),
    ])
}
pub fn indexed_attestation(f: Fork) -> T {
    let limit = if f >= Fork::Electra { 131072 } else { 2048 };
    C(vec![
        ("attesting_indices", list(U64, limit)),
        ("data", attestation_data()),
        ("signature", B(96)),
    ])
}
pub fn attestation(f: Fork) -> T {
    if f >= Fork::Electra {
        C(vec![
            ("aggregation_bits", BitL(131072)),
            ("data", attestation_data()),
            ("signature", B(96)),
            ("committee_bits", BitV(64)),
        ])
    } else {
        C(vec![
            ("aggregation_bits", BitL(2048)),
            ("data", attestation_data()),
            ("signature", B(96)),
        ])
    }
}
fn signed(message: T) -> T {
    C(vec![("message", message), ("signature", B(96))])
}
pub fn deposit_data() -> T {
    C(vec![
        ("pubkey", B(48)),
        ("withdrawal_credentials", B(32)),
        ("amount", U64),
        ("signature", B(96)),
    ])
}
pub fn sync_aggregate() -> T {
    C(vec![("sync_committee_bits", BitV(512)), ("sync_committee_signature", B(96))])
}
pub fn sync_committee() -> T {
    C(vec![("pubkeys", vector(B(48), 512)), ("aggregate_pubkey", B(48))])
}
pub fn execution_requests() -> T {
    C(vec![
        (
            "deposits",
            list(
                C(vec![
                    ("pubkey", B(48)),
                    ("withdrawal_credentials", B(32)),
                    ("amount", U64),
                    ("signature", B(96)),
                    ("index", U64),
                ]),
                8192,
            ),
        ),
        (
            "withdrawals",
            list(
                C(vec![("source_address", B(20)), ("validator_pubkey", B(48)), ("amount", U64)]),
                16,
            ),
        ),
        (
            "consolidations",
            list(
                C(vec![("source_address", B(20)), ("source_pubkey", B(48)), ("target_pubkey", B(48))]),
                2,
            ),
        ),
    ])
}

pub fn beacon_block_body(f: Fork) -> T {
    let slashing = C(vec![
        ("signed_header_1", signed(beacon_block_header())),
        ("signed_header_2", signed(beacon_block_header())),
    ]);
    let attester = C(vec![
        ("attestation_1", indexed_attestation(f)),
        ("attestation_2", indexed_attestation(f)),
    ]);
    let electra = f >= Fork::Electra;
    let mut b = vec![
        ("randao_reveal", B(96)),
        ("eth1_data", eth1_data()),
        ("graffiti", B(32)),
        ("proposer_slashings", list(slashing, 16)),
        ("attester_slashings", list(attester, if electra { 1 } else { 2 })),
        ("attestations", list(attestation(f), if electra { 8 } else { 128 })),
        (
            "deposits",
            list(C(vec![("proof", vector(B(32), 33)), ("data", deposit_data())]), 16),
        ),
        (
            "voluntary_exits",
            list(signed(C(vec![("epoch", U64), ("validator_index", U64)])), 16),
        ),
        ("sync_aggregate", sync_aggregate()),
        ("execution_payload", execution_payload(f)),
    ];
    if f >= Fork::Capella {
        b.push((
            "bls_to_execution_changes",
            list(
                signed(C(vec![
                    ("validator_index", U64),
                    ("from_bls_pubkey", B(48)),
                    ("to_execution_address", B(20)),
                ])),
                16,
            ),
        ));
    }
    if f >= Fork::Deneb {
        b.push(("blob_kzg_commitments", list(B(48), 4096)));
    }
    if electra {
        b.push(("execution_requests", execution_requests()));
    }
    C(b)
}

pub fn beacon_block(f: Fork) -> T {
    C(vec![
        ("slot", U64),
        ("proposer_index", U64),
        ("parent_root", B(32)),
        ("state_root", B(32)),
        ("body", beacon_block_body(f)),
    ])
}
pub fn signed_beacon_block(f: Fork) -> T {
    signed(beacon_block(f))
}

pub fn historical_summaries() -> T {
    list(C(vec![("block_summary_root", B(32)), ("state_summary_root", B(32))]), 1 << 24)
}
pub fn historical_summaries_with_proof() -> T {
    C(vec![
        ("epoch", U64),
        ("historical_summaries", historical_summaries()),
        ("proof", vector(B(32), 6)),
    ])
}
pub fn historical_batch() -> T {
    C(vec![("block_roots", vector(B(32), 8192)), ("state_roots", vector(B(32), 8192))])
}

pub fn beacon_state(f: Fork) -> T {
    let v = 1usize << 40;
    let validator = C(vec![
        ("pubkey", B(48)),
        ("withdrawal_credentials", B(32)),
        ("effective_balance", U64),
        ("slashed", Bool),
        ("activation_eligibility_epoch", U64),
        ("activation_epoch", U64),
        ("exit_epoch", U64),
        ("withdrawable_epoch", U64),
    ]);
    let mut s = vec![
        ("genesis_time", U64),
        ("genesis_validators_root", B(32)),
        ("slot", U64),
        (
            "fork",
            C(vec![("previous_version", B(4)), ("current_version", B(4)), ("epoch", U64)]),
        ),
        ("latest_block_header", beacon_block_header()),
        ("block_roots", vector(B(32), 8192)),
        ("state_roots", vector(B(32), 8192)),
        ("historical_roots", list(B(32), 1 << 24)),
        ("eth1_data", eth1_data()),
        ("eth1_data_votes", list(eth1_data(), 2048)),
        ("eth1_deposit_index", U64),
        ("validators", list(validator, v)),
        ("balances", list(U64, v)),
        ("randao_mixes", vector(B(32), 65536)),
        ("slashings", vector(U64, 8192)),
        ("previous_epoch_participation", list(U8, v)),
        ("current_epoch_participation", list(U8, v)),
        ("justification_bits", BitV(4)),
        ("previous_justified_checkpoint", checkpoint()),
        ("current_justified_checkpoint", checkpoint()),
        ("finalized_checkpoint", checkpoint()),
        ("inactivity_scores", list(U64, v)),
        ("current_sync_committee", sync_committee()),
        ("next_sync_committee", sync_committee()),
        ("latest_execution_payload_header", execution_payload_header(f)),
    ];
    if f >= Fork::Capella {
        s.push(("next_withdrawal_index", U64));
        s.push(("next_withdrawal_validator_index", U64));
        s.push(("historical_summaries", historical_summaries()));
    }
    if f >= Fork::Electra {
        s.push(("deposit_requests_start_index", U64));
        s.push(("deposit_balance_to_consume", U64));
        s.push(("exit_balance_to_consume", U64));
        s.push(("earliest_exit_epoch", U64));
        s.push(("consolidation_balance_to_consume", U64));
        s.push(("earliest_consolidation_epoch", U64));
        s.push((
            "pending_deposits",
            list(
                C(vec![
                    ("pubkey", B(48)),
                    ("withdrawal_credentials", B(32)),
                    ("amount", U64),
                    ("signature", B(96)),
                    ("slot", U64),
                ]),
                1 << 27,
            ),
        ));
        s.push((
            "pending_partial_withdrawals",
            list(
                C(vec![("validator_index", U64), ("amount", U64), ("withdrawable_epoch", U64)]),
                1 << 27,
            ),
        ));
        s.push((
            "pending_consolidations",
            list(C(vec![("source_index", U64), ("target_index", U64)]), 1 << 18),
        ));
    }
    C(s)
}

pub fn lc_header(f: Fork) -> T {
    let mut h = vec![("beacon", beacon_block_header())];
    if f >= Fork::Capella {
        h.push(("execution", execution_payload_header(f)));
        h.push(("execution_branch", vector(B(32), 4)));
    }
    C(h)
}
pub fn lc_bootstrap(f: Fork) -> T {
    let d = if f >= Fork::Electra { 6 } else { 5 };
    C(vec![
        ("header", lc_header(f)),
        ("current_sync_committee", sync_committee()),
        ("current_sync_committee_branch", vector(B(32), d)),
    ])
}
pub fn lc_update(f: Fork) -> T {
    let e = (f >= Fork::Electra) as usize;
    C(vec![
        ("attested_header", lc_header(f)),
        ("next_sync_committee", sync_committee()),
        ("next_sync_committee_branch", vector(B(32), 5 + e)),
        ("finalized_header", lc_header(f)),
        ("finality_branch", vector(B(32), 6 + e)),
        ("sync_aggregate", sync_aggregate()),
        ("signature_slot", U64),
    ])
}
pub fn lc_finality_update(f: Fork) -> T {
    let e = (f >= Fork::Electra) as usize;
    C(vec![
        ("attested_header", lc_header(f)),
        ("finalized_header", lc_header(f)),
        ("finality_branch", vector(B(32), 6 + e)),
        ("sync_aggregate", sync_aggregate()),
        ("signature_slot", U64),
    ])
}
pub fn lc_optimistic_update(f: Fork) -> T {
    C(vec![
        ("attested_header", lc_header(f)),
        ("sync_aggregate", sync_aggregate()),
        ("signature_slot", U64),
    ])
}
