//! Objects of the light client protocol, honest and spoiled, for the code under test.
use std::{collections::HashMap, sync::{Arc, Mutex}};

use alloy::primitives::{FixedBytes, B256};
use anyhow::anyhow;
use async_trait::async_trait;
use ethportal_api::consensus::{
    header::BeaconBlockHeader, sync_committee::SyncCommittee,
};
use ethportal_api::light_client::store::LightClientStore;
use light_client::{
    config::{client_config::Config, Network},
    consensus::{
        rpc::ConsensusRpc,
        types::{
            GenericUpdate, LightClientBootstrapElectra, LightClientFinalityUpdateElectra,
            LightClientOptimisticUpdateElectra, LightClientUpdateElectra,
        },
    },
};
use oracle::{
    lc::{Boot, Chain, Committee, Head, Rules, Store, Update, PERIOD},
    schema,
};
use ssz::Decode;
use vcommon::Rng;

fn sign(keys: &[[u8; 48]], msg: &[u8]) -> [u8; 96] {
    let keys: Vec<_> = keys.iter().map(|k| milagro_bls::PublicKey::from_bytes_unchecked(k).expect("key")).collect();
    milagro_bls::sign(&keys.iter().collect::<Vec<_>>(), msg)
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Net {
    Mainnet,
    Sepolia,
}
impl Net {
    pub fn genesis_time(self) -> u64 {
        match self {
            Net::Mainnet => 1606824023,
            Net::Sepolia => 1655733600,
        }
    }
    pub fn code(self) -> Network {
        match self {
            Net::Mainnet => Network::Mainnet,
            Net::Sepolia => Network::Sepolia,
        }
    }
    /// First epoch and version of each fork.
    fn forks(self) -> Vec<(u64, [u8; 4])> {
        match self {
            Net::Mainnet => vec![
                (0, [0; 4]),
                (74_240, [1, 0, 0, 0]),
                (144_896, [2, 0, 0, 0]),
                (194_048, [3, 0, 0, 0]),
                (269_568, [4, 0, 0, 0]),
                (364_032, [5, 0, 0, 0]),
            ],
            Net::Sepolia => [(0, 0x69), (50, 0x70), (100, 0x71), (56_832, 0x72), (132_608, 0x73), (222_464, 0x74)]
                .iter()
                .map(|(e, v)| (*e, [0x90, 0, 0, *v]))
                .collect(),
        }
    }
    fn genesis(self) -> [u8; 32] {
        let h = match self {
            Net::Mainnet => "4b363db94e286120d76eb905340fdd4e54bfe9f06bf33ff6cf5ad27f511bfe95",
            Net::Sepolia => "d8ea171f3c94aea21ebc42a1ed61052acf3f9209c00e4efbaaddac09ed9b8078",
        };
        vcommon::unhex(h).try_into().unwrap()
    }
    pub fn id(self) -> u64 {
        match self {
            Net::Mainnet => 1,
            Net::Sepolia => 11155111,
        }
    }
    pub fn electra_slot(self) -> u64 {
        self.forks()[5].0 * 32
    }
    pub fn rules(self) -> Rules {
        Rules { genesis: self.genesis(), forks: self.forks(), sign }
    }
    pub fn time_of(self, slot: u64) -> u64 {
        self.genesis_time() + slot * 12
    }
    pub fn config(self) -> Config {
        let b = self.code().to_base_config();
        Config {
            chain: b.chain,
            forks: b.forks,
            max_checkpoint_age: b.max_checkpoint_age,
            default_checkpoint: b.default_checkpoint,
            ..Default::default()
        }
    }
}
/// A chain with committees for some periods around `first`.
pub fn chain(r: &mut Rng, net: Net, first: u64, periods: usize) -> Chain {
    Chain { rules: net.rules(), first, committees: (0..periods).map(|_| Committee::random(r)).collect() }
}

pub fn header(h: &Head) -> BeaconBlockHeader {
    BeaconBlockHeader::from_ssz_bytes(&schema::beacon_block_header().ser(&h.beacon())).expect("header")
}
pub fn committee(c: &Committee) -> SyncCommittee {
    SyncCommittee::from_ssz_bytes(&schema::sync_committee().ser(&c.value())).expect("committee")
}
pub fn store(s: &Store) -> LightClientStore {
    LightClientStore {
        finalized_header: header(&s.finalized),
        current_sync_committee: committee(&s.current),
        next_sync_committee: s.next.as_ref().map(|c| committee(c)),
        optimistic_header: header(&s.optimistic),
        previous_max_active_participants: s.previous_max,
        current_max_active_participants: s.current_max,
    }
}
pub fn boot(b: &Boot) -> LightClientBootstrapElectra {
    LightClientBootstrapElectra::from_ssz_bytes(&b.ssz()).expect("bootstrap")
}
pub fn full(u: &Update) -> LightClientUpdateElectra {
    LightClientUpdateElectra::from_ssz_bytes(&u.ssz()).expect("update")
}
pub fn finality(u: &Update) -> LightClientFinalityUpdateElectra {
    LightClientFinalityUpdateElectra::from_ssz_bytes(&u.ssz()).expect("finality update")
}
pub fn optimistic(u: &Update) -> LightClientOptimisticUpdateElectra {
    LightClientOptimisticUpdateElectra::from_ssz_bytes(&u.ssz()).expect("optimistic update")
}
pub fn generic(u: &Update) -> GenericUpdate {
    match (&u.next, &u.finalized) {
        (Some(_), Some(_)) => (&full(u)).into(),
        (None, Some(_)) => (&finality(u)).into(),
        _ => (&optimistic(u)).into(),
    }
}
pub fn version(v: [u8; 4]) -> FixedBytes<4> {
    FixedBytes::<4>::from(v)
}

/// How many of 512 take part, with the deciding numbers likely.
pub fn participants(r: &mut Rng) -> usize {
    match r.below(8) {
        0 => *r.pick(&[1, 2, 340, 341, 342, 343, 511, 512]),
        1 => r.usize_in(1, 341),
        _ => r.usize_in(342, 512),
    }
}
/// A slot near an edge of a period, or anywhere in it.
pub fn slot_in(r: &mut Rng, p: u64) -> u64 {
    let at = p * PERIOD;
    match r.below(6) {
        0 => at + r.below(3),
        1 => at + PERIOD - 1 - r.below(3),
        2 => at + r.below(PERIOD / 32) * 32,
        _ => at + r.below(PERIOD),
    }
}
pub const SPOILS: usize = 22;
/// Alters one thing about an update; what that does to its validity is for the rules to say.
pub fn spoil(r: &mut Rng, c: &Chain, u: &mut Update, how: usize) {
    let flip = |r: &mut Rng, h: &mut [u8]| {
        let i = r.index(h.len());
        h[i] ^= 1 << r.below(8);
    };
    let by = c.committee(u.signature_slot / PERIOD);
    match how {
        0 => u.bits = vec![false; 512],
        1 => flip(r, &mut u.signature[1..]),
        2 => {
            let i = r.index(512);
            u.bits[i] ^= true;
        }
        3 => {
            // signed by everybody although the bits say otherwise
            u.signature = c.rules.signature(&by, &vec![true; 512], &u.attested.root(), &c.rules.version_at(u.signature_slot));
        }
        4 => {
            let other = c.committee(u.signature_slot / PERIOD + 1);
            c.rules.resign(u, &other);
        }
        5 => {
            let v = *r.pick(&[[3, 0, 0, 0], [4, 0, 0, 0], [5, 0, 0, 0], [6, 0, 0, 0], [0x90, 0, 0, 0x74]]);
            u.signature = c.rules.signature(&by, &u.bits, &u.attested.root(), &v);
        }
        6 => flip(r, &mut u.attested.parent),
        7 => flip(r, &mut u.attested.state),
        8 => u.attested.slot = u.attested.slot.wrapping_add(r.range(1, 3)),
        9 => u.attested.slot = u.signature_slot,
        10 => u.signature_slot = u.signature_slot.wrapping_add(*r.pick(&[1, 2, PERIOD])),
        11 => u.signature_slot = u.attested.slot,
        12 => {
            if let Some((h, _)) = &mut u.finalized {
                h.slot = *r.pick(&[h.slot + 1, u.attested.slot + 1, h.slot.saturating_sub(1)]);
            }
        }
        13 => {
            if let Some((h, _)) = &mut u.finalized {
                flip(r, &mut h.parent);
            }
        }
        14 => {
            if let Some((_, b)) = &mut u.finalized {
                let i = r.index(b.len());
                flip(r, &mut b[i]);
            }
        }
        15 => {
            if let Some((n, _)) = &mut u.next {
                *n = n.altered(r);
            }
        }
        16 => {
            if let Some((_, b)) = &mut u.next {
                let i = r.index(b.len());
                flip(r, &mut b[i]);
            }
        }
        17 => {
            if let Some((_, b)) = &mut u.next {
                let (i, j) = (r.index(b.len()), r.index(b.len()));
                b.swap(i, j);
            }
        }
        18 => {
            // the current committee with its own branch in place of the next one
            if let Some((n, _)) = &mut u.next {
                *n = by.clone();
            }
        }
        19 => {
            if let Some((_, b)) = &mut u.finalized {
                let (i, j) = (r.index(b.len()), r.index(b.len()));
                b.swap(i, j);
            }
        }
        20 => u.attested.proposer ^= 1 << r.below(40),
        _ => flip(r, &mut u.attested.body),
    }
    if how >= 6 && r.bool() {
        c.rules.resign(u, &by);
    }
}

/// What a scripted source of light client data says.
#[derive(Clone, Default)]
pub struct Said {
    pub boots: HashMap<[u8; 32], LightClientBootstrapElectra>,
    pub any_boot: Option<LightClientBootstrapElectra>,
    pub updates: HashMap<u64, Vec<LightClientUpdateElectra>>,
    pub finality: Option<LightClientFinalityUpdateElectra>,
    pub optimistic: Option<LightClientOptimisticUpdateElectra>,
    pub chain: Option<u64>,
    pub name: &'static str,
}
#[derive(Clone)]
pub struct Source(pub Arc<Mutex<Said>>);
static KNOWN: Mutex<Option<HashMap<String, Source>>> = Mutex::new(None);
impl Source {
    pub fn of(s: Said) -> Self {
        Self(Arc::new(Mutex::new(s)))
    }
    /// Makes this source the one found at `path`.
    pub fn known_as(&self, path: &str) {
        KNOWN.lock().unwrap().get_or_insert_default().insert(path.into(), self.clone());
    }
    pub fn say(&self, f: impl FnOnce(&mut Said)) {
        f(&mut self.0.lock().unwrap())
    }
}
#[async_trait]
impl ConsensusRpc for Source {
    fn new(path: &str) -> Self {
        KNOWN.lock().unwrap().as_ref().and_then(|k| k.get(path).cloned()).unwrap_or_else(|| Source::of(Said::default()))
    }
    async fn get_bootstrap(&self, root: B256) -> anyhow::Result<LightClientBootstrapElectra> {
        let s = self.0.lock().unwrap();
        s.any_boot.clone().or_else(|| s.boots.get(&root.0).cloned()).ok_or_else(|| anyhow!("no such bootstrap"))
    }
    async fn get_updates(&self, period: u64, count: u8) -> anyhow::Result<Vec<LightClientUpdateElectra>> {
        let s = self.0.lock().unwrap();
        let v: Vec<_> = (period..period + count as u64).map_while(|p| s.updates.get(&p)).flatten().cloned().collect();
        if v.is_empty() && s.name == "portal" {
            return Err(anyhow!("no updates"));
        }
        Ok(v)
    }
    async fn get_finality_update(&self) -> anyhow::Result<LightClientFinalityUpdateElectra> {
        self.0.lock().unwrap().finality.clone().ok_or_else(|| anyhow!("no finality update"))
    }
    async fn get_optimistic_update(&self) -> anyhow::Result<LightClientOptimisticUpdateElectra> {
        self.0.lock().unwrap().optimistic.clone().ok_or_else(|| anyhow!("no optimistic update"))
    }
    async fn chain_id(&self) -> anyhow::Result<u64> {
        self.0.lock().unwrap().chain.ok_or_else(|| anyhow!("no answer"))
    }
    fn name(&self) -> String {
        self.0.lock().unwrap().name.into()
    }
}
