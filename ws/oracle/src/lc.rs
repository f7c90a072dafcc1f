//! The light client sync protocol as the consensus specification gives it (Electra layout): building
//! of provable objects, the rules for accepting an update, and what an accepted update changes.
use std::rc::Rc;

use super::{
    schema::{self, Fork, T, V},
    sha2, H,
};
use vcommon::Rng;

pub const PERIOD: u64 = 32 * 256;
pub fn period(slot: u64) -> u64 {
    slot / PERIOD
}

#[derive(Debug, PartialEq)]
pub struct Committee {
    pub keys: Vec<[u8; 48]>,
    pub aggregate: [u8; 48],
    pub root: H,
}
impl Committee {
    pub fn random(r: &mut Rng) -> Rc<Self> {
        let one = |r: &mut Rng| {
            let mut k: [u8; 48] = r.array();
            k[0] |= 0x80;
            k
        };
        let keys: Vec<[u8; 48]> = (0..512).map(|_| one(r)).collect();
        let aggregate = one(r);
        let mut c = Self { keys, aggregate, root: [0; 32] };
        c.root = schema::sync_committee().root(&c.value());
        Rc::new(c)
    }
    /// Another committee that differs in a single key or in the aggregate.
    pub fn altered(&self, r: &mut Rng) -> Rc<Self> {
        let mut c = Self { keys: self.keys.clone(), aggregate: self.aggregate, root: [0; 32] };
        let k = if r.bool() { &mut c.aggregate } else { &mut c.keys[r.index(512)] };
        k[1 + r.index(47)] ^= 1 << r.below(8);
        c.root = schema::sync_committee().root(&c.value());
        Rc::new(c)
    }
    pub fn value(&self) -> V {
        V::Items(vec![
            V::Items(self.keys.iter().map(|k| V::Raw(k.to_vec())).collect()),
            V::Raw(self.aggregate.to_vec()),
        ])
    }
}

/// A beacon block header with the execution part that travels along.
#[derive(Clone, Debug, PartialEq)]
pub struct Head {
    pub slot: u64,
    pub proposer: u64,
    pub parent: H,
    pub state: H,
    pub body: H,
    pub execution: V,
    pub execution_branch: Vec<H>,
}
fn climb(leaf: H, branch: &[H], index: usize) -> H {
    let mut h = leaf;
    for (i, b) in branch.iter().enumerate() {
        h = if index >> i & 1 == 1 { sha2(b, &h) } else { sha2(&h, b) };
    }
    h
}
fn hashes(v: &[H]) -> V {
    V::Items(v.iter().map(|h| V::Raw(h.to_vec())).collect())
}
impl Head {
    pub fn new(r: &mut Rng, slot: u64, state: H) -> Self {
        let t = schema::execution_payload_header(Fork::Electra);
        let execution = t.gen(r, 4);
        let execution_branch: Vec<H> = (0..4).map(|_| r.array()).collect();
        let body = climb(t.root(&execution), &execution_branch, 9);
        Self { slot, proposer: r.below(1 << 40), parent: r.array(), state, body, execution, execution_branch }
    }
    pub fn beacon(&self) -> V {
        V::Items(vec![
            V::Raw(self.slot.to_le_bytes().to_vec()),
            V::Raw(self.proposer.to_le_bytes().to_vec()),
            V::Raw(self.parent.to_vec()),
            V::Raw(self.state.to_vec()),
            V::Raw(self.body.to_vec()),
        ])
    }
    pub fn root(&self) -> H {
        schema::beacon_block_header().root(&self.beacon())
    }
    pub fn value(&self) -> V {
        V::Items(vec![self.beacon(), self.execution.clone(), hashes(&self.execution_branch)])
    }
    pub fn execution_proven(&self) -> bool {
        let t = schema::execution_payload_header(Fork::Electra);
        climb(t.root(&self.execution), &self.execution_branch, 9) == self.body
    }
}

/// The part of a beacon state's tree that light clients look at.
pub struct State {
    nodes: Vec<H>,
}
const FINALIZED: usize = 169;
const CURRENT: usize = 86;
const NEXT: usize = 87;
impl State {
    pub fn new(r: &mut Rng, finalized: H, current: H, next: H) -> Self {
        let mut nodes = vec![[0u8; 32]; 256];
        for n in nodes[128..].iter_mut() {
            *n = r.array();
        }
        nodes[FINALIZED] = finalized;
        for i in (1..128).rev() {
            nodes[i] = match i {
                CURRENT => current,
                NEXT => next,
                _ => sha2(&nodes[2 * i], &nodes[2 * i + 1]),
            };
        }
        Self { nodes }
    }
    pub fn root(&self) -> H {
        self.nodes[1]
    }
    fn branch(&self, mut at: usize) -> Vec<H> {
        let mut v = vec![];
        while at > 1 {
            v.push(self.nodes[at ^ 1]);
            at /= 2;
        }
        v
    }
    pub fn finalized_branch(&self) -> Vec<H> {
        self.branch(FINALIZED)
    }
    pub fn current_branch(&self) -> Vec<H> {
        self.branch(CURRENT)
    }
    pub fn next_branch(&self) -> Vec<H> {
        self.branch(NEXT)
    }
}

#[derive(Clone, Debug)]
pub struct Boot {
    pub head: Head,
    pub committee: Rc<Committee>,
    pub branch: Vec<H>,
}
impl Boot {
    pub fn ssz(&self) -> Vec<u8> {
        schema::lc_bootstrap(Fork::Electra).ser(&self.value())
    }
    pub fn value(&self) -> V {
        V::Items(vec![self.head.value(), self.committee.value(), hashes(&self.branch)])
    }
    pub fn committee_proven(&self) -> bool {
        climb(self.committee.root, &self.branch, CURRENT - 64) == self.head.state
    }
}

#[derive(Clone, Debug, PartialEq)]
pub struct Update {
    pub attested: Head,
    pub next: Option<(Rc<Committee>, Vec<H>)>,
    pub finalized: Option<(Head, Vec<H>)>,
    pub bits: Vec<bool>,
    pub signature: [u8; 96],
    pub signature_slot: u64,
}
impl Update {
    fn aggregate(&self) -> V {
        V::Items(vec![V::Bits(self.bits.clone()), V::Raw(self.signature.to_vec())])
    }
    fn at(&self) -> V {
        V::Raw(self.signature_slot.to_le_bytes().to_vec())
    }
    pub fn is_full(&self) -> bool {
        self.next.is_some() && self.finalized.is_some()
    }
    /// The description of the message this update travels in, and its value.
    pub fn described(&self) -> (T, V) {
        let f = Fork::Electra;
        match (&self.next, &self.finalized) {
            (Some((c, cb)), Some((h, fb))) => (
                schema::lc_update(f),
                V::Items(vec![self.attested.value(), c.value(), hashes(cb), h.value(), hashes(fb), self.aggregate(), self.at()]),
            ),
            (None, Some((h, fb))) => (
                schema::lc_finality_update(f),
                V::Items(vec![self.attested.value(), h.value(), hashes(fb), self.aggregate(), self.at()]),
            ),
            _ => (schema::lc_optimistic_update(f), V::Items(vec![self.attested.value(), self.aggregate(), self.at()])),
        }
    }
    pub fn ssz(&self) -> Vec<u8> {
        let (t, v) = self.described();
        t.ser(&v)
    }
    pub fn participants(&self) -> u64 {
        self.bits.iter().filter(|b| **b).count() as u64
    }
    pub fn finalized_slot(&self) -> u64 {
        self.finalized.as_ref().map_or(0, |f| f.0.slot)
    }
    pub fn executions_proven(&self) -> bool {
        self.attested.execution_proven() && self.finalized.as_ref().map_or(true, |f| f.0.execution_proven())
    }
}

/// What the committee signs for a header.
pub fn signing_root(header: &H, version: &[u8; 4], genesis: &H) -> H {
    let mut v = [0u8; 32];
    v[..4].copy_from_slice(version);
    let data = sha2(&v, genesis);
    let mut domain = [0u8; 32];
    domain[0] = 7;
    domain[4..].copy_from_slice(&data[..28]);
    sha2(header, &domain)
}

pub struct Rules {
    pub genesis: H,
    /// (first epoch, version), ascending.
    pub forks: Vec<(u64, [u8; 4])>,
    pub sign: fn(&[[u8; 48]], &[u8]) -> [u8; 96],
}
impl Rules {
    pub fn version_at(&self, signature_slot: u64) -> [u8; 4] {
        let epoch = signature_slot.max(1).wrapping_sub(1) / 32;
        self.forks.iter().rev().find(|f| f.0 <= epoch).map_or(self.forks[0].1, |f| f.1)
    }
    pub fn signature(&self, c: &Committee, bits: &[bool], header: &H, version: &[u8; 4]) -> [u8; 96] {
        let keys: Vec<[u8; 48]> = c.keys.iter().zip(bits).filter(|(_, b)| **b).map(|(k, _)| *k).collect();
        (self.sign)(&keys, &signing_root(header, version, &self.genesis))
    }
    pub fn resign(&self, u: &mut Update, c: &Committee) {
        u.signature = self.signature(c, &u.bits, &u.attested.root(), &self.version_at(u.signature_slot));
    }
}

#[derive(Clone, Debug, PartialEq)]
pub struct Store {
    pub finalized: Head,
    pub optimistic: Head,
    pub current: Rc<Committee>,
    pub next: Option<Rc<Committee>>,
    pub previous_max: u64,
    pub current_max: u64,
}
impl Store {
    pub fn boot(b: &Boot) -> Self {
        Self {
            finalized: b.head.clone(),
            optimistic: b.head.clone(),
            current: b.committee.clone(),
            next: None,
            previous_max: 0,
            current_max: 0,
        }
    }
    /// Why `u` may not be applied at slot `now`, if so. Leaves the execution parts aside.
    pub fn refuses(&self, rules: &Rules, u: &Update, now: u64) -> Option<&'static str> {
        if u.participants() == 0 {
            return Some("nobody signed");
        }
        if !(now >= u.signature_slot && u.signature_slot > u.attested.slot && u.attested.slot >= u.finalized_slot()) {
            return Some("slots out of order");
        }
        let (here, signed) = (period(self.finalized.slot), period(u.signature_slot));
        if !(signed == here || (self.next.is_some() && signed == here + 1)) {
            return Some("period out of reach");
        }
        let teaches = self.next.is_none() && u.next.is_some() && period(u.attested.slot) == here;
        if !(u.attested.slot > self.finalized.slot || teaches) {
            return Some("nothing new");
        }
        if let Some((h, branch)) = &u.finalized {
            if branch.len() != 7 || climb(h.root(), branch, FINALIZED - 128) != u.attested.state {
                return Some("finality unproven");
            }
        }
        if let Some((c, branch)) = &u.next {
            if branch.len() != 6 || climb(c.root, branch, NEXT - 64) != u.attested.state {
                return Some("committee unproven");
            }
        }
        let by = if signed == here { &self.current } else { self.next.as_ref().unwrap() };
        if u.signature != rules.signature(by, &u.bits, &u.attested.root(), &rules.version_at(u.signature_slot)) {
            return Some("signature wrong");
        }
        None
    }
    pub fn apply(&mut self, u: &Update) {
        let n = u.participants();
        self.current_max = self.current_max.max(n);
        let safe = self.current_max.max(self.previous_max) / 2;
        if n > safe && u.attested.slot > self.optimistic.slot {
            self.optimistic = u.attested.clone();
        }
        let Some((f, _)) = &u.finalized else { return };
        let completes = self.next.is_none() && u.next.is_some() && period(f.slot) == period(u.attested.slot);
        if n * 3 < 512 * 2 || !(f.slot > self.finalized.slot || completes) {
            return;
        }
        let here = period(self.finalized.slot);
        if self.next.is_none() {
            self.next = u.next.as_ref().map(|n| n.0.clone());
        } else if period(f.slot) == here + 1 {
            self.current = self.next.take().unwrap();
            self.next = u.next.as_ref().map(|n| n.0.clone());
            self.previous_max = self.current_max;
            self.current_max = 0;
        }
        if f.slot > self.finalized.slot {
            self.finalized = f.clone();
            if self.finalized.slot > self.optimistic.slot {
                self.optimistic = self.finalized.clone();
            }
        }
    }
}

/// A chain whose committees are known for every period from `first` on.
pub struct Chain {
    pub rules: Rules,
    pub first: u64,
    pub committees: Vec<Rc<Committee>>,
}
impl Chain {
    pub fn committee(&self, p: u64) -> Rc<Committee> {
        self.committees[((p.saturating_sub(self.first)) as usize).min(self.committees.len() - 1)].clone()
    }
    pub fn boot(&self, r: &mut Rng, slot: u64) -> Boot {
        let c = self.committee(period(slot));
        let s = State::new(r, r.clone().array(), c.root, self.committee(period(slot) + 1).root);
        Boot { head: Head::new(r, slot, s.root()), committee: c, branch: s.current_branch() }
    }
    /// An update that an honest chain would produce, carrying what `next` and `fin` say.
    pub fn update(&self, r: &mut Rng, attested: u64, finalized: Option<u64>, signed: u64, next: bool, participants: usize) -> Update {
        let f = finalized.map(|s| Head::new(r, s, r.clone().array()));
        let p = period(attested);
        let (cur, nxt) = (self.committee(p), self.committee(p + 1));
        let s = State::new(r, f.as_ref().map_or(r.clone().array(), Head::root), cur.root, nxt.root);
        let mut bits = vec![false; 512];
        for b in bits.iter_mut().take(participants) {
            *b = true;
        }
        r.shuffle(&mut bits);
        let mut u = Update {
            attested: Head::new(r, attested, s.root()),
            next: next.then(|| (nxt, s.next_branch())),
            finalized: f.map(|h| (h, s.finalized_branch())),
            bits,
            signature: [0; 96],
            signature_slot: signed,
        };
        self.rules.resign(&mut u, &self.committee(period(signed)));
        u
    }
}
