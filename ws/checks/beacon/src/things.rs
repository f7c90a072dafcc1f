//! Contents of the beacon network and their keys.
use ethportal_api::{BeaconContentKey, OverlayContentKey};
use oracle::{
    lc::{Boot, Update},
    schema::{self, Fork, V},
    sha2, ssz as ossz, H,
};
use vcommon::Rng;

pub fn key(b: &[u8]) -> BeaconContentKey {
    BeaconContentKey::try_from_bytes(b).expect("harness key")
}
fn numbers(selector: u8, n: &[u64]) -> BeaconContentKey {
    let mut b = vec![selector];
    n.iter().for_each(|n| b.extend(n.to_le_bytes()));
    key(&b)
}
pub fn of_boot(root: &H) -> BeaconContentKey {
    let mut b = vec![0x10];
    b.extend(root);
    key(&b)
}
pub fn of_range(start: u64, count: u64) -> BeaconContentKey {
    numbers(0x11, &[start, count])
}
pub fn of_finality(slot: u64) -> BeaconContentKey {
    numbers(0x12, &[slot])
}
pub fn of_optimistic(slot: u64) -> BeaconContentKey {
    numbers(0x13, &[slot])
}
pub fn of_summaries(epoch: u64) -> BeaconContentKey {
    numbers(0x14, &[epoch])
}
pub fn versioned(f: Fork, ssz: Vec<u8>) -> Vec<u8> {
    let mut out = f.digest().to_vec();
    out.extend(ssz);
    out
}
pub fn boot(b: &Boot) -> Vec<u8> {
    versioned(Fork::Electra, b.ssz())
}
pub fn update(u: &Update) -> Vec<u8> {
    versioned(Fork::Electra, u.ssz())
}
pub fn range(list: &[Update]) -> Vec<u8> {
    ossz::var_list(&list.iter().map(update).collect::<Vec<_>>())
}

/// Historical summaries with the proof that a state holds them.
#[derive(Clone, Debug, PartialEq)]
pub struct Sums {
    pub epoch: u64,
    pub list: Vec<(H, H)>,
    pub proof: Vec<H>,
}
impl Sums {
    pub fn random(r: &mut Rng, epoch: u64, n: usize) -> Self {
        Self { epoch, list: (0..n).map(|_| (r.array(), r.array())).collect(), proof: (0..6).map(|_| r.array()).collect() }
    }
    fn items(&self) -> V {
        V::Items(self.list.iter().map(|(a, b)| V::Items(vec![V::Raw(a.to_vec()), V::Raw(b.to_vec())])).collect())
    }
    /// The state root the proof leads to.
    pub fn state(&self) -> H {
        let mut h = schema::historical_summaries().root(&self.items());
        for (i, p) in self.proof.iter().enumerate() {
            h = if 27 >> i & 1 == 1 { sha2(p, &h) } else { sha2(&h, p) };
        }
        h
    }
    pub fn content(&self) -> Vec<u8> {
        let v = V::Items(vec![
            V::Raw(self.epoch.to_le_bytes().to_vec()),
            self.items(),
            V::Items(self.proof.iter().map(|h| V::Raw(h.to_vec())).collect()),
        ]);
        versioned(Fork::Electra, schema::historical_summaries_with_proof().ser(&v))
    }
}
/// Alters bytes so that they cannot be read in any way.
pub fn break_bytes(r: &mut Rng, b: &[u8]) -> Vec<u8> {
    let mut b = b.to_vec();
    match r.below(4) {
        0 => b.truncate(b.len() - (65 + r.index(40)).min(b.len())),
        1 => b.extend(vec![r.u8(); 65 + r.index(40)]),
        2 => b.truncate(r.index(5)),
        _ => b = r.bytes(64),
    }
    b
}
