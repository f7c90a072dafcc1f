//! Blocks with headers that are provable, and contents derived from them.
use ethportal_api::{LegacyHistoryContentKey, OverlayContentKey};
use oracle::exec::{Block, Era};
use ssz::Encode;
use vcommon::Rng;

use crate::header::{claim, siblings, sizes, Claim, Kind, World};

pub struct Proven {
    pub block: Block,
    pub claim: Claim,
}
pub fn world(r: &mut Rng) -> World {
    World {
        epochs: (0..=crate::header::LAST_EPOCH).map(|_| r.array()).collect(),
        roots: (0..r.range(1, 40)).map(|_| r.array()).collect(),
        summaries: (0..r.range(2, 20)).map(|_| r.array()).collect(),
    }
}
/// A block whose header is made part of the chain.
pub fn proven(r: &mut Rng, kind: Kind, w: &mut World) -> Proven {
    let mut c = claim(r, kind, w);
    let era = match kind {
        Kind::Hashes => *r.pick(&[Era::Frontier, Era::London]),
        Kind::Roots => Era::Paris,
        Kind::Capella => Era::Shanghai,
        Kind::Deneb => *r.pick(&[Era::Cancun, Era::Prague]),
    };
    let mut block = Block::random(r, era, 6);
    if r.chance(1, 3) {
        // keep the edges the claim chose, as far as they fit the era
        if kind != Kind::Hashes || era == Era::Frontier {
            block.header.number = c.hdr.number;
        }
        if kind != Kind::Hashes {
            block.header.timestamp = c.hdr.timestamp;
        }
    }
    if kind == Kind::Deneb && era == Era::Prague {
        block.header.timestamp = block.header.timestamp.max(1_746_612_311);
    }
    c.hdr = block.header.clone();
    let (n, m) = sizes(kind);
    c.beacon = siblings(r, n);
    c.exec = siblings(r, m);
    c.anchor(w);
    Proven { block, claim: c }
}
pub fn by_hash(h: &[u8; 32]) -> Vec<u8> {
    [&[0u8][..], h].concat()
}
pub fn by_number(n: u64) -> Vec<u8> {
    [&[3u8][..], &n.to_le_bytes()].concat()
}
pub fn body(h: &[u8; 32]) -> Vec<u8> {
    [&[1u8][..], h].concat()
}
pub fn receipts(h: &[u8; 32]) -> Vec<u8> {
    [&[2u8][..], h].concat()
}
pub fn key(b: &[u8]) -> LegacyHistoryContentKey {
    LegacyHistoryContentKey::try_from_bytes(b).expect("harness key")
}
/// The header with its proof as it travels.
pub fn header_content(c: &Claim) -> Vec<u8> {
    c.build().as_ssz_bytes()
}
