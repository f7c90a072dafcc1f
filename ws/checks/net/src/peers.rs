//! Peers with records that depend on the seed only.
use std::net::Ipv4Addr;

use discv5::enr::{CombinedKey, NodeId};
use ethportal_api::types::enr::Enr;
use vcommon::Rng;

pub struct Peer {
    pub secret: [u8; 32],
    pub key: CombinedKey,
    pub enr: Enr,
    pub ip: Ipv4Addr,
}
impl Peer {
    pub fn random(r: &mut Rng) -> Self {
        let secret: [u8; 32] = r.array();
        let key = CombinedKey::secp256k1_from_bytes(&mut secret.clone()).expect("key");
        let ip = Ipv4Addr::new(r.range(1, 223) as u8, r.u8(), r.u8(), r.u8());
        let enr = record(&key, ip, 1);
        Self { secret, key, enr, ip }
    }
    pub fn id(&self) -> NodeId {
        self.enr.node_id()
    }
    /// This peer's record with another sequence number.
    pub fn at(&self, seq: u64) -> Enr {
        record(&self.key, self.ip, seq)
    }
}
fn record(key: &CombinedKey, ip: Ipv4Addr, seq: u64) -> Enr {
    discv5::enr::Enr::builder().ip(ip.into()).udp4(8000).seq(seq).build(key).expect("record")
}
pub fn xor(a: &[u8; 32], b: &[u8; 32]) -> [u8; 32] {
    std::array::from_fn(|i| a[i] ^ b[i])
}
/// The position of the highest differing bit, counted from one; zero if equal.
pub fn log2(a: &[u8; 32], b: &[u8; 32]) -> u16 {
    let d = xor(a, b);
    d.iter().position(|x| *x != 0).map_or(0, |i| (256 - 8 * i - d[i].leading_zeros() as usize) as u16)
}
