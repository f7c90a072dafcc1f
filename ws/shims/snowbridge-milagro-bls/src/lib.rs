//! A stand-in for aggregate signatures, with the interface of the `milagro_bls` crate: a
//! signature is the hash of the message and the multiset of signing keys.
use sha2::{Digest, Sha256};
#[derive(Debug, Clone, PartialEq, Eq)]
pub enum AmclError {
    InvalidPoint,
    InvalidG1Size,
    InvalidG2Size,
}
#[derive(Debug, Clone, PartialEq, Eq, PartialOrd, Ord)]
pub struct PublicKey(pub [u8; 48]);
impl PublicKey {
    pub fn from_bytes_unchecked(b: &[u8]) -> Result<Self, AmclError> {
        let a: [u8; 48] = b.try_into().map_err(|_| AmclError::InvalidG1Size)?;
        if a[0] & 0x80 == 0 {
            return Err(AmclError::InvalidPoint);
        }
        Ok(Self(a))
    }
    pub fn from_bytes(b: &[u8]) -> Result<Self, AmclError> {
        Self::from_bytes_unchecked(b)
    }
    pub fn as_bytes(&self) -> [u8; 48] {
        self.0
    }
}
#[derive(Debug, Clone)]
pub struct AggregateSignature([u8; 96]);
impl AggregateSignature {
    pub fn from_bytes(b: &[u8]) -> Result<Self, AmclError> {
        let a: [u8; 96] = b.try_into().map_err(|_| AmclError::InvalidG2Size)?;
        if a[0] & 0x80 == 0 {
            return Err(AmclError::InvalidPoint);
        }
        Ok(Self(a))
    }
    pub fn fast_aggregate_verify(&self, msg: &[u8], pks: &[&PublicKey]) -> bool {
        !pks.is_empty() && self.0 == sign(pks, msg)
    }
}
/// The signature of `pks` together over `msg`.
pub fn sign(pks: &[&PublicKey], msg: &[u8]) -> [u8; 96] {
    let mut v: Vec<_> = pks.to_vec();
    v.sort();
    let mut h = Sha256::new();
    h.update((msg.len() as u64).to_be_bytes());
    h.update(msg);
    for p in v {
        h.update(p.0);
    }
    let d = h.finalize();
    let mut out = [0u8; 96];
    for i in 0..3 {
        out[i * 32..][..32].copy_from_slice(&d);
    }
    out[0] |= 0x80;
    out
}
