//! SHA-256 helpers with the interface of the `ethereum_hashing` crate.
use std::sync::LazyLock;

use sha2::{Digest, Sha256};

pub const HASH_LEN: usize = 32;
pub const ZERO_HASHES_MAX_INDEX: usize = 48;

pub fn hash(input: &[u8]) -> Vec<u8> {
    Sha256::digest(input).to_vec()
}
pub fn hash_fixed(input: &[u8]) -> [u8; HASH_LEN] {
    Sha256::digest(input).into()
}
pub fn hash32_concat(h1: &[u8], h2: &[u8]) -> [u8; 32] {
    let mut ctx = Sha256::new();
    ctx.update(h1);
    ctx.update(h2);
    ctx.finalize().into()
}
pub static ZERO_HASHES: LazyLock<Vec<[u8; HASH_LEN]>> = LazyLock::new(|| {
    let mut v = vec![[0; 32]; ZERO_HASHES_MAX_INDEX + 1];
    for i in 0..ZERO_HASHES_MAX_INDEX {
        v[i + 1] = hash32_concat(&v[i], &v[i]);
    }
    v
});
#[derive(Clone, Default)]
pub struct Context(Sha256);
pub trait Sha256Context {
    fn new() -> Self;
    fn update(&mut self, bytes: &[u8]);
    fn finalize(self) -> [u8; HASH_LEN];
}
impl Sha256Context for Context {
    fn new() -> Self {
        Self(Sha256::new())
    }
    fn update(&mut self, b: &[u8]) {
        self.0.update(b)
    }
    fn finalize(self) -> [u8; HASH_LEN] {
        self.0.finalize().into()
    }
}
