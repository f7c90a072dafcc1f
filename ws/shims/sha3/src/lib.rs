//! Keccak-256 with the interface of the `sha3` crate.
pub trait Digest: Sized {
    fn new() -> Self;
    fn update(&mut self, d: impl AsRef<[u8]>);
    fn finalize(self) -> [u8; 32];
    fn digest(d: impl AsRef<[u8]>) -> [u8; 32] {
        let mut h = Self::new();
        h.update(d);
        h.finalize()
    }
}
#[derive(Default, Clone)]
pub struct Keccak256(Vec<u8>);
impl Digest for Keccak256 {
    fn new() -> Self {
        Self::default()
    }
    fn update(&mut self, d: impl AsRef<[u8]>) {
        self.0.extend_from_slice(d.as_ref())
    }
    fn finalize(self) -> [u8; 32] {
        alloy_primitives::keccak256(&self.0).0
    }
}
