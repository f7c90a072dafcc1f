//! Keccak-256 with the interface of the `keccak-hash` crate.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord, Default)]
pub struct H256(pub [u8; 32]);
impl H256 {
    pub const fn as_fixed_bytes(&self) -> &[u8; 32] {
        &self.0
    }
    pub const fn to_fixed_bytes(self) -> [u8; 32] {
        self.0
    }
    pub const fn as_bytes(&self) -> &[u8] {
        &self.0
    }
}
impl AsRef<[u8]> for H256 {
    fn as_ref(&self) -> &[u8] {
        &self.0
    }
}
pub fn keccak<T: AsRef<[u8]>>(v: T) -> H256 {
    H256(alloy_primitives::keccak256(v).0)
}
