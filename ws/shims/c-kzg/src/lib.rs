//! Sizes and byte types of the `c-kzg` crate.
pub const BYTES_PER_COMMITMENT: usize = 48;
pub const BYTES_PER_PROOF: usize = 48;
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub struct Bytes48([u8; 48]);
impl From<[u8; 48]> for Bytes48 {
    fn from(b: [u8; 48]) -> Self {
        Self(b)
    }
}
impl Bytes48 {
    pub const fn new(b: [u8; 48]) -> Self {
        Self(b)
    }
    pub fn into_inner(self) -> [u8; 48] {
        self.0
    }
}
impl std::ops::Deref for Bytes48 {
    type Target = [u8; 48];
    fn deref(&self) -> &[u8; 48] {
        &self.0
    }
}
