#[derive(Debug, Clone, PartialEq, Eq, Hash, Default)]
pub struct RequestId(pub Vec<u8>);
impl RequestId {
    pub fn random() -> Self {
        Self(crate::seeded::bytes32()[..8].to_vec())
    }
    pub fn as_bytes(&self) -> Vec<u8> {
        self.0.clone()
    }
    pub fn decode(data: Vec<u8>) -> Result<Self, alloy_rlp::Error> {
        if data.len() > 8 {
            return Err(alloy_rlp::Error::Custom("Invalid ID length"));
        }
        Ok(Self(data))
    }
}
impl std::fmt::Display for RequestId {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        for b in &self.0 {
            write!(f, "{b:02x}")?;
        }
        Ok(())
    }
}
