//! SSZ encoding and decoding with the interface of the `ethereum_ssz` crate.
mod bitfield;
mod decode;
mod encode;

pub use bitfield::{BitList, BitVector, Bitfield, BitfieldBehaviour, Error as BitfieldError, Fixed, Variable};
pub mod bitfield_types {
    pub use crate::bitfield::*;
}
pub use decode::{
    decode_list_of_variable_length_items, read_offset, sanitize_offset, split_union_bytes, Decode,
    DecodeError, SszDecoder, SszDecoderBuilder, TryFromIter,
};
pub use encode::{encode_length, encode_union_selector, Encode, SszEncoder};

pub const BYTES_PER_LENGTH_OFFSET: usize = 4;
pub const MAX_LENGTH_VALUE: usize = u32::MAX as usize;
pub const BYTES_PER_UNION_SELECTOR: usize = 1;
pub const MAX_UNION_SELECTOR: u8 = 127;

pub fn ssz_encode<T: Encode>(v: &T) -> Vec<u8> {
    v.as_ssz_bytes()
}

/// Implements Encode/Decode for a small type by way of u8/u64, like the upstream helper macros.
#[derive(Copy, Clone, Debug, PartialEq, Eq)]
pub struct UnionSelector(u8);
impl UnionSelector {
    pub fn new(s: u8) -> Result<Self, DecodeError> {
        if s > MAX_UNION_SELECTOR {
            return Err(DecodeError::UnionSelectorInvalid(s));
        }
        Ok(Self(s))
    }
}
impl From<UnionSelector> for u8 {
    fn from(u: UnionSelector) -> u8 {
        u.0
    }
}
impl PartialEq<u8> for UnionSelector {
    fn eq(&self, o: &u8) -> bool {
        self.0 == *o
    }
}

pub mod legacy {}
