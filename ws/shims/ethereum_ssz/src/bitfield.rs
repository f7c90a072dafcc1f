use std::{
    fmt::Debug,
    marker::PhantomData,
};

use serde::{
    de::{Deserialize, Deserializer},
    ser::{Serialize, Serializer},
};
use smallvec::{smallvec, SmallVec};
use typenum::Unsigned;

use crate::{Decode, DecodeError, Encode};

pub const SMALLVEC_LEN: usize = 32;

pub trait BitfieldBehaviour: Clone {}

#[derive(Clone, PartialEq, Eq, Debug)]
pub struct Variable<N> {
    _p: PhantomData<N>,
}
#[derive(Clone, PartialEq, Eq, Debug)]
pub struct Fixed<N> {
    _p: PhantomData<N>,
}
impl<N: Unsigned + Clone> BitfieldBehaviour for Variable<N> {}
impl<N: Unsigned + Clone> BitfieldBehaviour for Fixed<N> {}

pub type BitList<N> = Bitfield<Variable<N>>;
pub type BitVector<N> = Bitfield<Fixed<N>>;

#[derive(Debug, PartialEq, Clone, Eq)]
pub enum Error {
    OutOfBounds { i: usize, len: usize },
    MissingLengthInformation,
    ExcessBits,
    InvalidByteCount { given: usize, expected: usize },
}

#[derive(Clone, Debug)]
pub struct Bitfield<T> {
    bytes: SmallVec<[u8; SMALLVEC_LEN]>,
    len: usize,
    _p: PhantomData<T>,
}
impl<T> PartialEq for Bitfield<T> {
    fn eq(&self, o: &Self) -> bool {
        self.len == o.len && self.bytes == o.bytes
    }
}
impl<T> Eq for Bitfield<T> {}
impl<T> std::hash::Hash for Bitfield<T> {
    fn hash<H: std::hash::Hasher>(&self, h: &mut H) {
        self.bytes.hash(h);
        self.len.hash(h);
    }
}

fn bytes_for_bit_len(bit_len: usize) -> usize {
    std::cmp::max(1, bit_len.div_ceil(8))
}

impl<N: Unsigned + Clone> Bitfield<Variable<N>> {
    pub fn with_capacity(num_bits: usize) -> Result<Self, Error> {
        if num_bits <= N::to_usize() {
            Ok(Self {
                bytes: smallvec![0; bytes_for_bit_len(num_bits)],
                len: num_bits,
                _p: PhantomData,
            })
        } else {
            Err(Error::OutOfBounds {
                i: N::to_usize(),
                len: N::to_usize(),
            })
        }
    }
    pub fn max_len() -> usize {
        N::to_usize()
    }
    pub fn into_bytes(self) -> SmallVec<[u8; SMALLVEC_LEN]> {
        let len = self.len();
        let mut bytes = self.bytes;
        bytes.resize(bytes_for_bit_len(len + 1), 0);
        let mut b: Bitfield<Variable<N>> = Bitfield {
            bytes,
            len: len + 1,
            _p: PhantomData,
        };
        b.set_unchecked(len, true);
        b.bytes
    }
    pub fn from_bytes(bytes: SmallVec<[u8; SMALLVEC_LEN]>) -> Result<Self, Error> {
        let bytes_len = bytes.len();
        let mut initial: Self = Bitfield::raw(bytes, bytes_len * 8)?;
        let len = initial
            .highest_set_bit()
            .ok_or(Error::MissingLengthInformation)?;
        if len / 8 + 1 != bytes_len {
            return Err(Error::InvalidByteCount {
                given: bytes_len,
                expected: len / 8 + 1,
            });
        }
        if len <= Self::max_len() {
            initial.set_unchecked(len, false);
            let mut bytes = initial.bytes;
            bytes.truncate(bytes_for_bit_len(len));
            Self::raw(bytes, len)
        } else {
            Err(Error::OutOfBounds {
                i: Self::max_len(),
                len: Self::max_len(),
            })
        }
    }
    pub fn intersection(&self, other: &Self) -> Self {
        let min = self.len().min(other.len());
        let mut r = Self::with_capacity(min).expect("min len always less than N");
        for i in 0..r.bytes.len() {
            r.bytes[i] = self.bytes[i] & other.bytes[i];
        }
        r
    }
    pub fn union(&self, other: &Self) -> Self {
        let max = self.len().max(other.len());
        let mut r = Self::with_capacity(max).expect("max len always less than N");
        for i in 0..r.bytes.len() {
            r.bytes[i] = self.bytes.get(i).copied().unwrap_or(0) | other.bytes.get(i).copied().unwrap_or(0);
        }
        r
    }
    pub fn resize<M: Unsigned + Clone>(&self) -> Result<Bitfield<Variable<M>>, Error> {
        let mut r = Bitfield::<Variable<M>>::with_capacity(M::to_usize())?;
        for i in 0..self.len {
            r.set(i, self.get(i)?)?;
        }
        Ok(r)
    }
}

impl<N: Unsigned + Clone> Bitfield<Fixed<N>> {
    pub fn new() -> Self {
        Self {
            bytes: smallvec![0; bytes_for_bit_len(Self::capacity())],
            len: Self::capacity(),
            _p: PhantomData,
        }
    }
    pub fn capacity() -> usize {
        N::to_usize()
    }
    pub fn into_bytes(self) -> SmallVec<[u8; SMALLVEC_LEN]> {
        self.bytes
    }
    pub fn from_bytes(bytes: SmallVec<[u8; SMALLVEC_LEN]>) -> Result<Self, Error> {
        Self::raw(bytes, Self::capacity())
    }
    pub fn intersection(&self, other: &Self) -> Self {
        let mut r = Self::new();
        for i in 0..r.bytes.len() {
            r.bytes[i] = self.bytes[i] & other.bytes[i];
        }
        r
    }
    pub fn union(&self, other: &Self) -> Self {
        let mut r = Self::new();
        for i in 0..r.bytes.len() {
            r.bytes[i] = self.bytes[i] | other.bytes[i];
        }
        r
    }
}
impl<N: Unsigned + Clone> Default for Bitfield<Fixed<N>> {
    fn default() -> Self {
        Self::new()
    }
}

impl<T> Bitfield<T> {
    fn raw(bytes: SmallVec<[u8; SMALLVEC_LEN]>, bit_len: usize) -> Result<Self, Error> {
        if bit_len == 0 {
            if bytes.len() == 1 && bytes[0] == 0 {
                return Ok(Self {
                    bytes,
                    len: 0,
                    _p: PhantomData,
                });
            }
            return Err(Error::ExcessBits);
        }
        if bytes.len() != bytes_for_bit_len(bit_len) {
            return Err(Error::InvalidByteCount {
                given: bytes.len(),
                expected: bytes_for_bit_len(bit_len),
            });
        }
        let (mask, _) = u8::MAX.overflowing_shr(8 - (bit_len as u32 % 8));
        let mask = if bit_len % 8 == 0 { 0xff } else { mask };
        if bytes.last().expect("guarded against empty bytes") & !mask == 0 {
            Ok(Self {
                bytes,
                len: bit_len,
                _p: PhantomData,
            })
        } else {
            Err(Error::ExcessBits)
        }
    }
    fn set_unchecked(&mut self, i: usize, v: bool) {
        if v {
            self.bytes[i / 8] |= 1 << (i % 8)
        } else {
            self.bytes[i / 8] &= !(1 << (i % 8))
        }
    }
    pub fn set(&mut self, i: usize, value: bool) -> Result<(), Error> {
        if i >= self.len {
            return Err(Error::OutOfBounds { i, len: self.len });
        }
        self.set_unchecked(i, value);
        Ok(())
    }
    pub fn get(&self, i: usize) -> Result<bool, Error> {
        if i >= self.len {
            return Err(Error::OutOfBounds { i, len: self.len });
        }
        Ok(self.bytes[i / 8] >> (i % 8) & 1 == 1)
    }
    pub fn len(&self) -> usize {
        self.len
    }
    pub fn is_empty(&self) -> bool {
        self.len == 0
    }
    pub fn as_slice(&self) -> &[u8] {
        &self.bytes
    }
    pub fn into_raw_bytes(self) -> SmallVec<[u8; SMALLVEC_LEN]> {
        self.bytes
    }
    pub fn highest_set_bit(&self) -> Option<usize> {
        self.bytes
            .iter()
            .enumerate()
            .rev()
            .find(|(_, b)| **b > 0)
            .map(|(i, b)| i * 8 + 7 - b.leading_zeros() as usize)
    }
    pub fn iter(&self) -> impl Iterator<Item = bool> + '_ {
        (0..self.len).map(|i| self.bytes[i / 8] >> (i % 8) & 1 == 1)
    }
    pub fn is_zero(&self) -> bool {
        self.bytes.iter().all(|b| *b == 0)
    }
    pub fn num_set_bits(&self) -> usize {
        self.bytes.iter().map(|b| b.count_ones() as usize).sum()
    }
    pub fn difference(&self, other: &Self) -> Self
    where
        T: Clone,
    {
        let mut r = self.clone();
        r.difference_inplace(other);
        r
    }
    pub fn difference_inplace(&mut self, other: &Self) {
        let min = self.bytes.len().min(other.bytes.len());
        for i in 0..min {
            self.bytes[i] &= !other.bytes[i];
        }
    }
    pub fn shift_up(&mut self, n: usize) -> Result<(), Error> {
        if n <= self.len {
            for i in (n..self.len).rev() {
                let v = self.get(i - n)?;
                self.set(i, v)?;
            }
            for i in 0..n {
                self.set(i, false)?;
            }
            Ok(())
        } else {
            Err(Error::OutOfBounds { i: n, len: self.len })
        }
    }
}

impl<N: Unsigned + Clone> Encode for Bitfield<Variable<N>> {
    fn is_ssz_fixed_len() -> bool {
        false
    }
    fn ssz_bytes_len(&self) -> usize {
        self.clone().into_bytes().len()
    }
    fn ssz_append(&self, buf: &mut Vec<u8>) {
        buf.extend_from_slice(&self.clone().into_bytes())
    }
}
impl<N: Unsigned + Clone> Decode for Bitfield<Variable<N>> {
    fn is_ssz_fixed_len() -> bool {
        false
    }
    fn from_ssz_bytes(bytes: &[u8]) -> Result<Self, DecodeError> {
        Self::from_bytes(bytes.to_vec().into())
            .map_err(|e| DecodeError::BytesInvalid(format!("BitList failed to decode: {e:?}")))
    }
}
impl<N: Unsigned + Clone> Encode for Bitfield<Fixed<N>> {
    fn is_ssz_fixed_len() -> bool {
        true
    }
    fn ssz_bytes_len(&self) -> usize {
        self.as_slice().len()
    }
    fn ssz_fixed_len() -> usize {
        bytes_for_bit_len(N::to_usize())
    }
    fn ssz_append(&self, buf: &mut Vec<u8>) {
        buf.extend_from_slice(&self.bytes)
    }
}
impl<N: Unsigned + Clone> Decode for Bitfield<Fixed<N>> {
    fn is_ssz_fixed_len() -> bool {
        true
    }
    fn ssz_fixed_len() -> usize {
        bytes_for_bit_len(N::to_usize())
    }
    fn from_ssz_bytes(bytes: &[u8]) -> Result<Self, DecodeError> {
        Self::from_bytes(bytes.to_vec().into())
            .map_err(|e| DecodeError::BytesInvalid(format!("BitVector failed to decode: {e:?}")))
    }
}
macro_rules! serde_impl {
    ($b:ident) => {
        impl<N: Unsigned + Clone> Serialize for Bitfield<$b<N>> {
            fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
                s.serialize_str(&serde_utils::hex::encode(self.as_ssz_bytes()))
            }
        }
        impl<'de, N: Unsigned + Clone> Deserialize<'de> for Bitfield<$b<N>> {
            fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
                let bytes = d.deserialize_str(serde_utils::hex::PrefixedHexVisitor)?;
                Self::from_ssz_bytes(&bytes)
                    .map_err(|e| serde::de::Error::custom(format!("Bitfield {e:?}")))
            }
        }
    };
}
serde_impl!(Variable);
serde_impl!(Fixed);
