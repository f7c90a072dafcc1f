//! Fixed and bounded lists with the interface of the `ssz_types` crate.
use std::{
    fmt,
    marker::PhantomData,
    ops::{Deref, DerefMut, Index, IndexMut},
    slice::SliceIndex,
};

use serde::{Deserialize, Deserializer, Serialize};
use ssz::{Decode, DecodeError, Encode, TryFromIter};
pub use ssz::{BitList, BitVector, Bitfield};
use tree_hash::{Hash256, MerkleHasher, PackedEncoding, TreeHash, TreeHashType};
pub use typenum;
use typenum::Unsigned;

pub mod length {
    pub use ssz::bitfield_types::{Fixed, Variable};
}

#[derive(Debug, PartialEq, Clone, Eq)]
pub enum Error {
    OutOfBounds { i: usize, len: usize },
    InvalidByteCount { given: usize, expected: usize },
    MissingLengthInformation,
    ExcessBits,
}
impl fmt::Display for Error {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "{self:?}")
    }
}
impl std::error::Error for Error {}

#[derive(Clone, Serialize)]
#[serde(transparent)]
pub struct FixedVector<T, N> {
    vec: Vec<T>,
    #[serde(skip)]
    _p: PhantomData<N>,
}
#[derive(Clone, Serialize)]
#[serde(transparent)]
pub struct VariableList<T, N> {
    vec: Vec<T>,
    #[serde(skip)]
    _p: PhantomData<N>,
}

macro_rules! common {
    ($t:ident) => {
        impl<T: fmt::Debug, N> fmt::Debug for $t<T, N> {
            fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
                self.vec.fmt(f)
            }
        }
        impl<T: PartialEq, N> PartialEq for $t<T, N> {
            fn eq(&self, o: &Self) -> bool {
                self.vec == o.vec
            }
        }
        impl<T: Eq, N> Eq for $t<T, N> {}
        impl<T: std::hash::Hash, N> std::hash::Hash for $t<T, N> {
            fn hash<H: std::hash::Hasher>(&self, h: &mut H) {
                self.vec.hash(h)
            }
        }
        impl<T, N: Unsigned> From<$t<T, N>> for Vec<T> {
            fn from(v: $t<T, N>) -> Vec<T> {
                v.vec
            }
        }
        impl<T, N: Unsigned, I: SliceIndex<[T]>> Index<I> for $t<T, N> {
            type Output = I::Output;
            fn index(&self, i: I) -> &Self::Output {
                Index::index(&self.vec, i)
            }
        }
        impl<T, N: Unsigned, I: SliceIndex<[T]>> IndexMut<I> for $t<T, N> {
            fn index_mut(&mut self, i: I) -> &mut Self::Output {
                IndexMut::index_mut(&mut self.vec, i)
            }
        }
        impl<T, N: Unsigned> Deref for $t<T, N> {
            type Target = [T];
            fn deref(&self) -> &[T] {
                &self.vec[..]
            }
        }
        impl<T, N: Unsigned> DerefMut for $t<T, N> {
            fn deref_mut(&mut self) -> &mut [T] {
                &mut self.vec[..]
            }
        }
        impl<'a, T, N: Unsigned> IntoIterator for &'a $t<T, N> {
            type Item = &'a T;
            type IntoIter = std::slice::Iter<'a, T>;
            fn into_iter(self) -> Self::IntoIter {
                self.vec.iter()
            }
        }
        impl<T, N: Unsigned> IntoIterator for $t<T, N> {
            type Item = T;
            type IntoIter = std::vec::IntoIter<T>;
            fn into_iter(self) -> Self::IntoIter {
                self.vec.into_iter()
            }
        }
        impl<'de, T: Deserialize<'de>, N: Unsigned> Deserialize<'de> for $t<T, N>
        where
            Self: BuildChecked<T>,
        {
            fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
                let vec = Vec::<T>::deserialize(d)?;
                Self::build_checked(vec).map_err(|e| serde::de::Error::custom(format!("{e:?}")))
            }
        }
    };
}
#[doc(hidden)]
pub trait BuildChecked<T>: Sized {
    fn build_checked(v: Vec<T>) -> Result<Self, Error>;
}
impl<T, N: Unsigned> BuildChecked<T> for FixedVector<T, N> {
    fn build_checked(vec: Vec<T>) -> Result<Self, Error> {
        if vec.len() == N::to_usize() {
            Ok(Self {
                vec,
                _p: PhantomData,
            })
        } else {
            Err(Error::OutOfBounds {
                i: vec.len(),
                len: N::to_usize(),
            })
        }
    }
}
impl<T, N: Unsigned> BuildChecked<T> for VariableList<T, N> {
    fn build_checked(vec: Vec<T>) -> Result<Self, Error> {
        Self::new(vec)
    }
}
common!(FixedVector);
common!(VariableList);

impl<T, N: Unsigned> FixedVector<T, N> {
    pub fn new(vec: Vec<T>) -> Result<Self, Error>
    where
        T: Default,
    {
        Self::build_checked(vec)
    }
    pub fn from_elem(elem: T) -> Self
    where
        T: Clone,
    {
        Self {
            vec: vec![elem; N::to_usize()],
            _p: PhantomData,
        }
    }
    pub fn len(&self) -> usize {
        self.vec.len()
    }
    pub fn is_empty(&self) -> bool {
        self.len() == 0
    }
    pub fn capacity() -> usize {
        N::to_usize()
    }
    pub fn to_vec(&self) -> Vec<T>
    where
        T: Clone,
    {
        self.vec.clone()
    }
}
impl<T: Default, N: Unsigned> From<Vec<T>> for FixedVector<T, N> {
    fn from(mut vec: Vec<T>) -> Self {
        vec.resize_with(N::to_usize(), Default::default);
        Self {
            vec,
            _p: PhantomData,
        }
    }
}
impl<T: Default, N: Unsigned> Default for FixedVector<T, N> {
    fn default() -> Self {
        Self {
            vec: (0..N::to_usize()).map(|_| T::default()).collect(),
            _p: PhantomData,
        }
    }
}
impl<T, N: Unsigned> TryFromIter<T> for FixedVector<T, N> {
    type Error = Error;
    fn try_from_iter<I: IntoIterator<Item = T>>(iter: I) -> Result<Self, Error> {
        Self::build_checked(iter.into_iter().collect())
    }
}

impl<T, N: Unsigned> VariableList<T, N> {
    pub fn new(vec: Vec<T>) -> Result<Self, Error> {
        if vec.len() <= N::to_usize() {
            Ok(Self {
                vec,
                _p: PhantomData,
            })
        } else {
            Err(Error::OutOfBounds {
                i: vec.len(),
                len: N::to_usize(),
            })
        }
    }
    pub fn empty() -> Self {
        Self {
            vec: vec![],
            _p: PhantomData,
        }
    }
    pub fn len(&self) -> usize {
        self.vec.len()
    }
    pub fn is_empty(&self) -> bool {
        self.len() == 0
    }
    pub fn max_len() -> usize {
        N::to_usize()
    }
    pub fn push(&mut self, value: T) -> Result<(), Error> {
        if self.vec.len() < N::to_usize() {
            self.vec.push(value);
            Ok(())
        } else {
            Err(Error::OutOfBounds {
                i: self.vec.len() + 1,
                len: N::to_usize(),
            })
        }
    }
}
impl<T, N: Unsigned> From<Vec<T>> for VariableList<T, N> {
    fn from(mut vec: Vec<T>) -> Self {
        vec.truncate(N::to_usize());
        Self {
            vec,
            _p: PhantomData,
        }
    }
}
impl<T, N: Unsigned> Default for VariableList<T, N> {
    fn default() -> Self {
        Self::empty()
    }
}
impl<T, N: Unsigned> TryFromIter<T> for VariableList<T, N> {
    type Error = Error;
    fn try_from_iter<I: IntoIterator<Item = T>>(iter: I) -> Result<Self, Error> {
        let n = N::to_usize();
        let clamped = n.min(1024);
        let mut out = Vec::with_capacity(clamped.min(64));
        for v in iter {
            if out.len() >= n {
                return Err(Error::OutOfBounds {
                    i: out.len() + 1,
                    len: n,
                });
            }
            out.push(v);
        }
        Self::new(out)
    }
}
impl<T, N: Unsigned> FromIterator<T> for VariableList<T, N> {
    fn from_iter<I: IntoIterator<Item = T>>(iter: I) -> Self {
        Self {
            vec: iter.into_iter().take(N::to_usize()).collect(),
            _p: PhantomData,
        }
    }
}

fn vec_tree_hash_root<T: TreeHash, N: Unsigned>(vec: &[T]) -> Hash256 {
    match T::tree_hash_type() {
        TreeHashType::Basic => {
            let f = T::tree_hash_packing_factor();
            let mut hasher = MerkleHasher::with_leaves(N::to_usize().div_ceil(f));
            for item in vec {
                hasher
                    .write(&item.tree_hash_packed_encoding())
                    .expect("ssz_types variable vec should not contain more elements than max");
            }
            hasher.finish().expect("finish")
        }
        _ => {
            let mut hasher = MerkleHasher::with_leaves(N::to_usize());
            for item in vec {
                hasher
                    .write(item.tree_hash_root().as_slice())
                    .expect("ssz_types vec should not contain more elements than max");
            }
            hasher.finish().expect("finish")
        }
    }
}
impl<T: TreeHash, N: Unsigned> TreeHash for FixedVector<T, N> {
    fn tree_hash_type() -> TreeHashType {
        TreeHashType::Vector
    }
    fn tree_hash_packed_encoding(&self) -> PackedEncoding {
        unreachable!("Vector should never be packed.")
    }
    fn tree_hash_packing_factor() -> usize {
        unreachable!("Vector should never be packed.")
    }
    fn tree_hash_root(&self) -> Hash256 {
        vec_tree_hash_root::<T, N>(&self.vec)
    }
}
impl<T: TreeHash, N: Unsigned> TreeHash for VariableList<T, N> {
    fn tree_hash_type() -> TreeHashType {
        TreeHashType::List
    }
    fn tree_hash_packed_encoding(&self) -> PackedEncoding {
        unreachable!("List should never be packed.")
    }
    fn tree_hash_packing_factor() -> usize {
        unreachable!("List should never be packed.")
    }
    fn tree_hash_root(&self) -> Hash256 {
        tree_hash::mix_in_length(&vec_tree_hash_root::<T, N>(&self.vec), self.len())
    }
}

impl<T: Encode, N: Unsigned> Encode for FixedVector<T, N> {
    fn is_ssz_fixed_len() -> bool {
        T::is_ssz_fixed_len()
    }
    fn ssz_fixed_len() -> usize {
        if <Self as Encode>::is_ssz_fixed_len() {
            T::ssz_fixed_len() * N::to_usize()
        } else {
            ssz::BYTES_PER_LENGTH_OFFSET
        }
    }
    fn ssz_bytes_len(&self) -> usize {
        self.vec.ssz_bytes_len()
    }
    fn ssz_append(&self, buf: &mut Vec<u8>) {
        self.vec.ssz_append(buf)
    }
}
impl<T: Decode, N: Unsigned> Decode for FixedVector<T, N> {
    fn is_ssz_fixed_len() -> bool {
        T::is_ssz_fixed_len()
    }
    fn ssz_fixed_len() -> usize {
        if <Self as Decode>::is_ssz_fixed_len() {
            T::ssz_fixed_len() * N::to_usize()
        } else {
            ssz::BYTES_PER_LENGTH_OFFSET
        }
    }
    fn from_ssz_bytes(bytes: &[u8]) -> Result<Self, DecodeError> {
        let fixed_len = N::to_usize();
        if bytes.is_empty() {
            Err(DecodeError::InvalidByteLength {
                len: 0,
                expected: 1,
            })
        } else if T::is_ssz_fixed_len() {
            let num_items = bytes
                .len()
                .checked_div(T::ssz_fixed_len())
                .ok_or(DecodeError::ZeroLengthItem)?;
            if num_items != fixed_len {
                return Err(DecodeError::BytesInvalid(format!(
                    "FixedVector of {num_items} items has {fixed_len} items"
                )));
            }
            let items: Result<Vec<T>, _> = bytes.chunks(T::ssz_fixed_len()).map(T::from_ssz_bytes).collect();
            Self::build_checked(items?).map_err(|e| {
                DecodeError::BytesInvalid(format!("Wrong number of FixedVector elements: {e:?}"))
            })
        } else {
            let vec: Vec<T> = ssz::decode_list_of_variable_length_items(bytes, Some(fixed_len))?;
            Self::build_checked(vec).map_err(|e| {
                DecodeError::BytesInvalid(format!("Wrong number of FixedVector elements: {e:?}"))
            })
        }
    }
}
impl<T: Encode, N: Unsigned> Encode for VariableList<T, N> {
    fn is_ssz_fixed_len() -> bool {
        false
    }
    fn ssz_bytes_len(&self) -> usize {
        self.vec.ssz_bytes_len()
    }
    fn ssz_append(&self, buf: &mut Vec<u8>) {
        self.vec.ssz_append(buf)
    }
}
impl<T: Decode, N: Unsigned> Decode for VariableList<T, N> {
    fn is_ssz_fixed_len() -> bool {
        false
    }
    fn from_ssz_bytes(bytes: &[u8]) -> Result<Self, DecodeError> {
        let max_len = N::to_usize();
        if bytes.is_empty() {
            Ok(Self::empty())
        } else if T::is_ssz_fixed_len() {
            let num_items = bytes
                .len()
                .checked_div(T::ssz_fixed_len())
                .ok_or(DecodeError::ZeroLengthItem)?;
            if num_items > max_len {
                return Err(DecodeError::BytesInvalid(format!(
                    "VariableList of {num_items} items exceeds maximum of {max_len}"
                )));
            }
            let mut v = Vec::with_capacity(num_items);
            for c in bytes.chunks(T::ssz_fixed_len()) {
                v.push(T::from_ssz_bytes(c)?);
            }
            Self::new(v).map_err(|e| DecodeError::BytesInvalid(format!("{e:?}")))
        } else {
            ssz::decode_list_of_variable_length_items(bytes, Some(max_len))
        }
    }
}

pub mod serde_utils {
    pub mod hex_fixed_vec {
        use serde::{Deserializer, Serializer};
        use typenum::Unsigned;

        use crate::FixedVector;
        pub fn serialize<S: Serializer, U: Unsigned>(b: &FixedVector<u8, U>, s: S) -> Result<S::Ok, S::Error> {
            s.serialize_str(&serde_utils::hex::encode(&b[..]))
        }
        pub fn deserialize<'de, D: Deserializer<'de>, U: Unsigned>(d: D) -> Result<FixedVector<u8, U>, D::Error> {
            let vec = d.deserialize_string(serde_utils::hex::PrefixedHexVisitor)?;
            FixedVector::new(vec).map_err(|e| serde::de::Error::custom(format!("invalid fixed vector: {e:?}")))
        }
    }
    pub mod hex_var_list {
        use serde::{Deserializer, Serializer};
        use typenum::Unsigned;

        use crate::VariableList;
        pub fn serialize<S: Serializer, N: Unsigned>(b: &VariableList<u8, N>, s: S) -> Result<S::Ok, S::Error> {
            s.serialize_str(&serde_utils::hex::encode(&b[..]))
        }
        pub fn deserialize<'de, D: Deserializer<'de>, N: Unsigned>(d: D) -> Result<VariableList<u8, N>, D::Error> {
            let bytes = d.deserialize_str(serde_utils::hex::PrefixedHexVisitor)?;
            VariableList::new(bytes)
                .map_err(|e| serde::de::Error::custom(format!("invalid variable list: {e:?}")))
        }
    }
    pub mod list_of_hex_var_list {
        use serde::{ser::SerializeSeq, Deserialize, Deserializer, Serialize, Serializer};
        use typenum::Unsigned;

        use crate::VariableList;
        #[derive(Deserialize, Serialize)]
        #[serde(bound = "")]
        struct W<N: Unsigned>(#[serde(with = "super::hex_var_list")] VariableList<u8, N>);
        pub fn serialize<S, M, N>(list: &VariableList<VariableList<u8, M>, N>, s: S) -> Result<S::Ok, S::Error>
        where
            S: Serializer,
            M: Unsigned + Clone,
            N: Unsigned,
        {
            let mut seq = s.serialize_seq(Some(list.len()))?;
            for b in list.iter() {
                seq.serialize_element(&W(b.clone()))?;
            }
            seq.end()
        }
        pub fn deserialize<'de, D, M, N>(d: D) -> Result<VariableList<VariableList<u8, M>, N>, D::Error>
        where
            D: Deserializer<'de>,
            M: Unsigned,
            N: Unsigned,
        {
            let v = Vec::<W<M>>::deserialize(d)?;
            VariableList::new(v.into_iter().map(|w| w.0).collect())
                .map_err(|e| serde::de::Error::custom(format!("{e:?}")))
        }
    }
    pub mod quoted_u64_fixed_vec {
        use serde::{Deserializer, Serializer};
        use typenum::Unsigned;

        use crate::FixedVector;
        pub fn serialize<S: Serializer, N: Unsigned>(v: &FixedVector<u64, N>, s: S) -> Result<S::Ok, S::Error> {
            serde_utils::quoted_u64_vec::serialize(&v[..], s)
        }
        pub fn deserialize<'de, D: Deserializer<'de>, N: Unsigned>(d: D) -> Result<FixedVector<u64, N>, D::Error> {
            let v: Vec<u64> = serde_utils::quoted_u64_vec::deserialize(d)?;
            FixedVector::new(v).map_err(|e| serde::de::Error::custom(format!("{e:?}")))
        }
    }
    pub mod quoted_u64_var_list {
        use serde::{Deserializer, Serializer};
        use typenum::Unsigned;

        use crate::VariableList;
        pub fn serialize<S: Serializer, N: Unsigned>(v: &VariableList<u64, N>, s: S) -> Result<S::Ok, S::Error> {
            serde_utils::quoted_u64_vec::serialize(&v[..], s)
        }
        pub fn deserialize<'de, D: Deserializer<'de>, N: Unsigned>(d: D) -> Result<VariableList<u64, N>, D::Error> {
            let v: Vec<u64> = serde_utils::quoted_u64_vec::deserialize(d)?;
            VariableList::new(v).map_err(|e| serde::de::Error::custom(format!("{e:?}")))
        }
    }
}
