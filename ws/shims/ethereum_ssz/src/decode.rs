use std::{
    cmp::Ordering,
    collections::{BTreeMap, BTreeSet},
    convert::Infallible,
    fmt::Debug,
    num::NonZeroUsize,
    sync::Arc,
};

use alloy_primitives::{Address, Bloom, Bytes, FixedBytes, U128, U256};
use smallvec::{smallvec, SmallVec};

use crate::{UnionSelector, BYTES_PER_LENGTH_OFFSET, BYTES_PER_UNION_SELECTOR};

type SmallVec8<T> = SmallVec<[T; 8]>;

#[derive(Debug, PartialEq, Clone, Eq)]
pub enum DecodeError {
    InvalidByteLength { len: usize, expected: usize },
    InvalidLengthPrefix { len: usize, expected: usize },
    OutOfBoundsByte { i: usize },
    OffsetIntoFixedPortion(usize),
    OffsetSkipsVariableBytes(usize),
    OffsetsAreDecreasing(usize),
    OffsetOutOfBounds(usize),
    InvalidListFixedBytesLen(usize),
    ZeroLengthItem,
    BytesInvalid(String),
    UnionSelectorInvalid(u8),
    NoMatchingVariant,
}
impl std::fmt::Display for DecodeError {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "{self:?}")
    }
}
impl std::error::Error for DecodeError {}

pub fn sanitize_offset(
    offset: usize,
    previous_offset: Option<usize>,
    num_bytes: usize,
    num_fixed_bytes: Option<usize>,
) -> Result<usize, DecodeError> {
    if num_fixed_bytes.is_some_and(|fixed| offset < fixed) {
        Err(DecodeError::OffsetIntoFixedPortion(offset))
    } else if previous_offset.is_none()
        && num_fixed_bytes.is_some_and(|fixed| offset != fixed)
    {
        Err(DecodeError::OffsetSkipsVariableBytes(offset))
    } else if offset > num_bytes {
        Err(DecodeError::OffsetOutOfBounds(offset))
    } else if previous_offset.is_some_and(|p| p > offset) {
        Err(DecodeError::OffsetsAreDecreasing(offset))
    } else {
        Ok(offset)
    }
}

pub trait Decode: Sized {
    fn is_ssz_fixed_len() -> bool;
    fn ssz_fixed_len() -> usize {
        BYTES_PER_LENGTH_OFFSET
    }
    fn from_ssz_bytes(bytes: &[u8]) -> Result<Self, DecodeError>;
}

#[derive(Copy, Clone, Debug)]
struct Offset {
    position: usize,
    offset: usize,
}

pub struct SszDecoderBuilder<'a> {
    bytes: &'a [u8],
    items: SmallVec8<&'a [u8]>,
    offsets: SmallVec8<Offset>,
    items_index: usize,
}

impl<'a> SszDecoderBuilder<'a> {
    pub fn new(bytes: &'a [u8]) -> Self {
        Self {
            bytes,
            items: smallvec![],
            offsets: smallvec![],
            items_index: 0,
        }
    }
    pub fn register_anonymous_variable_length_item(&mut self) -> Result<(), DecodeError> {
        struct Anonymous;
        impl Decode for Anonymous {
            fn is_ssz_fixed_len() -> bool {
                false
            }
            fn from_ssz_bytes(_: &[u8]) -> Result<Self, DecodeError> {
                unreachable!("anonymous items are never decoded")
            }
        }
        self.register_type::<Anonymous>()
    }
    pub fn register_type<T: Decode>(&mut self) -> Result<(), DecodeError> {
        self.register_type_parameterized(T::is_ssz_fixed_len(), T::ssz_fixed_len())
    }
    pub fn register_type_parameterized(
        &mut self,
        is_ssz_fixed_len: bool,
        ssz_fixed_len: usize,
    ) -> Result<(), DecodeError> {
        if is_ssz_fixed_len {
            let start = self.items_index;
            self.items_index += ssz_fixed_len;
            let slice = self.bytes.get(start..self.items_index).ok_or_else(|| {
                DecodeError::InvalidByteLength {
                    len: self.bytes.len(),
                    expected: self.items_index,
                }
            })?;
            self.items.push(slice);
        } else {
            self.offsets.push(Offset {
                position: self.items.len(),
                offset: sanitize_offset(
                    read_offset(&self.bytes[self.items_index.min(self.bytes.len())..])?,
                    self.offsets.last().map(|o| o.offset),
                    self.bytes.len(),
                    None,
                )?,
            });
            self.items.push(&[]);
            self.items_index += BYTES_PER_LENGTH_OFFSET;
        }
        Ok(())
    }
    fn finalize(&mut self) -> Result<(), DecodeError> {
        if let Some(first_offset) = self.offsets.first().map(|o| o.offset) {
            match first_offset.cmp(&self.items_index) {
                Ordering::Less => return Err(DecodeError::OffsetIntoFixedPortion(first_offset)),
                Ordering::Greater => {
                    return Err(DecodeError::OffsetSkipsVariableBytes(first_offset))
                }
                Ordering::Equal => (),
            }
            for pair in self.offsets.windows(2) {
                let a = pair[0];
                let b = pair[1];
                self.items[a.position] = &self.bytes[a.offset..b.offset];
            }
            if let Some(last) = self.offsets.last() {
                self.items[last.position] = &self.bytes[last.offset..]
            }
        } else if self.items_index != self.bytes.len() {
            return Err(DecodeError::InvalidByteLength {
                len: self.bytes.len(),
                expected: self.items_index,
            });
        }
        Ok(())
    }
    pub fn build(mut self) -> Result<SszDecoder<'a>, DecodeError> {
        self.finalize()?;
        Ok(SszDecoder { items: self.items })
    }
}

pub struct SszDecoder<'a> {
    items: SmallVec8<&'a [u8]>,
}
impl<'a> SszDecoder<'a> {
    pub fn decode_next<T: Decode>(&mut self) -> Result<T, DecodeError> {
        self.decode_next_with(|s| T::from_ssz_bytes(s))
    }
    pub fn decode_next_with<T, F>(&mut self, f: F) -> Result<T, DecodeError>
    where
        F: FnOnce(&'a [u8]) -> Result<T, DecodeError>,
    {
        f(self.items.remove(0))
    }
}

pub fn split_union_bytes(bytes: &[u8]) -> Result<(UnionSelector, &[u8]), DecodeError> {
    let selector = bytes.first().copied().ok_or(DecodeError::OutOfBoundsByte { i: 0 })?;
    let body = bytes
        .get(BYTES_PER_UNION_SELECTOR..)
        .ok_or(DecodeError::OutOfBoundsByte {
            i: BYTES_PER_UNION_SELECTOR,
        })?;
    UnionSelector::new(selector).map(|s| (s, body))
}

pub fn read_offset(bytes: &[u8]) -> Result<usize, DecodeError> {
    let b = bytes
        .get(0..BYTES_PER_LENGTH_OFFSET)
        .ok_or(DecodeError::InvalidLengthPrefix {
            len: bytes.len(),
            expected: BYTES_PER_LENGTH_OFFSET,
        })?;
    Ok(u32::from_le_bytes([b[0], b[1], b[2], b[3]]) as usize)
}

pub trait TryFromIter<T>: Sized {
    type Error: Debug;
    fn try_from_iter<I>(iter: I) -> Result<Self, Self::Error>
    where
        I: IntoIterator<Item = T>;
}
impl<T> TryFromIter<T> for Vec<T> {
    type Error = Infallible;
    fn try_from_iter<I: IntoIterator<Item = T>>(iter: I) -> Result<Self, Infallible> {
        Ok(iter.into_iter().collect())
    }
}
impl<T: Ord> TryFromIter<T> for BTreeSet<T> {
    type Error = Infallible;
    fn try_from_iter<I: IntoIterator<Item = T>>(iter: I) -> Result<Self, Infallible> {
        Ok(iter.into_iter().collect())
    }
}
impl<K: Ord, V> TryFromIter<(K, V)> for BTreeMap<K, V> {
    type Error = Infallible;
    fn try_from_iter<I: IntoIterator<Item = (K, V)>>(iter: I) -> Result<Self, Infallible> {
        Ok(iter.into_iter().collect())
    }
}
impl<T, const N: usize> TryFromIter<T> for SmallVec<[T; N]>
where
    [T; N]: smallvec::Array<Item = T>,
{
    type Error = Infallible;
    fn try_from_iter<I: IntoIterator<Item = T>>(iter: I) -> Result<Self, Infallible> {
        Ok(iter.into_iter().collect())
    }
}

pub fn decode_list_of_variable_length_items<T: Decode, Container: TryFromIter<T>>(
    bytes: &[u8],
    max_len: Option<usize>,
) -> Result<Container, DecodeError> {
    if bytes.is_empty() {
        return Container::try_from_iter(std::iter::empty())
            .map_err(|e| DecodeError::BytesInvalid(format!("Error trying to collect empty list: {e:?}")));
    }
    let first_offset = read_offset(bytes)?;
    sanitize_offset(first_offset, None, bytes.len(), Some(first_offset))?;
    if first_offset % BYTES_PER_LENGTH_OFFSET != 0 || first_offset < BYTES_PER_LENGTH_OFFSET {
        return Err(DecodeError::InvalidListFixedBytesLen(first_offset));
    }
    let num_items = first_offset / BYTES_PER_LENGTH_OFFSET;
    if max_len.is_some_and(|max| num_items > max) {
        return Err(DecodeError::BytesInvalid(format!(
            "Variable length list of {num_items} items exceeds maximum of {max_len:?}"
        )));
    }
    let mut offset = first_offset;
    let mut error = None;
    let iter = (1..=num_items).map_while(|i| {
        let slice = if i == num_items {
            bytes.get(offset..).ok_or(DecodeError::OutOfBoundsByte { i: offset })
        } else {
            let start = offset;
            read_offset(&bytes[(i * BYTES_PER_LENGTH_OFFSET)..])
                .and_then(|next| sanitize_offset(next, Some(offset), bytes.len(), Some(first_offset)))
                .and_then(|next| {
                    offset = next;
                    bytes
                        .get(start..next)
                        .ok_or(DecodeError::OutOfBoundsByte { i: offset })
                })
        };
        match slice.and_then(T::from_ssz_bytes) {
            Ok(v) => Some(v),
            Err(e) => {
                error = Some(e);
                None
            }
        }
    });
    let out = Container::try_from_iter(iter)
        .map_err(|e| DecodeError::BytesInvalid(format!("Error collecting into container: {e:?}")));
    match error {
        Some(e) => Err(e),
        None => out,
    }
}

fn expect_len(bytes: &[u8], expected: usize) -> Result<(), DecodeError> {
    if bytes.len() != expected {
        return Err(DecodeError::InvalidByteLength {
            len: bytes.len(),
            expected,
        });
    }
    Ok(())
}

macro_rules! uint {
    ($($t:ty),*) => {$(
        impl Decode for $t {
            fn is_ssz_fixed_len() -> bool { true }
            fn ssz_fixed_len() -> usize { <$t>::BITS as usize / 8 }
            fn from_ssz_bytes(bytes: &[u8]) -> Result<Self, DecodeError> {
                expect_len(bytes, <Self as Decode>::ssz_fixed_len())?;
                let mut a = [0; <$t>::BITS as usize / 8];
                a.copy_from_slice(bytes);
                Ok(<$t>::from_le_bytes(a))
            }
        }
    )*};
}
uint!(u8, u16, u32, u64, usize, u128);

macro_rules! tuples {
    ($($t:ident $i:tt),*) => {
        impl<$($t: Decode),*> Decode for ($($t,)*) {
            fn is_ssz_fixed_len() -> bool { true $(&& $t::is_ssz_fixed_len())* }
            fn ssz_fixed_len() -> usize {
                if <Self as Decode>::is_ssz_fixed_len() { 0 $(+ $t::ssz_fixed_len())* } else { BYTES_PER_LENGTH_OFFSET }
            }
            fn from_ssz_bytes(bytes: &[u8]) -> Result<Self, DecodeError> {
                let mut b = SszDecoderBuilder::new(bytes);
                $( b.register_type::<$t>()?; )*
                let mut d = b.build()?;
                Ok(( $( d.decode_next::<$t>()?, )* ))
            }
        }
    };
}
tuples!(A 0, B 1);
tuples!(A 0, B 1, C 2);
tuples!(A 0, B 1, C 2, D 3);
tuples!(A 0, B 1, C 2, D 3, F 4);

impl Decode for bool {
    fn is_ssz_fixed_len() -> bool {
        true
    }
    fn ssz_fixed_len() -> usize {
        1
    }
    fn from_ssz_bytes(bytes: &[u8]) -> Result<Self, DecodeError> {
        expect_len(bytes, 1)?;
        match bytes[0] {
            0 => Ok(false),
            1 => Ok(true),
            _ => Err(DecodeError::BytesInvalid(format!(
                "Out-of-range for boolean: {}",
                bytes[0]
            ))),
        }
    }
}
impl Decode for NonZeroUsize {
    fn is_ssz_fixed_len() -> bool {
        true
    }
    fn ssz_fixed_len() -> usize {
        8
    }
    fn from_ssz_bytes(bytes: &[u8]) -> Result<Self, DecodeError> {
        NonZeroUsize::new(usize::from_ssz_bytes(bytes)?)
            .ok_or_else(|| DecodeError::BytesInvalid("NonZeroUsize cannot be zero.".into()))
    }
}
impl<T: Decode> Decode for Option<T> {
    fn is_ssz_fixed_len() -> bool {
        false
    }
    fn from_ssz_bytes(bytes: &[u8]) -> Result<Self, DecodeError> {
        let (selector, body) = split_union_bytes(bytes)?;
        match selector.into() {
            0u8 => {
                if body.is_empty() {
                    Ok(None)
                } else {
                    Err(DecodeError::InvalidByteLength { len: bytes.len(), expected: 1 })
                }
            }
            1u8 => T::from_ssz_bytes(body).map(Some),
            other => Err(DecodeError::UnionSelectorInvalid(other)),
        }
    }
}
impl<T: Decode> Decode for Arc<T> {
    fn is_ssz_fixed_len() -> bool {
        T::is_ssz_fixed_len()
    }
    fn ssz_fixed_len() -> usize {
        T::ssz_fixed_len()
    }
    fn from_ssz_bytes(bytes: &[u8]) -> Result<Self, DecodeError> {
        T::from_ssz_bytes(bytes).map(Arc::new)
    }
}
impl<T: Decode> Decode for Box<T> {
    fn is_ssz_fixed_len() -> bool {
        T::is_ssz_fixed_len()
    }
    fn ssz_fixed_len() -> usize {
        T::ssz_fixed_len()
    }
    fn from_ssz_bytes(bytes: &[u8]) -> Result<Self, DecodeError> {
        T::from_ssz_bytes(bytes).map(Box::new)
    }
}
macro_rules! fixed_bytes {
    ($([$($g:tt)*] $t:ty, $n:expr, $from:expr);* $(;)?) => {$(
        impl<$($g)*> Decode for $t {
            fn is_ssz_fixed_len() -> bool { true }
            fn ssz_fixed_len() -> usize { $n }
            fn from_ssz_bytes(bytes: &[u8]) -> Result<Self, DecodeError> {
                expect_len(bytes, $n)?;
                let f: fn(&[u8]) -> Self = $from;
                Ok(f(bytes))
            }
        }
    )*};
}
fixed_bytes! {
    [] Address, 20, |b| Address::from_slice(b);
    [const N: usize] FixedBytes<N>, N, |b| FixedBytes::from_slice(b);
    [const N: usize] [u8; N], N, |b| { let mut a = [0; N]; a.copy_from_slice(b); a };
    [] U256, 32, |b| U256::from_le_slice(b);
    [] U128, 16, |b| U128::from_le_slice(b);
    [] Bloom, 256, |b| Bloom::from_slice(b);
}
impl Decode for Bytes {
    fn is_ssz_fixed_len() -> bool {
        false
    }
    fn from_ssz_bytes(bytes: &[u8]) -> Result<Self, DecodeError> {
        Ok(bytes.to_vec().into())
    }
}
fn decode_seq<T: Decode, C: TryFromIter<T>>(bytes: &[u8]) -> Result<C, DecodeError> {
    if bytes.is_empty() {
        C::try_from_iter(std::iter::empty()).map_err(|e| DecodeError::BytesInvalid(format!("{e:?}")))
    } else if T::is_ssz_fixed_len() {
        let size = T::ssz_fixed_len();
        if size == 0 {
            return Err(DecodeError::ZeroLengthItem);
        }
        let items: Result<Vec<T>, _> = bytes.chunks(size).map(T::from_ssz_bytes).collect();
        C::try_from_iter(items?).map_err(|e| DecodeError::BytesInvalid(format!("{e:?}")))
    } else {
        decode_list_of_variable_length_items(bytes, None)
    }
}
impl<T: Decode> Decode for Vec<T> {
    fn is_ssz_fixed_len() -> bool {
        false
    }
    fn from_ssz_bytes(bytes: &[u8]) -> Result<Self, DecodeError> {
        decode_seq::<T, Self>(bytes)
    }
}
impl<T: Decode + Ord> Decode for BTreeSet<T> {
    fn is_ssz_fixed_len() -> bool {
        false
    }
    fn from_ssz_bytes(bytes: &[u8]) -> Result<Self, DecodeError> {
        decode_seq::<T, Self>(bytes)
    }
}
impl<K: Decode + Ord, V: Decode> Decode for BTreeMap<K, V> {
    fn is_ssz_fixed_len() -> bool {
        false
    }
    fn from_ssz_bytes(bytes: &[u8]) -> Result<Self, DecodeError> {
        decode_seq::<(K, V), Self>(bytes)
    }
}
impl<T: Decode, const N: usize> Decode for SmallVec<[T; N]>
where
    [T; N]: smallvec::Array<Item = T>,
{
    fn is_ssz_fixed_len() -> bool {
        false
    }
    fn from_ssz_bytes(bytes: &[u8]) -> Result<Self, DecodeError> {
        decode_seq::<T, Self>(bytes)
    }
}
