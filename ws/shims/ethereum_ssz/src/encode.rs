use std::{
    collections::{BTreeMap, BTreeSet},
    num::NonZeroUsize,
    sync::Arc,
};

use alloy_primitives::{Address, Bloom, Bytes, FixedBytes, U128, U256};
use smallvec::SmallVec;

use crate::{BYTES_PER_LENGTH_OFFSET, MAX_LENGTH_VALUE};

pub trait Encode {
    fn is_ssz_fixed_len() -> bool;
    fn ssz_append(&self, buf: &mut Vec<u8>);
    fn ssz_fixed_len() -> usize {
        BYTES_PER_LENGTH_OFFSET
    }
    fn ssz_bytes_len(&self) -> usize;
    fn as_ssz_bytes(&self) -> Vec<u8> {
        let mut buf = vec![];
        self.ssz_append(&mut buf);
        buf
    }
}

pub struct SszEncoder<'a> {
    offset: usize,
    buf: &'a mut Vec<u8>,
    variable_bytes: Vec<u8>,
}

impl<'a> SszEncoder<'a> {
    pub fn container(buf: &'a mut Vec<u8>, num_fixed_bytes: usize) -> Self {
        buf.reserve(num_fixed_bytes);
        Self {
            offset: num_fixed_bytes,
            buf,
            variable_bytes: vec![],
        }
    }
    pub fn append<T: Encode>(&mut self, item: &T) {
        self.append_parameterized(T::is_ssz_fixed_len(), |buf| item.ssz_append(buf))
    }
    pub fn append_parameterized<F: FnMut(&mut Vec<u8>)>(&mut self, is_ssz_fixed_len: bool, mut f: F) {
        if is_ssz_fixed_len {
            f(self.buf);
        } else {
            self.buf
                .extend_from_slice(&encode_length(self.offset + self.variable_bytes.len()));
            f(&mut self.variable_bytes);
        }
    }
    pub fn finalize(&mut self) -> &mut Vec<u8> {
        self.buf.append(&mut self.variable_bytes);
        self.buf
    }
}

pub fn encode_length(len: usize) -> [u8; BYTES_PER_LENGTH_OFFSET] {
    debug_assert!(len <= MAX_LENGTH_VALUE);
    (len as u32).to_le_bytes()
}
pub fn encode_union_selector(s: crate::UnionSelector) -> [u8; 1] {
    [s.into()]
}

macro_rules! uint {
    ($($t:ty),*) => {$(
        impl Encode for $t {
            fn is_ssz_fixed_len() -> bool { true }
            fn ssz_fixed_len() -> usize { <$t>::BITS as usize / 8 }
            fn ssz_bytes_len(&self) -> usize { <$t>::BITS as usize / 8 }
            fn ssz_append(&self, buf: &mut Vec<u8>) { buf.extend_from_slice(&self.to_le_bytes()); }
        }
    )*};
}
uint!(u8, u16, u32, u64, usize, u128);

macro_rules! tuples {
    ($($t:ident $i:tt),*) => {
        impl<$($t: Encode),*> Encode for ($($t,)*) {
            fn is_ssz_fixed_len() -> bool { true $(&& $t::is_ssz_fixed_len())* }
            fn ssz_fixed_len() -> usize {
                if <Self as Encode>::is_ssz_fixed_len() { 0 $(+ $t::ssz_fixed_len())* } else { BYTES_PER_LENGTH_OFFSET }
            }
            fn ssz_bytes_len(&self) -> usize {
                if <Self as Encode>::is_ssz_fixed_len() {
                    <Self as Encode>::ssz_fixed_len()
                } else {
                    let mut len = 0;
                    $(
                        len += if $t::is_ssz_fixed_len() { $t::ssz_fixed_len() } else { BYTES_PER_LENGTH_OFFSET + self.$i.ssz_bytes_len() };
                    )*
                    len
                }
            }
            fn ssz_append(&self, buf: &mut Vec<u8>) {
                let offset = 0 $(+ $t::ssz_fixed_len())*;
                let mut e = SszEncoder::container(buf, offset);
                $( e.append(&self.$i); )*
                e.finalize();
            }
        }
    };
}
tuples!(A 0, B 1);
tuples!(A 0, B 1, C 2);
tuples!(A 0, B 1, C 2, D 3);
tuples!(A 0, B 1, C 2, D 3, F 4);

impl<T: Encode> Encode for Option<T> {
    fn is_ssz_fixed_len() -> bool {
        false
    }
    fn ssz_append(&self, buf: &mut Vec<u8>) {
        match self {
            None => buf.push(0),
            Some(t) => {
                buf.push(1);
                t.ssz_append(buf);
            }
        }
    }
    fn ssz_bytes_len(&self) -> usize {
        1 + self.as_ref().map(|t| t.ssz_bytes_len()).unwrap_or(0)
    }
}
impl<T: Encode> Encode for Arc<T> {
    fn is_ssz_fixed_len() -> bool {
        T::is_ssz_fixed_len()
    }
    fn ssz_fixed_len() -> usize {
        T::ssz_fixed_len()
    }
    fn ssz_append(&self, buf: &mut Vec<u8>) {
        (**self).ssz_append(buf)
    }
    fn ssz_bytes_len(&self) -> usize {
        (**self).ssz_bytes_len()
    }
}
impl<T: Encode> Encode for Box<T> {
    fn is_ssz_fixed_len() -> bool {
        T::is_ssz_fixed_len()
    }
    fn ssz_fixed_len() -> usize {
        T::ssz_fixed_len()
    }
    fn ssz_append(&self, buf: &mut Vec<u8>) {
        (**self).ssz_append(buf)
    }
    fn ssz_bytes_len(&self) -> usize {
        (**self).ssz_bytes_len()
    }
}
impl<T: Encode> Encode for &T {
    fn is_ssz_fixed_len() -> bool {
        T::is_ssz_fixed_len()
    }
    fn ssz_fixed_len() -> usize {
        T::ssz_fixed_len()
    }
    fn ssz_append(&self, buf: &mut Vec<u8>) {
        T::ssz_append(self, buf)
    }
    fn ssz_bytes_len(&self) -> usize {
        T::ssz_bytes_len(self)
    }
}

pub fn sequence_ssz_bytes_len<I, T>(iter: I) -> usize
where
    I: Iterator<Item = T> + ExactSizeIterator,
    T: Encode,
{
    if T::is_ssz_fixed_len() {
        T::ssz_fixed_len() * iter.len()
    } else {
        let n = iter.len();
        iter.map(|i| i.ssz_bytes_len()).sum::<usize>() + BYTES_PER_LENGTH_OFFSET * n
    }
}
pub fn sequence_ssz_append<I, T>(iter: I, buf: &mut Vec<u8>)
where
    I: Iterator<Item = T> + ExactSizeIterator,
    T: Encode,
{
    if T::is_ssz_fixed_len() {
        buf.reserve(T::ssz_fixed_len() * iter.len());
        for item in iter {
            item.ssz_append(buf);
        }
    } else {
        let mut e = SszEncoder::container(buf, iter.len() * BYTES_PER_LENGTH_OFFSET);
        for item in iter {
            e.append(&item);
        }
        e.finalize();
    }
}
macro_rules! seq {
    ([$($g:tt)*] $t:ty) => {
        impl<$($g)*> Encode for $t {
            fn is_ssz_fixed_len() -> bool { false }
            fn ssz_bytes_len(&self) -> usize { sequence_ssz_bytes_len(self.iter()) }
            fn ssz_append(&self, buf: &mut Vec<u8>) { sequence_ssz_append(self.iter(), buf) }
        }
    };
}
seq!([T: Encode] Vec<T>);
seq!([T: Encode] [T]);
seq!([T: Encode] BTreeSet<T>);
impl<T: Encode, const N: usize> Encode for SmallVec<[T; N]>
where
    [T; N]: smallvec::Array<Item = T>,
{
    fn is_ssz_fixed_len() -> bool {
        false
    }
    fn ssz_bytes_len(&self) -> usize {
        sequence_ssz_bytes_len(self.iter())
    }
    fn ssz_append(&self, buf: &mut Vec<u8>) {
        sequence_ssz_append(self.iter(), buf)
    }
}
impl<K: Encode + Ord, V: Encode> Encode for BTreeMap<K, V> {
    fn is_ssz_fixed_len() -> bool {
        false
    }
    fn ssz_bytes_len(&self) -> usize {
        let v: Vec<(&K, &V)> = self.iter().collect();
        sequence_ssz_bytes_len(v.iter())
    }
    fn ssz_append(&self, buf: &mut Vec<u8>) {
        let v: Vec<(&K, &V)> = self.iter().collect();
        sequence_ssz_append(v.iter(), buf)
    }
}
impl Encode for bool {
    fn is_ssz_fixed_len() -> bool {
        true
    }
    fn ssz_fixed_len() -> usize {
        1
    }
    fn ssz_bytes_len(&self) -> usize {
        1
    }
    fn ssz_append(&self, buf: &mut Vec<u8>) {
        buf.push(*self as u8)
    }
}
impl Encode for NonZeroUsize {
    fn is_ssz_fixed_len() -> bool {
        true
    }
    fn ssz_fixed_len() -> usize {
        8
    }
    fn ssz_bytes_len(&self) -> usize {
        8
    }
    fn ssz_append(&self, buf: &mut Vec<u8>) {
        self.get().ssz_append(buf)
    }
}
macro_rules! fixed_bytes {
    ($([$($g:tt)*] $t:ty, $n:expr);* $(;)?) => {$(
        impl<$($g)*> Encode for $t {
            fn is_ssz_fixed_len() -> bool { true }
            fn ssz_fixed_len() -> usize { $n }
            fn ssz_bytes_len(&self) -> usize { $n }
            fn ssz_append(&self, buf: &mut Vec<u8>) { buf.extend_from_slice(&self[..]) }
        }
    )*};
}
fixed_bytes! {
    [] Address, 20;
    [const N: usize] FixedBytes<N>, N;
    [const N: usize] [u8; N], N;
}
impl Encode for Bloom {
    fn is_ssz_fixed_len() -> bool {
        true
    }
    fn ssz_fixed_len() -> usize {
        256
    }
    fn ssz_bytes_len(&self) -> usize {
        256
    }
    fn ssz_append(&self, buf: &mut Vec<u8>) {
        buf.extend_from_slice(&self.0[..])
    }
}
impl Encode for Bytes {
    fn is_ssz_fixed_len() -> bool {
        false
    }
    fn ssz_bytes_len(&self) -> usize {
        self.0.len()
    }
    fn ssz_append(&self, buf: &mut Vec<u8>) {
        buf.extend_from_slice(&self.0)
    }
}
impl Encode for U256 {
    fn is_ssz_fixed_len() -> bool {
        true
    }
    fn ssz_fixed_len() -> usize {
        32
    }
    fn ssz_bytes_len(&self) -> usize {
        32
    }
    fn ssz_append(&self, buf: &mut Vec<u8>) {
        buf.extend_from_slice(self.as_le_slice())
    }
}
impl Encode for U128 {
    fn is_ssz_fixed_len() -> bool {
        true
    }
    fn ssz_fixed_len() -> usize {
        16
    }
    fn ssz_bytes_len(&self) -> usize {
        16
    }
    fn ssz_append(&self, buf: &mut Vec<u8>) {
        buf.extend_from_slice(self.as_le_slice())
    }
}
