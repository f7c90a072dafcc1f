//! RLP encoding and decoding with the interface of the `alloy-rlp` crate.
extern crate self as alloy_rlp;

pub use alloy_rlp_derive::{RlpDecodable, RlpDecodableWrapper, RlpEncodable, RlpEncodableWrapper};
pub use bytes::{self, Buf, BufMut, Bytes, BytesMut};

use std::{
    borrow::Cow,
    fmt,
    net::{IpAddr, Ipv4Addr, Ipv6Addr},
    rc::Rc,
    sync::Arc,
};

pub const EMPTY_STRING_CODE: u8 = 0x80;
pub const EMPTY_LIST_CODE: u8 = 0xC0;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Error {
    Overflow,
    LeadingZero,
    InputTooShort,
    NonCanonicalSingleByte,
    NonCanonicalSize,
    UnexpectedLength,
    UnexpectedString,
    UnexpectedList,
    ListLengthMismatch { expected: usize, got: usize },
    Custom(&'static str),
}
pub type Result<T, E = Error> = std::result::Result<T, E>;
impl std::error::Error for Error {}
impl fmt::Display for Error {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        match self {
            Self::Overflow => f.write_str("overflow"),
            Self::LeadingZero => f.write_str("leading zero"),
            Self::InputTooShort => f.write_str("input too short"),
            Self::NonCanonicalSingleByte => f.write_str("non-canonical single byte"),
            Self::NonCanonicalSize => f.write_str("non-canonical size"),
            Self::UnexpectedLength => f.write_str("unexpected length"),
            Self::UnexpectedString => f.write_str("unexpected string"),
            Self::UnexpectedList => f.write_str("unexpected list"),
            Self::ListLengthMismatch { got, expected } => {
                write!(f, "unexpected list length (got {got}, expected {expected})")
            }
            Self::Custom(s) => f.write_str(s),
        }
    }
}

#[derive(Clone, Copy, Debug, Default, PartialEq, Eq)]
pub struct Header {
    pub list: bool,
    pub payload_length: usize,
}

pub enum PayloadView<'a> {
    String(&'a [u8]),
    List(Vec<&'a [u8]>),
}

fn get_next_byte(buf: &mut &[u8]) -> Result<u8> {
    let (first, rest) = buf.split_first().ok_or(Error::InputTooShort)?;
    *buf = rest;
    Ok(*first)
}

impl Header {
    pub fn decode(buf: &mut &[u8]) -> Result<Self> {
        let payload_length;
        let mut list = false;
        let first = *buf.first().ok_or(Error::InputTooShort)?;
        match first {
            0..=0x7F => payload_length = 1,
            b @ EMPTY_STRING_CODE..=0xB7 => {
                *buf = &buf[1..];
                payload_length = (b - EMPTY_STRING_CODE) as usize;
                if payload_length == 1 && *buf.first().ok_or(Error::InputTooShort)? < EMPTY_STRING_CODE
                {
                    return Err(Error::NonCanonicalSingleByte);
                }
            }
            b @ (0xB8..=0xBF | 0xF8..=0xFF) => {
                *buf = &buf[1..];
                list = b >= 0xF8;
                let code = if list { 0xF7 } else { 0xB7 };
                let len_of_len = (b - code) as usize;
                if len_of_len > buf.len() {
                    return Err(Error::InputTooShort);
                }
                let (len, rest) = buf.split_at(len_of_len);
                *buf = rest;
                let len = static_left_pad::<8>(len)?;
                let len = u64::from_be_bytes(len);
                payload_length = usize::try_from(len).map_err(|_| Error::Overflow)?;
                if payload_length < 56 {
                    return Err(Error::NonCanonicalSize);
                }
            }
            b @ EMPTY_LIST_CODE..=0xF7 => {
                *buf = &buf[1..];
                list = true;
                payload_length = (b - EMPTY_LIST_CODE) as usize;
            }
        }
        if buf.len() < payload_length {
            return Err(Error::InputTooShort);
        }
        Ok(Self {
            list,
            payload_length,
        })
    }
    pub fn decode_bytes<'a>(buf: &mut &'a [u8], is_list: bool) -> Result<&'a [u8]> {
        let Self {
            list,
            payload_length,
        } = Self::decode(buf)?;
        if list != is_list {
            return Err(if is_list {
                Error::UnexpectedString
            } else {
                Error::UnexpectedList
            });
        }
        let (a, b) = buf.split_at(payload_length);
        *buf = b;
        Ok(a)
    }
    pub fn decode_str<'a>(buf: &mut &'a [u8]) -> Result<&'a str> {
        let b = Self::decode_bytes(buf, false)?;
        std::str::from_utf8(b).map_err(|_| Error::Custom("invalid string"))
    }
    pub fn decode_raw<'a>(buf: &mut &'a [u8]) -> Result<PayloadView<'a>> {
        let Self {
            list,
            payload_length,
        } = Self::decode(buf)?;
        let (mut payload, rest) = buf.split_at(payload_length);
        *buf = rest;
        if !list {
            return Ok(PayloadView::String(payload));
        }
        let mut items = vec![];
        while !payload.is_empty() {
            let start = payload;
            let h = Self::decode(&mut payload)?;
            payload = &payload[h.payload_length..];
            items.push(&start[..start.len() - payload.len()]);
        }
        Ok(PayloadView::List(items))
    }
    pub fn encode(&self, out: &mut dyn BufMut) {
        if self.payload_length < 56 {
            let code = if self.list {
                EMPTY_LIST_CODE
            } else {
                EMPTY_STRING_CODE
            };
            out.put_u8(code + self.payload_length as u8);
        } else {
            let be = self.payload_length.to_be_bytes();
            let be = &be[(self.payload_length.leading_zeros() / 8) as usize..];
            let code = if self.list { 0xF7 } else { 0xB7 };
            out.put_u8(code + be.len() as u8);
            out.put_slice(be);
        }
    }
    pub const fn length(&self) -> usize {
        length_of_length(self.payload_length)
    }
    pub const fn length_with_payload(&self) -> usize {
        self.length() + self.payload_length
    }
}

pub const fn length_of_length(payload_length: usize) -> usize {
    if payload_length < 56 {
        1
    } else {
        1 + (usize::BITS as usize / 8) - payload_length.leading_zeros() as usize / 8
    }
}

fn static_left_pad<const N: usize>(data: &[u8]) -> Result<[u8; N]> {
    if data.len() > N {
        return Err(Error::Overflow);
    }
    let mut v = [0; N];
    if data.is_empty() {
        return Ok(v);
    }
    if data[0] == 0 {
        return Err(Error::LeadingZero);
    }
    v[N - data.len()..].copy_from_slice(data);
    Ok(v)
}

/// # Safety
/// `LEN` must be an upper bound of the encoded length.
pub unsafe trait MaxEncodedLen<const LEN: usize>: Encodable {}
/// # Safety
/// `LEN` must be an upper bound of the encoded length.
pub unsafe trait MaxEncodedLenAssoc: Encodable {
    const LEN: usize;
}

pub trait Encodable {
    fn encode(&self, out: &mut dyn BufMut);
    fn length(&self) -> usize {
        let mut out = Vec::new();
        self.encode(&mut out);
        out.len()
    }
}

pub trait Decodable: Sized {
    fn decode(buf: &mut &[u8]) -> Result<Self>;
}

impl Encodable for [u8] {
    fn length(&self) -> usize {
        let mut len = self.len();
        if len != 1 || self[0] >= EMPTY_STRING_CODE {
            len += length_of_length(len);
        }
        len
    }
    fn encode(&self, out: &mut dyn BufMut) {
        if self.len() != 1 || self[0] >= EMPTY_STRING_CODE {
            Header {
                list: false,
                payload_length: self.len(),
            }
            .encode(out);
        }
        out.put_slice(self);
    }
}
impl<const N: usize> Encodable for [u8; N] {
    fn length(&self) -> usize {
        self[..].length()
    }
    fn encode(&self, out: &mut dyn BufMut) {
        self[..].encode(out)
    }
}
impl<const N: usize> Decodable for [u8; N] {
    fn decode(buf: &mut &[u8]) -> Result<Self> {
        let b = Header::decode_bytes(buf, false)?;
        b.try_into().map_err(|_| Error::UnexpectedLength)
    }
}
impl Encodable for str {
    fn length(&self) -> usize {
        self.as_bytes().length()
    }
    fn encode(&self, out: &mut dyn BufMut) {
        self.as_bytes().encode(out)
    }
}
impl Encodable for String {
    fn length(&self) -> usize {
        self.as_bytes().length()
    }
    fn encode(&self, out: &mut dyn BufMut) {
        self.as_bytes().encode(out)
    }
}
impl Decodable for String {
    fn decode(buf: &mut &[u8]) -> Result<Self> {
        Header::decode_str(buf).map(Into::into)
    }
}
impl Encodable for bool {
    fn length(&self) -> usize {
        1
    }
    fn encode(&self, out: &mut dyn BufMut) {
        out.put_u8(if *self { 1 } else { EMPTY_STRING_CODE })
    }
}
impl Decodable for bool {
    fn decode(buf: &mut &[u8]) -> Result<Self> {
        Ok(match get_next_byte(buf)? {
            0 => return Err(Error::LeadingZero),
            1 => true,
            EMPTY_STRING_CODE => false,
            _ => return Err(Error::Custom("invalid bool value, must be 0 or 1")),
        })
    }
}
macro_rules! uint {
    ($($t:ty),*) => {$(
        impl Encodable for $t {
            fn length(&self) -> usize {
                if *self < EMPTY_STRING_CODE as $t {
                    1
                } else {
                    1 + (<$t>::BITS as usize / 8) - (self.leading_zeros() as usize / 8)
                }
            }
            fn encode(&self, out: &mut dyn BufMut) {
                let x = *self;
                if x == 0 {
                    out.put_u8(EMPTY_STRING_CODE);
                } else if x < EMPTY_STRING_CODE as $t {
                    out.put_u8(x as u8);
                } else {
                    let be = x.to_be_bytes();
                    let be = &be[(x.leading_zeros() / 8) as usize..];
                    out.put_u8(EMPTY_STRING_CODE + be.len() as u8);
                    out.put_slice(be);
                }
            }
        }
        impl Decodable for $t {
            fn decode(buf: &mut &[u8]) -> Result<Self> {
                let bytes = Header::decode_bytes(buf, false)?;
                static_left_pad(bytes).map(<$t>::from_be_bytes)
            }
        }
        unsafe impl MaxEncodedLenAssoc for $t {
            const LEN: usize = 1 + <$t>::BITS as usize / 8;
        }
    )*};
}
uint!(u16, u32, u64, usize, u128);
// u8: the shift by zero leading bytes above also works for one byte
impl Encodable for u8 {
    fn length(&self) -> usize {
        if *self < EMPTY_STRING_CODE {
            1
        } else {
            2
        }
    }
    fn encode(&self, out: &mut dyn BufMut) {
        if *self == 0 {
            out.put_u8(EMPTY_STRING_CODE);
        } else {
            if *self >= EMPTY_STRING_CODE {
                out.put_u8(EMPTY_STRING_CODE + 1);
            }
            out.put_u8(*self);
        }
    }
}
impl Decodable for u8 {
    fn decode(buf: &mut &[u8]) -> Result<Self> {
        let bytes = Header::decode_bytes(buf, false)?;
        static_left_pad(bytes).map(u8::from_be_bytes)
    }
}
impl<T: Encodable> Encodable for Vec<T> {
    fn length(&self) -> usize {
        list_length(self)
    }
    fn encode(&self, out: &mut dyn BufMut) {
        encode_list(self, out)
    }
}
impl<T: Decodable> Decodable for Vec<T> {
    fn decode(buf: &mut &[u8]) -> Result<Self> {
        let mut bytes = Header::decode_bytes(buf, true)?;
        let mut vec = Self::new();
        let p = &mut bytes;
        while !p.is_empty() {
            vec.push(T::decode(p)?);
        }
        Ok(vec)
    }
}
macro_rules! bytes_like {
    ($($t:ty),*) => {$(
        impl Encodable for $t {
            fn length(&self) -> usize { self[..].length() }
            fn encode(&self, out: &mut dyn BufMut) { self[..].encode(out) }
        }
    )*};
}
bytes_like!(Bytes, BytesMut);
impl Decodable for Bytes {
    fn decode(buf: &mut &[u8]) -> Result<Self> {
        Header::decode_bytes(buf, false).map(|b| Self::from(b.to_vec()))
    }
}
impl Decodable for BytesMut {
    fn decode(buf: &mut &[u8]) -> Result<Self> {
        Header::decode_bytes(buf, false).map(|b| Self::from(b))
    }
}
macro_rules! deref_impl {
    ($($(#[$a:meta])* [$($g:tt)*] $t:ty),* $(,)?) => {$(
        impl<$($g)*> Encodable for $t {
            fn length(&self) -> usize { (**self).length() }
            fn encode(&self, out: &mut dyn BufMut) { (**self).encode(out) }
        }
    )*};
}
deref_impl! {
    [T: ?Sized + Encodable] &T,
    [T: ?Sized + Encodable] &mut T,
    [T: ?Sized + Encodable] Box<T>,
    [T: ?Sized + Encodable] Rc<T>,
    [T: ?Sized + Encodable] Arc<T>,
    [T: ?Sized + ToOwned + Encodable] Cow<'_, T>,
}
macro_rules! wrap_decode {
    ($($w:ident),*) => {$(
        impl<T: Decodable> Decodable for $w<T> {
            fn decode(buf: &mut &[u8]) -> Result<Self> { T::decode(buf).map($w::new) }
        }
    )*};
}
wrap_decode!(Box, Rc, Arc);
impl Encodable for Ipv4Addr {
    fn encode(&self, out: &mut dyn BufMut) {
        self.octets().encode(out)
    }
}
impl Encodable for Ipv6Addr {
    fn encode(&self, out: &mut dyn BufMut) {
        self.octets().encode(out)
    }
}
impl Encodable for IpAddr {
    fn encode(&self, out: &mut dyn BufMut) {
        match self {
            IpAddr::V4(a) => a.encode(out),
            IpAddr::V6(a) => a.encode(out),
        }
    }
}
impl Decodable for Ipv4Addr {
    fn decode(buf: &mut &[u8]) -> Result<Self> {
        <[u8; 4]>::decode(buf).map(Into::into)
    }
}
impl Decodable for Ipv6Addr {
    fn decode(buf: &mut &[u8]) -> Result<Self> {
        <[u8; 16]>::decode(buf).map(Into::into)
    }
}

fn rlp_list_header<B: std::borrow::Borrow<T>, T: ?Sized + Encodable>(values: &[B]) -> Header {
    Header {
        list: true,
        payload_length: values.iter().map(|v| v.borrow().length()).sum(),
    }
}
pub fn list_length<B: std::borrow::Borrow<T>, T: ?Sized + Encodable>(values: &[B]) -> usize {
    let p = rlp_list_header::<B, T>(values).payload_length;
    p + length_of_length(p)
}
pub fn encode_list<B: std::borrow::Borrow<T>, T: ?Sized + Encodable>(
    values: &[B],
    out: &mut dyn BufMut,
) {
    rlp_list_header::<B, T>(values).encode(out);
    for v in values {
        v.borrow().encode(out);
    }
}
pub fn encode_iter<I, T: Encodable>(values: I, out: &mut dyn BufMut)
where
    I: Iterator<Item = T> + Clone,
{
    Header {
        list: true,
        payload_length: values.clone().map(|v| v.length()).sum(),
    }
    .encode(out);
    for v in values {
        v.encode(out);
    }
}
pub fn encode<T: Encodable>(value: T) -> Vec<u8> {
    let mut out = Vec::with_capacity(value.length());
    value.encode(&mut out);
    out
}
pub fn encode_fixed_size<T: Encodable>(value: &T) -> Vec<u8> {
    encode(value)
}
pub fn decode_exact<T: Decodable>(bytes: impl AsRef<[u8]>) -> Result<T> {
    let mut b = bytes.as_ref();
    let out = T::decode(&mut b)?;
    if !b.is_empty() {
        return Err(Error::UnexpectedLength);
    }
    Ok(out)
}

#[derive(Clone, Copy, Debug)]
pub struct Rlp<'a> {
    payload_view: &'a [u8],
}
impl<'a> Rlp<'a> {
    pub fn new(mut payload: &'a [u8]) -> Result<Self> {
        let payload_view = Header::decode_bytes(&mut payload, true)?;
        Ok(Self { payload_view })
    }
    pub fn get_next<T: Decodable>(&mut self) -> Result<Option<T>> {
        if self.payload_view.is_empty() {
            return Ok(None);
        }
        Ok(Some(T::decode(&mut self.payload_view)?))
    }
}

#[macro_export]
macro_rules! impl_max_encoded_len {
    ($t:ty, $len:expr) => {
        unsafe impl $crate::MaxEncodedLen<{ $len }> for $t {}
        unsafe impl $crate::MaxEncodedLenAssoc for $t {
            const LEN: usize = $len;
        }
    };
}
