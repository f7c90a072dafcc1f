//! Snappy with the interface of the `snap` crate. The encoder finds matches within a block with a
//! small hash table.
use std::{fmt, io};

#[derive(Debug, Clone, PartialEq, Eq)]
pub enum Error {
    Empty,
    Header,
    HeaderMismatch { expected: u64, got: u64 },
    Literal,
    Copy,
    TooBig { given: u64, max: u64 },
    Checksum { expected: u32, got: u32 },
    UnsupportedChunkType { byte: u8 },
    StreamHeader { byte: u8 },
    StreamHeaderMismatch { bytes: Vec<u8> },
    UnsupportedChunkLength { len: u64, header: bool },
}
impl fmt::Display for Error {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "snappy: {self:?}")
    }
}
impl std::error::Error for Error {}
impl From<Error> for io::Error {
    fn from(e: Error) -> Self {
        io::Error::other(e)
    }
}
pub type Result<T> = std::result::Result<T, Error>;
const MAX_INPUT: u64 = u32::MAX as u64;
const MAX_BLOCK: usize = 1 << 16;

fn varint(b: &[u8]) -> Option<(u64, usize)> {
    let (mut n, mut shift) = (0u64, 0);
    for (i, x) in b.iter().enumerate().take(10) {
        n |= ((x & 0x7f) as u64) << shift;
        if *x < 0x80 {
            return Some((n, i + 1));
        }
        shift += 7;
        if shift > 63 {
            return None;
        }
    }
    None
}
pub mod raw {
    use super::*;
    pub fn decompress_len(input: &[u8]) -> Result<usize> {
        if input.is_empty() {
            return Ok(0);
        }
        let (n, _) = varint(input).ok_or(Error::Header)?;
        if n > MAX_INPUT {
            return Err(Error::TooBig { given: n, max: MAX_INPUT });
        }
        Ok(n as usize)
    }
    pub fn max_compress_len(n: usize) -> usize {
        32 + n + n / 6
    }
    #[derive(Clone, Debug, Default)]
    pub struct Decoder {}
    impl Decoder {
        pub fn new() -> Self {
            Self {}
        }
        pub fn decompress_vec(&mut self, input: &[u8]) -> Result<Vec<u8>> {
            if input.is_empty() {
                return Err(Error::Empty);
            }
            let want = decompress_len(input)?;
            let (_, mut i) = varint(input).unwrap();
            let mut out = Vec::with_capacity(want.min(1 << 24));
            while i < input.len() {
                let tag = input[i];
                i += 1;
                if tag & 3 == 0 {
                    let mut len = (tag >> 2) as usize + 1;
                    if len > 60 {
                        let n = len - 60;
                        if i + n > input.len() {
                            return Err(Error::Literal);
                        }
                        len = 0;
                        for k in (0..n).rev() {
                            len = len << 8 | input[i + k] as usize;
                        }
                        len += 1;
                        i += n;
                    }
                    if i + len > input.len() || out.len() + len > want {
                        return Err(Error::Literal);
                    }
                    out.extend_from_slice(&input[i..i + len]);
                    i += len;
                } else {
                    let (len, off, n) = match tag & 3 {
                        1 => {
                            let b = *input.get(i).ok_or(Error::Copy)? as usize;
                            (((tag >> 2) & 7) as usize + 4, ((tag >> 5) as usize) << 8 | b, 1)
                        }
                        2 => {
                            if i + 2 > input.len() {
                                return Err(Error::Copy);
                            }
                            ((tag >> 2) as usize + 1, u16::from_le_bytes([input[i], input[i + 1]]) as usize, 2)
                        }
                        _ => {
                            if i + 4 > input.len() {
                                return Err(Error::Copy);
                            }
                            let o = u32::from_le_bytes(input[i..i + 4].try_into().unwrap());
                            ((tag >> 2) as usize + 1, o as usize, 4)
                        }
                    };
                    i += n;
                    if off == 0 || off > out.len() || out.len() + len > want {
                        return Err(Error::Copy);
                    }
                    for _ in 0..len {
                        out.push(out[out.len() - off]);
                    }
                }
            }
            if out.len() != want {
                return Err(Error::HeaderMismatch { expected: want as u64, got: out.len() as u64 });
            }
            Ok(out)
        }
    }
    #[derive(Clone, Debug, Default)]
    pub struct Encoder {}
    fn literal(out: &mut Vec<u8>, l: &[u8]) {
        if l.is_empty() {
            return;
        }
        let n = l.len() - 1;
        if n < 60 {
            out.push((n as u8) << 2);
        } else {
            let b = (n as u32).to_le_bytes();
            let k = 4 - (n as u32).leading_zeros() as usize / 8;
            out.push(((59 + k) as u8) << 2);
            out.extend_from_slice(&b[..k]);
        }
        out.extend_from_slice(l);
    }
    impl Encoder {
        pub fn new() -> Self {
            Self {}
        }
        pub fn compress_vec(&mut self, input: &[u8]) -> Result<Vec<u8>> {
            let mut out = vec![];
            let mut n = input.len();
            loop {
                let b = (n & 0x7f) as u8;
                n >>= 7;
                out.push(if n > 0 { b | 0x80 } else { b });
                if n == 0 {
                    break;
                }
            }
            for block in input.chunks(MAX_BLOCK) {
                let mut table = vec![usize::MAX; 1 << 13];
                let (mut i, mut start) = (0, 0);
                while i + 4 <= block.len() {
                    let v = u32::from_le_bytes(block[i..i + 4].try_into().unwrap());
                    let h = (v.wrapping_mul(0x1e35a7bd) >> 19) as usize;
                    let c = table[h];
                    table[h] = i;
                    if c != usize::MAX && block[c..c + 4] == block[i..i + 4] {
                        literal(&mut out, &block[start..i]);
                        let mut len = 4;
                        while len < 64 && i + len < block.len() && block[c + len] == block[i + len] {
                            len += 1;
                        }
                        out.push(((len - 1) as u8) << 2 | 2);
                        out.extend_from_slice(&((i - c) as u16).to_le_bytes());
                        i += len;
                        start = i;
                    } else {
                        i += 1;
                    }
                }
                literal(&mut out, &block[start..]);
            }
            Ok(out)
        }
    }
}
fn crc32c_masked(data: &[u8]) -> u32 {
    static T: std::sync::OnceLock<[u32; 256]> = std::sync::OnceLock::new();
    let t = T.get_or_init(|| {
        std::array::from_fn(|i| {
            let mut c = i as u32;
            for _ in 0..8 {
                c = if c & 1 == 1 { c >> 1 ^ 0x82f63b78 } else { c >> 1 };
            }
            c
        })
    });
    let mut c = !0u32;
    for b in data {
        c = c >> 8 ^ t[((c ^ *b as u32) & 255) as usize];
    }
    c = !c;
    (c.wrapping_shr(15) | c.wrapping_shl(17)).wrapping_add(0xa282ead8)
}
const STREAM: &[u8] = b"\xff\x06\x00\x00sNaPpY";
pub mod read {
    use super::*;
    use std::io::Read;
    pub struct FrameDecoder<R> {
        r: R,
        buf: Vec<u8>,
        pos: usize,
        header_seen: bool,
    }
    impl<R: Read> FrameDecoder<R> {
        pub fn new(r: R) -> Self {
            Self { r, buf: vec![], pos: 0, header_seen: false }
        }
        pub fn get_ref(&self) -> &R {
            &self.r
        }
        pub fn into_inner(self) -> R {
            self.r
        }
        fn fill(&mut self) -> io::Result<bool> {
            loop {
                let mut h = [0u8; 4];
                let mut n = 0;
                while n < 4 {
                    let k = self.r.read(&mut h[n..])?;
                    if k == 0 {
                        if n == 0 {
                            return Ok(false);
                        }
                        return Err(io::ErrorKind::UnexpectedEof.into());
                    }
                    n += k;
                }
                let len = u32::from_le_bytes([h[1], h[2], h[3], 0]) as usize;
                if !self.header_seen && h[0] != 0xff {
                    return Err(Error::StreamHeader { byte: h[0] }.into());
                }
                match h[0] {
                    0xff => {
                        if len != 6 {
                            return Err(Error::UnsupportedChunkLength { len: len as u64, header: true }.into());
                        }
                        let mut b = [0; 6];
                        self.r.read_exact(&mut b)?;
                        if &b != b"sNaPpY" {
                            return Err(Error::StreamHeaderMismatch { bytes: b.to_vec() }.into());
                        }
                        self.header_seen = true;
                    }
                    0 | 1 => {
                        if len < 4 || len > raw::max_compress_len(MAX_BLOCK) + 4 {
                            return Err(Error::UnsupportedChunkLength { len: len as u64, header: false }.into());
                        }
                        let mut b = vec![0; len];
                        self.r.read_exact(&mut b)?;
                        let sum = u32::from_le_bytes(b[..4].try_into().unwrap());
                        let data = if h[0] == 1 {
                            b[4..].to_vec()
                        } else {
                            if raw::decompress_len(&b[4..])? > MAX_BLOCK {
                                return Err(Error::UnsupportedChunkLength { len: len as u64, header: false }.into());
                            }
                            raw::Decoder::new().decompress_vec(&b[4..])?
                        };
                        let got = crc32c_masked(&data);
                        if got != sum {
                            return Err(Error::Checksum { expected: sum, got }.into());
                        }
                        self.buf = data;
                        self.pos = 0;
                        if !self.buf.is_empty() {
                            return Ok(true);
                        }
                    }
                    0x80..=0xfe => {
                        io::copy(&mut (&mut self.r).take(len as u64), &mut io::sink())?;
                    }
                    b => return Err(Error::UnsupportedChunkType { byte: b }.into()),
                }
            }
        }
    }
    impl<R: Read> Read for FrameDecoder<R> {
        fn read(&mut self, out: &mut [u8]) -> io::Result<usize> {
            if out.is_empty() {
                return Ok(0);
            }
            if self.pos == self.buf.len() && !self.fill()? {
                return Ok(0);
            }
            let n = out.len().min(self.buf.len() - self.pos);
            out[..n].copy_from_slice(&self.buf[self.pos..self.pos + n]);
            self.pos += n;
            Ok(n)
        }
    }
}
pub mod write {
    use super::*;
    use std::io::Write;
    pub struct FrameEncoder<W: Write> {
        w: Option<W>,
        buf: Vec<u8>,
        header: bool,
    }
    #[derive(Debug)]
    pub struct IntoInnerError<W>(W, io::Error);
    impl<W> IntoInnerError<W> {
        pub fn error(&self) -> &io::Error {
            &self.1
        }
        pub fn into_error(self) -> io::Error {
            self.1
        }
    }
    impl<W> fmt::Display for IntoInnerError<W> {
        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
            self.1.fmt(f)
        }
    }
    impl<W: fmt::Debug> std::error::Error for IntoInnerError<W> {}
    impl<W: Write> fmt::Debug for FrameEncoder<W> {
        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
            f.write_str("FrameEncoder")
        }
    }
    impl<W: Write> FrameEncoder<W> {
        pub fn new(w: W) -> Self {
            Self { w: Some(w), buf: vec![], header: false }
        }
        pub fn into_inner(mut self) -> std::result::Result<W, IntoInnerError<Self>> {
            match self.flush() {
                Ok(()) => Ok(self.w.take().unwrap()),
                Err(e) => Err(IntoInnerError(self, e)),
            }
        }
        pub fn get_ref(&self) -> &W {
            self.w.as_ref().unwrap()
        }
        fn emit(&mut self, all: bool) -> io::Result<()> {
            while self.buf.len() >= MAX_BLOCK || (all && !self.buf.is_empty()) {
                let n = self.buf.len().min(MAX_BLOCK);
                let chunk: Vec<u8> = self.buf.drain(..n).collect();
                let w = self.w.as_mut().unwrap();
                if !self.header {
                    w.write_all(STREAM)?;
                    self.header = true;
                }
                let c = raw::Encoder::new().compress_vec(&chunk).unwrap();
                let (ty, body) = if c.len() >= n - n / 8 { (1u8, &chunk) } else { (0u8, &c) };
                let len = (body.len() + 4) as u32;
                let b = len.to_le_bytes();
                w.write_all(&[ty, b[0], b[1], b[2]])?;
                w.write_all(&crc32c_masked(&chunk).to_le_bytes())?;
                w.write_all(body)?;
            }
            Ok(())
        }
    }
    impl<W: Write> Write for FrameEncoder<W> {
        fn write(&mut self, b: &[u8]) -> io::Result<usize> {
            self.buf.extend_from_slice(b);
            self.emit(false)?;
            Ok(b.len())
        }
        fn flush(&mut self) -> io::Result<()> {
            if self.w.is_some() {
                self.emit(true)?;
                self.w.as_mut().unwrap().flush()?;
            }
            Ok(())
        }
    }
    impl<W: Write> Drop for FrameEncoder<W> {
        fn drop(&mut self) {
            let _ = self.flush();
        }
    }
}
