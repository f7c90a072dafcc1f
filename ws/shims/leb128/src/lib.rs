//! Little-endian base 128 numbers with the interface of the `leb128` crate.
pub mod read {
    use std::{fmt, io};
    #[derive(Debug)]
    pub enum Error {
        IoError(io::Error),
        Overflow,
    }
    impl fmt::Display for Error {
        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
            match self {
                Error::IoError(e) => e.fmt(f),
                Error::Overflow => f.write_str("The number being read is larger than can be represented"),
            }
        }
    }
    impl std::error::Error for Error {}
    impl From<io::Error> for Error {
        fn from(e: io::Error) -> Self {
            Error::IoError(e)
        }
    }
    pub fn unsigned<R: ?Sized + io::Read>(r: &mut R) -> Result<u64, Error> {
        let mut result = 0;
        let mut shift = 0;
        loop {
            let mut buf = [0];
            r.read_exact(&mut buf)?;
            if shift == 63 && buf[0] != 0 && buf[0] != 1 {
                while buf[0] & 0x80 != 0 {
                    r.read_exact(&mut buf)?;
                }
                return Err(Error::Overflow);
            }
            result |= ((buf[0] & 0x7f) as u64) << shift;
            if buf[0] & 0x80 == 0 {
                return Ok(result);
            }
            shift += 7;
        }
    }
}
pub mod write {
    use std::io;
    pub fn unsigned<W: ?Sized + io::Write>(w: &mut W, mut val: u64) -> Result<usize, io::Error> {
        let mut n = 0;
        loop {
            let mut b = (val & 0x7f) as u8;
            val >>= 7;
            if val != 0 {
                b |= 0x80;
            }
            w.write_all(&[b])?;
            n += 1;
            if val == 0 {
                return Ok(n);
            }
        }
    }
}
