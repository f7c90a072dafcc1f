#[macro_use]
mod macros;

mod address;
pub use address::{Address, AddressChecksumBuffer, AddressError};

mod bloom;
pub use bloom::{BLOOM_BITS_PER_ITEM, BLOOM_SIZE_BITS, BLOOM_SIZE_BYTES, Bloom, BloomInput};

mod fixed;
pub use fixed::FixedBytes;

mod function;
pub use function::Function;

#[cfg(feature = "rlp")]
mod rlp;

#[cfg(feature = "serde")]
mod serde;
