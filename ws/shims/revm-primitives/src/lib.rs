//! The parts of the `revm-primitives` crate that the repository uses.
pub use alloy_primitives::*;
pub const KECCAK_EMPTY: B256 = KECCAK256_EMPTY;
pub mod hardfork {
    #[repr(u8)]
    #[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash, Default)]
    #[allow(non_camel_case_types)]
    pub enum SpecId {
        FRONTIER = 0,
        FRONTIER_THAWING,
        HOMESTEAD,
        DAO_FORK,
        TANGERINE,
        SPURIOUS_DRAGON,
        BYZANTIUM,
        CONSTANTINOPLE,
        PETERSBURG,
        ISTANBUL,
        MUIR_GLACIER,
        BERLIN,
        LONDON,
        ARROW_GLACIER,
        GRAY_GLACIER,
        MERGE,
        SHANGHAI,
        CANCUN,
        #[default]
        PRAGUE,
        OSAKA,
    }
    impl SpecId {
        pub const fn is_enabled_in(self, other: Self) -> bool {
            self as u8 >= other as u8
        }
    }
}
