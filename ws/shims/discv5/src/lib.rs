//! Node discovery with the interface of the `discv5` crate, carried in memory instead of over UDP.
//! Node records use a substitute key scheme (see `enr`). The bucket table follows the algorithm of
//! the original.
pub mod enr;
pub mod kbucket;
pub mod net;
pub mod rpc;
pub mod service;

pub type Enr = enr::Enr<enr::CombinedKey>;
pub use enr::NodeId;
pub use kbucket::{ConnectionDirection, ConnectionState, Key};
pub use net::{Config, ConfigBuilder, Discv5, Error as Discv5Error, Event, ListenConfig, TalkRequest};
pub use net::{QueryError, RequestError, ResponseError};
pub mod seeded {
    //! Randomness of this crate, derived from the seed of the run.
    use std::sync::atomic::{AtomicU64, Ordering};
    static NEXT: AtomicU64 = AtomicU64::new(0);
    pub fn reseed(seed: u64) {
        NEXT.store(seed.wrapping_mul(0x9e3779b97f4a7c15), Ordering::SeqCst)
    }
    pub fn bytes32() -> [u8; 32] {
        let n = NEXT.fetch_add(1, Ordering::SeqCst);
        alloy_primitives::keccak256(n.to_be_bytes()).0
    }
}
