//! Chains and states, as the checks of execution make them.
#[path = "../../../exec/src/chain.rs"]
pub mod chain;
#[path = "../../../exec/src/keep.rs"]
pub mod keep;
#[path = "../../../exec/src/node.rs"]
pub mod node;
#[path = "../../../exec/src/serve.rs"]
pub mod serve;
#[path = "../../../exec/src/world.rs"]
pub mod world;
