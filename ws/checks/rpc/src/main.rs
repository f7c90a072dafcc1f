/// A detail for a report.
macro_rules! j {
    ($($t:tt)*) => { vcommon::json!($($t)*).to_string() };
}
#[allow(dead_code)]
#[path = "../../exec/src/world.rs"]
mod accounts;
#[allow(dead_code)]
#[path = "../../history/src/blocks.rs"]
mod blocks;
#[allow(dead_code)]
#[path = "../../validation/src/header.rs"]
mod header;
#[allow(dead_code)]
#[path = "../../net/src/peers.rs"]
mod peers;
#[allow(dead_code)]
#[path = "../../beacon/src/things.rs"]
mod things;
#[allow(dead_code)]
#[path = "../../state/src/tries.rs"]
mod tries;

mod block;
mod cli;
mod launch;
mod place;
mod proxy;
mod state;
mod whole;
#[allow(dead_code)]
#[path = "../../net/src/clock.rs"]
mod clock;

#[global_allocator]
static ALLOC: vcommon::MonitoredAlloc = vcommon::MonitoredAlloc;

fn main() {
    vcommon::run(&[("R01", state::queries), ("R02", block::queries), ("R03", proxy::calls), ("R04", launch::services), ("R05", cli::lines), ("R06", whole::nodes)]);
}
/// Calls of a contract wait in threads of their own.
pub fn rt() -> tokio::runtime::Runtime {
    tokio::runtime::Builder::new_multi_thread().worker_threads(2).enable_all().build().expect("runtime")
}
