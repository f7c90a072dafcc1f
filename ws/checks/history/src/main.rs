/// A detail for a report.
macro_rules! j {
    ($($t:tt)*) => { vcommon::json!($($t)*).to_string() };
}
#[allow(dead_code)]
#[path = "../../net/src/clock.rs"]
mod clock;
mod depend;
#[allow(dead_code)]
#[path = "../../validation/src/header.rs"]
mod header;
mod judge;

#[allow(dead_code)]
#[path = "../../net/src/peers.rs"]
mod peers;
mod serve;
#[path = "../../../shared/sub.rs"]
#[macro_use]
mod sub;
mod blocks;
#[allow(dead_code)]
#[path = "../../net/src/world.rs"]
mod world;

#[global_allocator]
static ALLOC: vcommon::MonitoredAlloc = vcommon::MonitoredAlloc;

fn main() {
    vcommon::run(&[("H01", judge::contents), ("H02", serve::calls), ("H03", depend::headers)]);
}
pub fn rt() -> tokio::runtime::Runtime {
    tokio::runtime::Builder::new_current_thread().enable_all().build().expect("runtime")
}
