/// A detail for a report.
macro_rules! j {
    ($($t:tt)*) => { vcommon::json!($($t)*).to_string() };
}
#[allow(dead_code)]
#[path = "../../net/src/clock.rs"]
mod clock;
mod judge;
mod keep;
#[allow(dead_code)]
#[path = "../../net/src/peers.rs"]
mod peers;
mod serve;
#[path = "../../../shared/sub.rs"]
#[macro_use]
mod sub;
mod tries;
#[allow(dead_code)]
#[path = "../../net/src/world.rs"]
mod world;

#[global_allocator]
static ALLOC: vcommon::MonitoredAlloc = vcommon::MonitoredAlloc;

fn main() {
    vcommon::run(&[("T01", judge::proofs), ("T02", keep::storage), ("T03", serve::calls)]);
}
