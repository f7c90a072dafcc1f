/// A detail for a report.
macro_rules! j {
    ($($t:tt)*) => { vcommon::json!($($t)*).to_string() };
}
#[allow(dead_code)]
mod clock;
mod follow;
mod judge;
mod keep;
#[allow(dead_code)]
#[path = "../../light/src/make.rs"]
mod make;
#[allow(dead_code)]
#[path = "../../net/src/peers.rs"]
mod peers;
mod serve;
#[path = "../../../shared/sub.rs"]
#[macro_use]
mod sub;
#[allow(dead_code)]
mod things;
#[allow(dead_code)]
#[path = "../../net/src/world.rs"]
mod world;

#[global_allocator]
static ALLOC: vcommon::MonitoredAlloc = vcommon::MonitoredAlloc;

fn main() {
    vcommon::run(&[("C01", judge::contents), ("C02", keep::histories), ("C03", serve::calls), ("C04", follow::heads)]);
}
