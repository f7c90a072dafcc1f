/// A detail for a report.
macro_rules! j {
    ($($t:tt)*) => { vcommon::json!($($t)*).to_string() };
}
mod clock;
mod iter;
mod lookups;
mod members;
mod offers;
mod outgoing;
mod peers;
mod queue;
mod route;
mod serve;
mod table;
mod wire;
mod world;

#[global_allocator]
static ALLOC: vcommon::MonitoredAlloc = vcommon::MonitoredAlloc;

fn main() {
    vcommon::run(&[("N01", wire::framing), ("N02", queue::offers), ("N03", table::views), ("N04", table::gossip), ("N05", iter::nodes), ("N06", iter::contents), ("N07", route::delivery), ("N08", serve::requests), ("N09", offers::incoming), ("N10", lookups::contents), ("N11", outgoing::sending), ("N12", members::records), ("N13", members::liveness)]);
}
