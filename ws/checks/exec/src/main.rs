/// A detail for a report.
macro_rules! j {
    ($($t:tt)*) => { vcommon::json!($($t)*).to_string() };
}
mod chain;
mod fetch;
mod go;
mod keep;
mod moved;
mod node;
mod run;
mod serve;
mod walk;
mod world;

#[global_allocator]
static ALLOC: vcommon::MonitoredAlloc = vcommon::MonitoredAlloc;

fn main() {
    vcommon::run(&[("X01", run::blocks), ("X02", keep::changes), ("X03", walk::walks), ("X04", walk::contents), ("X05", moved::moved), ("X06", go::going_on), ("X07", fetch::fetched), ("X08", fetch::beacon)]);
}
