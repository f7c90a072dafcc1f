/// A detail for a report.
macro_rules! j {
    ($($t:tt)*) => { vcommon::json!($($t)*).to_string() };
}
mod boot;
mod clock;
mod follow;
mod make;
mod services;
mod sources;
mod verify;

#[global_allocator]
static ALLOC: vcommon::MonitoredAlloc = vcommon::MonitoredAlloc;

fn main() {
    vcommon::run(&[
        ("L01", verify::updates),
        ("L02", follow::chain),
        ("L03", boot::starts),
        ("L04", services::votes),
        ("L05", sources::answers),
    ]);
}
