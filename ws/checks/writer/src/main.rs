//! The program that writes archive files as the chain grows, and the bucket it keeps them in.
/// A detail for a report.
macro_rules! j {
    ($($t:tt)*) => { vcommon::json!($($t)*).to_string() };
}
#[allow(dead_code)]
#[path = "../../beacon/src/clock.rs"]
mod clock;

mod chain;
mod head;
mod single;

#[global_allocator]
static ALLOC: vcommon::MonitoredAlloc = vcommon::MonitoredAlloc;

fn main() {
    // whatever the writer puts on disk stays in here
    let scratch = tempfile::tempdir().expect("scratch directory");
    for v in ["TMPDIR", "HOME", "XDG_DATA_HOME", "XDG_CONFIG_HOME", "XDG_CACHE_HOME"] {
        std::env::set_var(v, scratch.path());
    }
    std::env::set_current_dir(scratch.path()).expect("scratch directory");
    vcommon::run(&[("P01", head::follow), ("P02", single::files)]);
}
