mod config;
mod faults;
mod model;
mod parallel;

#[global_allocator]
static ALLOC: vcommon::MonitoredAlloc = vcommon::MonitoredAlloc;

fn main() {
    vcommon::run(&[
        ("S01", model::map_histories),
        ("S02", model::capacity_histories),
        ("S03", faults::crash_and_failure),
        ("S04", config::capacity_and_versions),
        ("S05", parallel::shared_database),
    ]);
}
