mod head;
mod header;
mod lookups;
mod merkle;

#[global_allocator]
static ALLOC: vcommon::MonitoredAlloc = vcommon::MonitoredAlloc;

fn main() {
    vcommon::run(&[
        ("W01", header::header_proofs),
        ("W02", merkle::trees),
        ("W03", lookups::lookups),
        ("W04", head::chain_head),
    ]);
}

pub fn rt() -> tokio::runtime::Runtime {
    tokio::runtime::Builder::new_multi_thread().worker_threads(4).enable_all().build().expect("runtime")
}
