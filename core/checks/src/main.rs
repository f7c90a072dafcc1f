mod api;
mod arith;
mod bridge;
mod timer;

#[global_allocator]
static ALLOC: vcommon::MonitoredAlloc = vcommon::MonitoredAlloc;

fn main() {
    vcommon::run(&[
        ("A01", api::hex_text),
        ("A02", api::random_ids),
        ("A03", api::client_names),
        ("A04", api::rpc_params),
        ("A05", api::fork_identity),
        ("B01", bridge::mode),
        ("B02", bridge::epochs),
        ("M01", timer::timers),
        ("V01", arith::checked),
    ]);
}
