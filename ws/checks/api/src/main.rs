mod body;
mod consensus;
mod keys;
mod negotiate;
mod rpc;
mod trie;
mod values;
mod wire;

#[global_allocator]
static ALLOC: vcommon::MonitoredAlloc = vcommon::MonitoredAlloc;

fn main() {
    vcommon::run(&[
        ("K01", keys::content_keys),
        ("K02", values::content_values),
        ("K03", wire::messages),
        ("K04", negotiate::distance),
        ("K05", negotiate::ping_extensions),
        ("K06", negotiate::versions),
        ("K07", body::bodies_and_receipts),
        ("K08", trie::trie_paths),
        ("K10", consensus::types),
        ("K11", rpc::surface),
        ("K12", negotiate::network_spec),
    ]);
}
