//! The bridge and the providers it takes its content from.
/// A detail for a report.
macro_rules! j {
    ($($t:tt)*) => { vcommon::json!($($t)*).to_string() };
}
#[allow(dead_code)]
#[path = "../../beacon/src/clock.rs"]
mod clock;
#[allow(dead_code)]
#[path = "../../net/src/peers.rs"]
mod peers;
#[allow(dead_code)]
#[path = "../../net/src/world.rs"]
mod world;

#[allow(dead_code)]
mod exec;

mod archive;
mod census;
mod light;
mod newest;
mod providers;
mod shares;
mod states;
mod town;

/// Counts what is logged about the census.
struct Chatter;
static SAID: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);
impl tracing::Subscriber for Chatter {
    fn enabled(&self, m: &tracing::Metadata<'_>) -> bool {
        m.target().starts_with("portal_bridge::census")
    }
    fn new_span(&self, _: &tracing::span::Attributes<'_>) -> tracing::span::Id {
        tracing::span::Id::from_u64(1)
    }
    fn record(&self, _: &tracing::span::Id, _: &tracing::span::Record<'_>) {}
    fn record_follows_from(&self, _: &tracing::span::Id, _: &tracing::span::Id) {}
    fn event(&self, _: &tracing::Event<'_>) {
        SAID.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
    }
    fn enter(&self, _: &tracing::span::Id) {}
    fn exit(&self, _: &tracing::span::Id) {}
}
fn said() -> u64 {
    SAID.load(std::sync::atomic::Ordering::Relaxed)
}

#[global_allocator]
static ALLOC: vcommon::MonitoredAlloc = vcommon::MonitoredAlloc;

fn main() {
    // whatever a bridge writes or clears away stays in here
    let scratch = tempfile::tempdir().expect("scratch directory");
    for v in ["TMPDIR", "HOME", "XDG_DATA_HOME", "XDG_CONFIG_HOME", "XDG_CACHE_HOME"] {
        std::env::set_var(v, scratch.path());
    }
    tracing::subscriber::set_global_default(Chatter).expect("nothing else listens");
    vcommon::run(&[("G01", providers::answers), ("G02", census::view), ("G03", light::follow), ("G04", newest::gossip), ("G05", archive::gossip), ("G06", states::gossip), ("G07", shares::work)]);
}
