//! L03: where a light client starts from: explicit, saved and published checkpoints.
use std::{path::PathBuf, sync::Arc, time::Duration};

use light_client::{
    Client, ClientBuilder,
    consensus::ConsensusLightClient,
    database::{Database, FileDB},
};
use oracle::lc::{Boot, PERIOD};
use vcommon::{hex, json, Ctx, Rng};

use crate::{
    clock,
    make::{self, Net, Said, Source},
};

struct Dir(PathBuf);
impl Dir {
    fn new(n: u64) -> Self {
        let p = std::env::temp_dir().join(format!("verif-light-{}-{n}", std::process::id()));
        std::fs::create_dir_all(&p).expect("scratch directory");
        Self(p)
    }
}
impl Drop for Dir {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Saved {
    Nothing,
    Good,
    Short,
    Long,
    Empty,
}

pub fn starts(ctx: &mut Ctx) {
    ctx.rule("a client starts from the block its checkpoint names and from no other, the checkpoint being the explicit one, else the saved one, else the built-in one");
    let mut r = ctx.rng.fork("starts");
    for i in 0..ctx.n(160, 1500) {
        if ctx.saturated() {
            return;
        }
        clock::simulate(first_contact(ctx, &mut r));
        clock::simulate(client(ctx, &mut r, i as u64));
    }
    ctx.require("started", 20);
    ctx.require("wrong-block", 10);
    ctx.require("committee-not-proven", 5);
    ctx.require("too-old-refused", 5);
    ctx.require("too-old-taken", 3);
    ctx.require("from-the-future", 5);
    ctx.require("client-started", 20);
    ctx.require("explicit", 10);
    ctx.require("saved", 5);
    ctx.require("built-in", 3);
    ctx.require("other-network", 5);
    ctx.require("fallback-used", 3);
    ctx.require("saved-at-shutdown", 5);
    ctx.require("left-as-it-was", 1);
}

/// One bootstrap, honest or not.
async fn first_contact(ctx: &mut Ctx, r: &mut Rng) {
    let net = if r.chance(1, 3) { Net::Sepolia } else { Net::Mainnet };
    let p = net.electra_slot() / PERIOD + r.below(40);
    let chain = make::chain(r, net, p, 3);
    let slot = make::slot_in(r, p);
    let mut boot = chain.boot(r, slot);
    let named = if r.chance(1, 8) { r.array() } else { boot.head.root() };
    match r.below(8) {
        0 => {
            let i = r.index(boot.branch.len());
            boot.branch[i][r.index(32)] ^= 1 << r.below(8);
        }
        1 => boot.committee = boot.committee.altered(r),
        2 => boot.head.proposer ^= 1 << r.below(20),
        3 => boot.head.slot = *r.pick(&[u64::MAX, u64::MAX / 12, u64::MAX / 12 + 1, boot.head.slot + 1, 0]),
        _ => {}
    }
    // 14 days are 100800 slots
    let age = *r.pick(&[0u64, 1, 1000, 100_799, 100_800, 100_801, 200_000]);
    let future = r.chance(1, 5);
    let now = if future { slot - r.range(1, 5000) } else { slot + age };
    let early = r.below(12);
    clock::set(net.time_of(now) + early);
    let strict = r.bool();
    let mut config = net.config();
    config.strict_checkpoint_age = strict;
    let source = Source::of(Said { any_boot: Some(make::boot(&boot)), chain: Some(net.id()), name: "other", ..Default::default() });
    let mut client = ConsensusLightClient::with_custom_rpc(source, named.into(), Arc::new(config));
    let right = boot.head.root() == named;
    let proven = boot.committee_proven();
    let old = now.saturating_sub(boot.head.slot) * 12 >= 14 * 24 * 3600;
    let mangled = boot.head.slot > slot + 1 || boot.head.slot == 0;
    ctx.eval("bootstrap", &(boot.ssz(), now, strict));
    let what = || j!({"network": format!("{net:?}"), "named": hex(&named), "block": hex(&boot.head.root()), "committee proven": proven, "slot": boot.head.slot, "now": now, "strict": strict});
    // nothing but the bootstrap is offered, so a sync that gets past it fails afterwards
    let mut done = None;
    {
        let f = client.sync();
        use std::{future::{poll_fn, Future}, pin::pin, task::Poll};
        let mut f = pin!(f);
        let _ = poll_fn(|cx| match ctx.no_panic("panic-on-bootstrap", what, || f.as_mut().poll(cx)) {
            Some(Poll::Pending) => Poll::Pending,
            Some(Poll::Ready(v)) => {
                done = Some(v);
                Poll::Ready(())
            }
            None => Poll::Ready(()),
        })
        .await;
    }
    if done.is_none() {
        return;
    }
    let took = client.get_finalized_header().slot == boot.head.slot && client.get_finalized_header() == &make::header(&boot.head);
    let should = right && proven && !(old && strict);
    let store = client.get_light_client_store();
    if took && boot.head.slot != 0 {
        ctx.check(should, "bad-bootstrap-taken", what);
        ctx.check(store.current_sync_committee == make::committee(&boot.committee) && store.next_sync_committee.is_none() && store.optimistic_header == store.finalized_header, "store-after-bootstrap-wrong", what);
    } else {
        ctx.check(!should || boot.head.slot == 0, "good-bootstrap-refused", what);
        ctx.check(store.finalized_header == Default::default() && store.optimistic_header == Default::default(), "store-touched-by-refused-bootstrap", what);
    }
    ctx.event(match () {
        _ if !right => "wrong-block",
        _ if !proven => "committee-not-proven",
        _ if old && strict => "too-old-refused",
        _ if old => "too-old-taken",
        _ => "started",
    });
    if boot.head.slot > now || mangled {
        ctx.event("from-the-future");
    }
}

/// A whole client with files, fallbacks and a network to start in.
async fn client(ctx: &mut Ctx, r: &mut Rng, n: u64) {
    let net = if r.chance(1, 4) { Net::Sepolia } else { Net::Mainnet };
    let p = net.electra_slot() / PERIOD + r.below(40);
    let chain = make::chain(r, net, p, 3);
    let mut boots: Vec<Boot> = vec![];
    for _ in 0..4 {
        let s = p * PERIOD + r.below(PERIOD - 200) / 32 * 32;
        let b = chain.boot(r, s);
        boots.push(b);
    }
    // the first is two weeks older than the others
    let ancient = {
        let s = p * PERIOD - 101_000 - r.below(1000);
        let mut old = chain.boot(r, p * PERIOD);
        let c = chain.committee(p);
        old = Boot { head: { let mut h = old.head; h.slot = s; h }, committee: c, branch: old.branch };
        old
    };
    let now = p * PERIOD + PERIOD - 100 + r.below(50);
    clock::set(net.time_of(now) + r.below(12));
    let dir = Dir::new(n);
    let explicit = r.bool();
    let kind = *r.pick(&[Saved::Nothing, Saved::Good, Saved::Good, Saved::Short, Saved::Long, Saved::Empty]);
    let file = dir.0.join("checkpoint");
    let saved_root = boots[1].head.root();
    let saved: Option<Vec<u8>> = match kind {
        Saved::Nothing => None,
        Saved::Good => Some(saved_root.to_vec()),
        Saved::Short => Some(saved_root[..r.index(31) + 1].to_vec()),
        Saved::Long => Some([saved_root.to_vec(), vec![0]].concat()),
        Saved::Empty => Some(vec![]),
    };
    if let Some(b) = &saved {
        std::fs::write(&file, b).expect("file");
    }
    let built_in = net.config().default_checkpoint.0;
    // the explicit block may be too old, so that the fallbacks matter
    let stale = explicit && r.chance(1, 2);
    let strict = r.chance(3, 4);
    let start = if explicit { if stale { &ancient } else { &boots[0] } } else { &boots[1] };
    let named = if explicit { start.head.root() } else if kind == Saved::Good { saved_root } else { built_in };
    let from_built_in = named == built_in;
    ctx.event(if explicit { "explicit" } else if from_built_in { "built-in" } else { "saved" });
    let path = format!("test-source-{n}");
    let mut said = Said { chain: Some(if r.chance(1, 8) { net.id() + 1 } else { net.id() }), name: "other", ..Default::default() };
    let silent = r.chance(1, 12);
    if silent {
        said.chain = None;
    }
    for b in boots.iter().chain([&ancient]) {
        said.boots.insert(b.head.root(), make::boot(b));
    }
    let wrong_net = said.chain != Some(net.id());
    let signed = now - 1;
    let fin = chain.update(r, signed - 2, Some((now - 80) / 32 * 32), signed, false, 500);
    let opt = chain.update(r, signed - 1, None, signed, false, 500);
    let finality = r.chance(3, 4);
    said.finality = finality.then(|| make::finality(&fin));
    said.optimistic = Some(make::optimistic(&opt));
    let source = Source::of(said);
    source.known_as(&path);
    // published checkpoints
    let own = r.bool();
    let external = r.bool();
    let (own_up, external_up) = (r.chance(2, 3), r.chance(2, 3));
    let (a, b) = (boots[2].head.root(), boots[3].head.root());
    let slots = |h: [u8; 32]| json!({"data": {"slots": [{"slot": "1", "block_root": format!("0x{}", hex(&h)), "state_root": null, "epoch": "5", "time": {"start_time": "", "end_time": ""}}]}}).to_string().into_bytes();
    let (own_body, external_body) = (slots(a), slots(b));
    let list = b"mainnet:\n  - name: x\n    endpoint: http://x.test\n    state: true\n    verification: true\n    contacts: null\n    notes: null\n    health:\n      - result: true\n        date: today\n".to_vec();
    reqwest::answered_by(Some(Arc::new(move |_, url, _| match url {
        u if u.starts_with("http://own.test") => own_up.then(|| (200, own_body.clone())),
        u if u.starts_with("http://x.test") => external_up.then(|| (200, external_body.clone())),
        u if u.ends_with(".yaml") => Some((200, list.clone())),
        _ => None,
    })));
    let mut builder = ClientBuilder::new().network(net.code()).consensus_rpc(&path).data_dir(dir.0.clone());
    if explicit {
        builder = builder.checkpoint(named.into());
    }
    if strict {
        builder = builder.strict_checkpoint_age();
    }
    if own {
        builder = builder.fallback("http://own.test");
    }
    if external {
        builder = builder.load_external_fallback();
    }
    let built: anyhow::Result<Client<FileDB, Source>> = builder.build();
    let Ok(mut client) = built else {
        ctx.violation("client-not-built", j!({"case": n}));
        return;
    };
    // where the rules say it must end up
    let begin: Option<&Boot> = if wrong_net || silent || from_built_in {
        None
    } else if !(stale && strict) {
        Some(start)
    } else if own && own_up {
        Some(&boots[2])
    } else if external && external_up {
        Some(&boots[3])
    } else {
        None
    };
    if wrong_net && !silent {
        ctx.event("other-network");
    }
    ctx.eval("client", &(named, format!("{kind:?}"), strict, own, external, own_up, external_up, wrong_net));
    let what = || j!({"network": format!("{net:?}"), "explicit": explicit, "file": format!("{kind:?}"), "stale": stale, "strict": strict, "own fallback": [own, own_up], "external": [external, external_up], "other network": wrong_net, "begins": begin.map(|b| b.head.slot)});
    let got = client.start().await;
    ctx.sample("client", || json!({"case": what(), "started": got.is_ok()}));
    // a checkpoint from before the period cannot be followed to the present with what is offered
    let follows = begin.is_some_and(|b| b.head.slot / PERIOD == p);
    let outcome = got.is_ok();
    ctx.check(outcome == follows, "start-outcome-wrong", || format!("{} got {:?}", what(), got.as_ref().err().map(|e| e.to_string())));
    if outcome {
        ctx.event("client-started");
        if stale && strict {
            ctx.event("fallback-used");
        }
        tokio::time::sleep(Duration::from_millis(1)).await;
        let f = client.get_finalized_header().await;
        let want = if finality { fin.finalized.as_ref().unwrap().0.slot.max(begin.unwrap().head.slot) } else { begin.unwrap().head.slot };
        ctx.check(f.as_ref().is_ok_and(|h| h.slot == want), "finalized-header-after-start-wrong", || format!("{} got {:?} want {want}", what(), f.as_ref().map(|h| h.slot).ok()));
        let o = client.get_header().await;
        ctx.check(o.as_ref().is_ok_and(|h| *h == make::header(&opt.attested)), "head-after-start-wrong", what);
        client.shutdown().await;
        let now_saved = std::fs::read(&file).ok();
        let moved = finality && fin.finalized.as_ref().unwrap().0.slot > begin.unwrap().head.slot;
        if moved {
            ctx.event("saved-at-shutdown");
            let h = fin.finalized.as_ref().unwrap().0.root();
            ctx.check(now_saved == Some(h.to_vec()), "checkpoint-not-saved", || format!("{} file {:?}", what(), now_saved.as_ref().map(|b| hex(b))));
            let again = FileDB::new(&{ let mut c = net.config(); c.data_dir = Some(dir.0.clone()); c }).and_then(|d| d.load_checkpoint());
            ctx.check(again.is_ok_and(|c| c.0 == h), "saved-checkpoint-not-read-back", what);
        } else {
            ctx.event("left-as-it-was");
            ctx.check(now_saved == saved, "checkpoint-file-touched", what);
        }
    } else {
        ctx.event("client-not-started");
        ctx.check(std::fs::read(&file).ok() == saved, "checkpoint-file-touched-by-failed-start", what);
    }
}
