//! Lookups, driven step by step against a simulated network of peers.
use std::{
    collections::{BTreeMap, BTreeSet},
    time::{Duration, Instant},
};

use discv5::{enr::NodeId, kbucket::Key};
use ethportal_api::{types::content_key::overlay::IdentityContentKey, RawContentValue};
use portalnet::find::{
    iterators::{
        findcontent::{FindContentQuery, FindContentQueryPending, FindContentQueryResponse, FindContentQueryResult, ValidatedContent},
        findnodes::FindNodeQuery,
        query::{Query, QueryConfig},
    },
    query_info::{QueryInfo, QueryType},
    query_pool::{QueryPool, QueryPoolState, QueryState},
};
use vcommon::{hex, Ctx, Rng};

use crate::{clock, peers::xor};

type Id = [u8; 32];

#[derive(Clone, Copy, PartialEq, Debug)]
enum Mood {
    Answers,
    /// answers after the lookup has stopped waiting
    Late,
    Fails,
    Silent,
}
#[derive(Clone, PartialEq, Debug)]
enum Has {
    Nothing,
    Good,
    Bad,
    Stream { good: bool },
}
struct Net {
    target: Id,
    ids: Vec<Id>,
    mood: Vec<Mood>,
    knows: Vec<Vec<usize>>,
    has: Vec<Has>,
}
fn near(r: &mut Rng, t: &Id) -> Id {
    let mut id: Id = r.array();
    let keep = r.below(24) as usize;
    for b in 0..keep {
        let m = 0x80u8 >> (b % 8);
        id[b / 8] = (id[b / 8] & !m) | (t[b / 8] & m);
    }
    id
}
impl Net {
    fn random(r: &mut Rng, contents: bool) -> Self {
        let target: Id = r.array();
        let n = *r.pick(&[1usize, 2, 5, 20, 60, 120]);
        let ids: Vec<Id> = (0..n).map(|_| near(r, &target)).collect();
        let bad = r.below(4);
        let mood = (0..n)
            .map(|_| match r.below(12) {
                x if x >= 3 * bad => Mood::Answers,
                x if x % 3 == 0 => Mood::Late,
                x if x % 3 == 1 => Mood::Fails,
                _ => Mood::Silent,
            })
            .collect();
        let deg = *r.pick(&[1usize, 4, 12, 20]);
        let ring = r.bool();
        let knows = (0..n)
            .map(|i| {
                let mut v: Vec<usize> = (0..r.usize_in(0, deg)).map(|_| r.index(n)).collect();
                if ring {
                    v.push((i + 1) % n);
                }
                v
            })
            .collect();
        let rate = r.range(1, 40);
        let has = (0..n)
            .map(|_| {
                if !contents || !r.chance(rate, 100) {
                    return Has::Nothing;
                }
                match r.below(4) {
                    0 => Has::Good,
                    1 => Has::Bad,
                    2 => Has::Stream { good: r.bool() },
                    _ => Has::Bad,
                }
            })
            .collect();
        Self { target, ids, mood, knows, has }
    }
    fn at(&self, id: &NodeId) -> Option<usize> {
        self.ids.iter().position(|i| *i == id.raw())
    }
    fn node(&self, i: usize) -> NodeId {
        NodeId::new(&self.ids[i])
    }
    fn d(&self, i: usize) -> Id {
        xor(&self.ids[i], &self.target)
    }
}
#[derive(Clone, Copy, PartialEq, Debug)]
enum Ask {
    Open(Duration),
    Given,
    Failed,
}
struct Run {
    cfg: QueryConfig,
    asked: BTreeMap<usize, Ask>,
    known: BTreeSet<usize>,
    trace: Vec<String>,
    t: Duration,
}
fn config(r: &mut Rng) -> QueryConfig {
    QueryConfig { parallelism: r.usize_in(1, 5), num_results: *r.pick(&[1usize, 3, 8, 16, 20]), peer_timeout: Duration::from_secs(2), overall_timeout: Duration::from_secs(60) }
}
impl Run {
    fn waiting(&self) -> usize {
        self.asked.values().filter(|a| matches!(a, Ask::Open(t) if self.t < *t + self.cfg.peer_timeout)).count()
    }
    fn ask(&mut self, ctx: &mut Ctx, net: &Net, p: &NodeId) -> Option<usize> {
        let Some(i) = net.at(p) else {
            ctx.violation("lookup/unknown-peer", format!("asked {p}"));
            return None;
        };
        let trace = &self.trace;
        ctx.check(self.known.contains(&i), "lookup/peer-nobody-named", || j!({"peer": i, "trace": trace}));
        ctx.check(!self.asked.contains_key(&i), "lookup/asked-twice", || j!({"peer": i, "trace": trace}));
        // the nearest peer not asked yet
        let nearest = self.known.iter().filter(|k| !self.asked.contains_key(k)).min_by_key(|k| net.d(**k));
        ctx.check(nearest == Some(&i), "lookup/not-the-nearest", || j!({"peer": i, "nearest": nearest, "trace": trace}));
        self.asked.insert(i, Ask::Open(self.t));
        let w = self.waiting();
        let most = self.cfg.parallelism.max(self.cfg.num_results);
        ctx.check(w <= most, "lookup/too-many-at-once", || j!({"waiting": w, "most": most, "trace": self.trace}));
        self.trace.push(format!("{}ms ask {i}", self.t.as_millis()));
        Some(i)
    }
    fn given(&mut self, net: &Net, i: usize) {
        self.asked.insert(i, Ask::Given);
        self.known.extend(net.knows[i].iter().copied());
        self.trace.push(format!("{}ms answer of {i}: {:?}", self.t.as_millis(), net.knows[i]));
    }
}
/// When a peer's answer arrives.
fn delay(r: &mut Rng, m: Mood) -> Option<Duration> {
    match m {
        Mood::Answers | Mood::Fails => Some(Duration::from_millis(r.range(10, 1900))),
        Mood::Late => Some(Duration::from_millis(r.range(2100, 9000))),
        Mood::Silent => None,
    }
}
fn start(net: &Net, r: &mut Rng, cfg: &QueryConfig) -> Vec<usize> {
    let mut s: BTreeSet<usize> = (0..r.usize_in(0, cfg.num_results)).map(|_| r.index(net.ids.len())).collect();
    if s.is_empty() && r.chance(4, 5) {
        s.insert(0);
    }
    let mut s: Vec<usize> = s.into_iter().collect();
    s.sort_by_key(|i| net.d(*i));
    s
}

pub fn nodes(ctx: &mut Ctx) {
    ctx.rule("a lookup asks each known peer at most once, nearest first, within its parallelism; it ends, and its result is the nearest peers that answered, up to the number asked for; every known peer nearer than the last result has been asked");
    let mut r = ctx.rng.fork("nodes");
    for case in 0..ctx.n(6000, 100_000) {
        if ctx.saturated() {
            break;
        }
        let mut r = r.fork(&format!("case{case}"));
        node_lookup(ctx, &mut r);
    }
    for (k, n) in [("finished lookup", 400), ("late answer used", 100), ("silent peer given up", 200), ("stopped with enough results", 20), ("ran out of peers", 200)] {
        ctx.require(k, n);
    }
    pool(ctx);
}
fn node_lookup(ctx: &mut Ctx, r: &mut Rng) {
    let net = Net::random(r, false);
    let cfg = config(r);
    let first = start(&net, r, &cfg);
    let base = Instant::now();
    let mut q = FindNodeQuery::with_config(cfg.clone(), Key::from(NodeId::new(&net.target)), first.iter().map(|i| Key::from(net.node(*i))));
    let mut run = Run { cfg, asked: BTreeMap::new(), known: first.iter().copied().collect(), trace: vec![format!("start {first:?}")], t: Duration::ZERO };
    q.start(base);
    let mut due: Vec<(Duration, usize)> = vec![];
    let mut idle = 0;
    let mut steps = 0u64;
    loop {
        steps += 1;
        if steps > 100_000 || ctx.saturated() {
            ctx.violation("lookup/no-end", j!({"trace": run.trace}));
            return;
        }
        match q.poll(base + run.t) {
            QueryState::Waiting(Some(p)) => {
                let Some(i) = run.ask(ctx, &net, &p) else { return };
                idle = 0;
                if let Some(d) = delay(r, net.mood[i]) {
                    due.push((run.t + d, i));
                }
                continue;
            }
            QueryState::Finished => break,
            QueryState::Validating(_) => {
                ctx.violation("lookup/validating", j!({"trace": run.trace}));
                return;
            }
            QueryState::Waiting(None) | QueryState::WaitingAtCapacity => {}
        }
        // nothing more to do now; a lookup with free capacity and peers left must ask
        idle += 1;
        let left = run.known.iter().filter(|k| !run.asked.contains_key(k)).count();
        let stuck = left > 0 && run.waiting() < run.cfg.parallelism.min(run.cfg.num_results) && idle > 2;
        ctx.check(!stuck, "lookup/idle", || j!({"left": left, "waiting": run.waiting(), "parallelism": run.cfg.parallelism, "trace": run.trace}));
        if stuck {
            return;
        }
        let next = due.iter().map(|d| d.0).min();
        let expiry = run.asked.values().filter_map(|a| if let Ask::Open(t) = a { Some(*t + run.cfg.peer_timeout) } else { None }).filter(|t| *t > run.t).min();
        if idle <= 2 {
            continue;
        }
        idle = 0;
        let Some(at) = [next, expiry].into_iter().flatten().min() else {
            ctx.violation("lookup/waits-for-nothing", j!({"trace": run.trace}));
            return;
        };
        run.t = at;
        due.sort();
        while let Some(k) = due.iter().position(|d| d.0 <= run.t) {
            let (_, i) = due.remove(k);
            match net.mood[i] {
                Mood::Fails => {
                    q.on_failure(&net.node(i));
                    run.asked.insert(i, Ask::Failed);
                    run.trace.push(format!("{}ms failure of {i}", run.t.as_millis()));
                }
                m => {
                    if m == Mood::Late {
                        ctx.event("late answer used");
                    }
                    q.on_success(&net.node(i), net.knows[i].iter().map(|k| net.node(*k)).collect());
                    run.given(&net, i);
                }
            }
        }
        // answers nobody asked for change nothing
        if r.chance(1, 10) {
            let i = r.index(net.ids.len());
            if run.asked.get(&i).is_none_or(|a| *a == Ask::Failed || *a == Ask::Given) {
                q.on_success(&net.node(i), vec![NodeId::new(&r.array::<32>())]);
                q.on_failure(&net.node(i));
            }
        }
        if run.asked.values().any(|a| matches!(a, Ask::Open(t) if *t + run.cfg.peer_timeout <= run.t)) {
            ctx.event("silent peer given up");
        }
    }
    ctx.eval("finished lookup", &run.trace);
    let answered: BTreeSet<usize> = run.asked.iter().filter(|(_, a)| **a == Ask::Given).map(|(i, _)| *i).collect();
    let mut want: Vec<usize> = answered.iter().copied().collect();
    want.sort_by_key(|i| net.d(*i));
    want.truncate(run.cfg.num_results);
    let unasked: Vec<usize> = run.known.iter().copied().filter(|k| !run.asked.contains_key(k)).collect();
    let open = run.waiting();
    if want.len() == run.cfg.num_results {
        ctx.event("stopped with enough results");
        let last = net.d(*want.last().expect("results"));
        ctx.check(unasked.iter().all(|u| net.d(*u) > last), "lookup/nearer-peer-not-asked", || j!({"unasked": unasked, "results": want, "trace": run.trace}));
    } else {
        ctx.event("ran out of peers");
        ctx.check(unasked.is_empty() && open == 0, "lookup/ended-early", || j!({"unasked": unasked, "waiting": open, "wanted": run.cfg.num_results, "results": want, "trace": run.trace}));
    }
    let again = q.poll(base + run.t);
    ctx.check(again == QueryState::Finished, "lookup/restarted", || j!({"trace": run.trace}));
    let got: Vec<Id> = q.into_result().iter().map(|n| n.raw()).collect();
    let want: Vec<Id> = want.iter().map(|i| net.ids[*i]).collect();
    ctx.check(got == want, "lookup/result", || j!({"got": got.iter().map(|g| net.ids.iter().position(|i| i == g)).collect::<Vec<_>>(), "want": want.iter().map(|g| net.ids.iter().position(|i| i == g)).collect::<Vec<_>>(), "trace": run.trace}));
}

/// Several lookups in one pool: each is answered for itself and none outlives its time limit.
fn pool(ctx: &mut Ctx) {
    let mut r = ctx.rng.fork("pool");
    for case in 0..ctx.n(200, 3000) {
        let mut r = r.fork(&format!("case{case}"));
        clock::simulate(async {
            let n = r.usize_in(1, 6);
            let mut pool: QueryPool<NodeId, FindNodeQuery<NodeId>, IdentityContentKey> = QueryPool::default();
            ctx.check(matches!(pool.poll(), QueryPoolState::Idle), "pool/empty", || "an empty pool is busy".into());
            let mut nets = BTreeMap::new();
            for _ in 0..n {
                let net = Net::random(&mut r, false);
                let limit = Duration::from_secs(*r.pick(&[3, 10, 60]));
                let cfg = QueryConfig { overall_timeout: limit, ..config(&mut r) };
                let mut first = start(&net, &mut r, &cfg);
                if first.is_empty() {
                    first.push(0);
                }
                let q = FindNodeQuery::with_config(cfg, Key::from(NodeId::new(&net.target)), first.iter().map(|i| Key::from(net.node(*i))));
                let info = QueryInfo { query_type: QueryType::FindNode { target: NodeId::new(&net.target), callback: None, distances_to_request: 3 }, untrusted_enrs: Default::default(), trace: None };
                let id = pool.add_query(info, q);
                ctx.check(nets.insert(*id, (net, clock::now(), limit)).is_none(), "pool/same-number", || format!("{id}"));
            }
            let mut due: Vec<(Duration, usize, usize)> = vec![];
            let mut quiet = 0;
            while !nets.is_empty() {
                if ctx.saturated() {
                    return;
                }
                let mut busy = true;
                match pool.poll() {
                    QueryPoolState::Waiting(Some((id, _, _, p))) => {
                        let Some((net, _, _)) = nets.get(&*id) else {
                            ctx.violation("pool/finished-lookup-asks", format!("{id}"));
                            return;
                        };
                        let Some(i) = net.at(&p) else {
                            ctx.violation("pool/wrong-lookup", format!("{id}"));
                            return;
                        };
                        if let Some(d) = delay(&mut r, net.mood[i]) {
                            due.push((clock::now() + d, *id, i));
                        }
                    }
                    QueryPoolState::Finished(id, _, q) => {
                        ctx.eval("pool result", &(*id, case));
                        let Some((net, _, _)) = nets.remove(&*id) else {
                            ctx.violation("pool/finished-twice", format!("{id}"));
                            return;
                        };
                        ctx.check(q.target() == Key::from(NodeId::new(&net.target)), "pool/mixed-up", || format!("{id}"));
                        ctx.check(q.into_result().iter().all(|n| net.at(n).is_some()), "pool/foreign-result", || format!("{id}"));
                    }
                    QueryPoolState::Timeout(id, _, _) => {
                        ctx.event("pool timeout");
                        let Some((_, since, limit)) = nets.remove(&*id) else {
                            ctx.violation("pool/finished-twice", format!("{id}"));
                            return;
                        };
                        let took = clock::now() - since;
                        ctx.check(took >= limit, "pool/ended-too-soon", || format!("{took:?} of {limit:?}"));
                    }
                    QueryPoolState::Validating(..) => ctx.violation("pool/validating", String::new()),
                    QueryPoolState::Idle => {
                        ctx.violation("pool/lost-lookups", format!("{} left", nets.len()));
                        return;
                    }
                    QueryPoolState::Waiting(None) => busy = false,
                }
                if busy {
                    quiet = 0;
                    continue;
                }
                quiet += 1;
                if quiet < 4 {
                    continue;
                }
                quiet = 0;
                clock::step(Duration::from_millis(50));
                let now = clock::now();
                while let Some(k) = due.iter().position(|d| d.0 <= now) {
                    let (_, id, i) = due.remove(k);
                    let Some((net, _, _)) = nets.get(&id) else { continue };
                    let Some((_, q)) = pool.get_mut(portalnet::find::query_pool::QueryId(id)) else { continue };
                    if net.mood[i] == Mood::Fails {
                        q.on_failure(&net.node(i));
                    } else {
                        q.on_success(&net.node(i), net.knows[i].iter().map(|k| net.node(*k)).collect());
                    }
                }
                for (id, (_, since, limit)) in &nets {
                    let took = now - *since;
                    ctx.check(took <= *limit + Duration::from_secs(1), "pool/outlives-limit", || format!("{id}: {took:?} of {limit:?}"));
                }
            }
            ctx.check(matches!(pool.poll(), QueryPoolState::Idle), "pool/not-empty", || "all lookups ended but the pool is busy".into());
        });
    }
    ctx.require("pool result", 60);
    ctx.require("pool timeout", 5);
}

pub fn contents(ctx: &mut Ctx) {
    ctx.rule("a content lookup hands out one answer at a time for validation, each with the peer it came from; it ends with the first content found valid; after an invalid one it goes on; it ends without content only when every known peer has been asked and every answer checked");
    let mut r = ctx.rng.fork("contents");
    for case in 0..ctx.n(8000, 120_000) {
        if ctx.saturated() {
            break;
        }
        let mut r = r.fork(&format!("case{case}"));
        content_lookup(ctx, &mut r);
    }
    for (k, n) in [("content lookup", 500), ("content found", 100), ("nothing found", 100), ("went on after invalid content", 100), ("stream", 50), ("found after invalid content", 20)] {
        ctx.require(k, n);
    }
}
fn content_lookup(ctx: &mut Ctx, r: &mut Rng) {
    let net = Net::random(r, true);
    let cfg = config(r);
    let first = start(&net, r, &cfg);
    let base = Instant::now();
    let mut q = FindContentQuery::with_config(cfg.clone(), Key::from(NodeId::new(&net.target)), first.iter().map(|i| Key::from(net.node(*i))));
    q.start(base);
    let mut run = Run { cfg, asked: BTreeMap::new(), known: first.iter().copied().collect(), trace: vec![format!("start {first:?}")], t: Duration::ZERO };
    let body = |i: usize, good: bool| RawContentValue::from([vec![good as u8], net.ids[i].to_vec()].concat());
    let mut due: Vec<(Duration, usize)> = vec![];
    // the answer being checked: when the verdict is there, who sent it, is it good
    let mut checking: Option<(Duration, usize, bool, bool, vcommon_tx::Tx)> = None;
    let mut unchecked: Vec<usize> = vec![];
    let mut idle = 0;
    let mut found = None;
    let mut invalid = false;
    let mut steps = 0u64;
    loop {
        steps += 1;
        if steps > 100_000 || ctx.saturated() {
            ctx.violation("content-lookup/no-end", j!({"trace": run.trace}));
            return;
        }
        let state = q.poll(base + run.t);
        match state {
            QueryState::Waiting(Some(p)) => {
                ctx.check(checking.is_none(), "content-lookup/asks-while-checking", || j!({"trace": run.trace}));
                let Some(i) = run.ask(ctx, &net, &p) else { return };
                idle = 0;
                if let Some(d) = delay(r, net.mood[i]) {
                    due.push((run.t + d, i));
                }
                continue;
            }
            QueryState::Finished => break,
            QueryState::Validating(p) => {
                idle = 0;
                let Some(i) = net.at(&p) else {
                    ctx.violation("content-lookup/unknown-source", j!({"trace": run.trace}));
                    return;
                };
                ctx.check(checking.is_none(), "content-lookup/two-checks", || j!({"trace": run.trace}));
                let queued = unchecked.iter().position(|u| *u == i);
                ctx.check(queued.is_some(), "content-lookup/checked-twice", || j!({"peer": i, "trace": run.trace}));
                if let Some(k) = queued {
                    unchecked.remove(k);
                }
                run.trace.push(format!("{}ms check of {i}", run.t.as_millis()));
                let at = run.t + Duration::from_millis(r.range(0, 3000));
                let succeeded: BTreeSet<usize> = run.asked.iter().filter(|(k, a)| **a == Ask::Given && **k != i).map(|(k, _)| *k).collect();
                let (poke, tx, peer, good, stream) = match q.pending_validation_result(p) {
                    FindContentQueryPending::PendingContent { content, nodes_to_poke, peer, valid_content_tx } => {
                        let good = net.has[i] == Has::Good;
                        ctx.check(matches!(net.has[i], Has::Good | Has::Bad) && content == body(i, good), "content-lookup/other-content", || j!({"peer": i, "content": hex(&content), "trace": run.trace}));
                        (nodes_to_poke, valid_content_tx, peer, good, false)
                    }
                    FindContentQueryPending::Utp { connection_id, nodes_to_poke, peer, valid_content_tx } => {
                        ctx.event("stream");
                        let good = net.has[i] == Has::Stream { good: true };
                        ctx.check(matches!(net.has[i], Has::Stream { .. }) && connection_id == i as u16 + 77, "content-lookup/other-stream", || j!({"peer": i, "trace": run.trace}));
                        (nodes_to_poke, valid_content_tx, peer, good, true)
                    }
                    FindContentQueryPending::NonePending => {
                        ctx.violation("content-lookup/nothing-to-check", j!({"peer": i, "trace": run.trace}));
                        return;
                    }
                };
                ctx.check(peer == p, "content-lookup/wrong-source", || j!({"peer": i, "trace": run.trace}));
                let poke: Vec<Option<usize>> = poke.iter().map(|n| net.at(n)).collect();
                let ok = poke.iter().all(|k| k.is_some_and(|k| succeeded.contains(&k))) && poke.len() == succeeded.len().min(run.cfg.num_results);
                ctx.check(ok, "content-lookup/poke", || j!({"peer": i, "poke": poke, "answered": succeeded, "trace": run.trace}));
                checking = Some((at, i, good, stream, Box::new(move |v| tx.send(v).map_err(|_| ()))));
                continue;
            }
            QueryState::Waiting(None) | QueryState::WaitingAtCapacity => {}
        }
        idle += 1;
        let left = run.known.iter().filter(|k| !run.asked.contains_key(k)).count();
        let stuck = checking.is_none() && idle > 2 && (!unchecked.is_empty() || left > 0 && run.waiting() < run.cfg.parallelism.min(run.cfg.num_results));
        ctx.check(!stuck, "content-lookup/idle", || j!({"left": left, "unchecked": unchecked, "waiting": run.waiting(), "trace": run.trace}));
        if stuck {
            return;
        }
        if idle <= 2 {
            continue;
        }
        idle = 0;
        let next = due.iter().map(|d| d.0).min();
        let verdict = checking.as_ref().map(|c| c.0.max(run.t));
        let expiry = run.asked.values().filter_map(|a| if let Ask::Open(t) = a { Some(*t + run.cfg.peer_timeout) } else { None }).filter(|t| *t > run.t).min();
        let Some(at) = [next, verdict, expiry].into_iter().flatten().min() else {
            ctx.violation("content-lookup/waits-for-nothing", j!({"trace": run.trace}));
            return;
        };
        run.t = at;
        due.sort();
        while let Some(k) = due.iter().position(|d| d.0 <= run.t) {
            let (_, i) = due.remove(k);
            if net.mood[i] == Mood::Fails {
                q.on_failure(&net.node(i));
                run.asked.insert(i, Ask::Failed);
                run.trace.push(format!("{}ms failure of {i}", run.t.as_millis()));
                continue;
            }
            let answer = match &net.has[i] {
                Has::Nothing => FindContentQueryResponse::ClosestNodes(net.knows[i].iter().map(|k| net.node(*k)).collect()),
                Has::Good => FindContentQueryResponse::Content(body(i, true)),
                Has::Bad => FindContentQueryResponse::Content(body(i, false)),
                Has::Stream { .. } => FindContentQueryResponse::ConnectionId(i as u16 + 77),
            };
            q.on_success(&net.node(i), answer);
            if net.has[i] == Has::Nothing {
                run.given(&net, i);
            } else {
                run.asked.insert(i, Ask::Given);
                unchecked.push(i);
                run.trace.push(format!("{}ms content of {i}: {:?}", run.t.as_millis(), net.has[i]));
            }
        }
        if checking.as_ref().is_some_and(|c| c.0 <= run.t) {
            if let Some((_, i, good, stream, tx)) = checking.take() {
                run.trace.push(format!("{}ms verdict on {i}: {good}", run.t.as_millis()));
                let v = good.then(|| ValidatedContent { content: body(i, true), was_utp_transfer: stream, sending_peer: net.node(i) });
                let sent = tx(v);
                ctx.check(sent.is_ok(), "content-lookup/verdict-refused", || j!({"trace": run.trace}));
                if good {
                    found = Some((i, stream));
                } else {
                    invalid = true;
                    ctx.event("went on after invalid content");
                }
            }
        }
    }
    ctx.eval("content lookup", &run.trace);
    let waiting: BTreeSet<usize> = run.asked.iter().filter(|(_, a)| matches!(a, Ask::Open(_))).map(|(i, _)| *i).collect();
    match (q.into_result(), found) {
        (FindContentQueryResult::ValidContent(c, cancelled), Some((i, stream))) => {
            ctx.event("content found");
            if invalid {
                ctx.event("found after invalid content");
            }
            ctx.check(c.content == body(i, true) && c.sending_peer == net.node(i) && c.was_utp_transfer == stream, "content-lookup/result", || j!({"peer": i, "trace": run.trace}));
            let cancelled: BTreeSet<Option<usize>> = cancelled.iter().map(|n| net.at(n)).collect();
            ctx.check(cancelled.iter().all(|c| c.is_some_and(|c| waiting.contains(&c))), "content-lookup/cancelled", || j!({"cancelled": cancelled, "waiting": waiting, "trace": run.trace}));
        }
        (FindContentQueryResult::NoneFound, None) => {
            ctx.event("nothing found");
            let unasked: Vec<_> = run.known.iter().filter(|k| !run.asked.contains_key(k)).collect();
            ctx.check(unasked.is_empty() && unchecked.is_empty() && checking.is_none() && run.waiting() == 0, "content-lookup/gave-up", || j!({"unasked": unasked, "unchecked": unchecked, "trace": run.trace}));
        }
        (FindContentQueryResult::NoneFound, Some(_)) => ctx.violation("content-lookup/lost", j!({"trace": run.trace})),
        (FindContentQueryResult::ValidContent(..), None) => ctx.violation("content-lookup/unchecked-result", j!({"trace": run.trace})),
    }
}
mod vcommon_tx {
    use super::{NodeId, ValidatedContent};
    /// Hands a verdict back to the lookup.
    pub type Tx = Box<dyn FnOnce(Option<ValidatedContent<NodeId>>) -> Result<(), ()>>;
}
