//! The bridge's picture of who is there to take content.
use std::{
    collections::BTreeSet,
    future::Future,
    pin::Pin,
    task::{Context, Poll},
    time::Duration,
};

use alloy::primitives::U256;
use discv5::enr::NodeId;
use ethportal_api::{
    types::{accept_code::AcceptCode, distance::Distance, enr::Enr, network::Subnetwork, portal_wire::OfferTrace},
    BeaconContentKey, LegacyHistoryContentKey, OverlayContentKey, StateContentKey,
};
use portal_bridge::census::{Census, CensusError};
use vcommon::{hex, Ctx, Rng};

use crate::{
    clock,
    town::{Answering, Town, BEACON, HISTORY, STATE},
};

/// Long enough for every peer to be asked again.
const ROUND: u64 = 700;
/// Long enough to give up on a peer.
const GIVE_UP: u64 = 4200;
/// Long enough to hear of a peer from others.
const HEAR: u64 = 2400;

pub fn radius(r: &mut Rng) -> Distance {
    match r.below(5) {
        0 => Distance::ZERO,
        1 => Distance::MAX,
        _ => Distance::from(U256::MAX >> r.below(6)),
    }
}
/// Gives up after a number of turns.
struct Turns<F>(F, u64);
impl<F: Future + Unpin> Future for Turns<F> {
    type Output = Option<F::Output>;
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
        if self.1 == 0 {
            return Poll::Ready(None);
        }
        self.1 -= 1;
        Pin::new(&mut self.0).poll(cx).map(Some)
    }
}
/// Runs to the end, at most for so many turns and that long.
pub async fn end<T: Send + 'static>(f: impl Future<Output = T> + Send + 'static) -> Option<T> {
    clock::within(Duration::from_secs(3600), Turns(Box::pin(f), 300_000)).await.flatten()
}
pub fn view(ctx: &mut Ctx) {
    ctx.rule("after the first look around and as time passes the bridge knows exactly the peers that answer, with the radius and record they last gave; peers silent for long are dropped and not earlier, peers that come or come back are found; for a content item it picks only peers whose radius covers it, each once, and as many as there are up to the limit; peers that keep failing offers are left out for a while");
    let mut r = ctx.rng.fork("census");
    for case in 0..ctx.n(14, 110) {
        if ctx.saturated() {
            break;
        }
        let mut r = r.fork(&format!("case{case}"));
        clock::simulate(one(ctx, &mut r, case));
    }
    for (k, n) in [
        ("looked around", 10), ("nobody there", 1), ("covering picked", 500), ("beyond radius left out", 500), ("limited", 100), ("radius changed", 3), ("fell silent", 3), ("short absence", 2), ("joined", 3), ("new record", 2), ("failing offers left out", 3),
        ("answers less", 1), ("came back", 1),
    ] {
        ctx.require(k, n);
    }
}
fn key(r: &mut Rng, net: Subnetwork) -> Box<dyn Fn(&Census) -> (Option<[u8; 32]>, Result<Vec<Enr>, CensusError>)> {
    macro_rules! pick {
        ($k:expr) => {{
            let k = $k;
            let id = k.affected_by_radius().then(|| k.content_id());
            Box::new(move |c: &Census| (id, c.select_peers(net, &k).map(|v| v.into_iter().map(|p| p.enr).collect())))
        }};
    }
    match net {
        Subnetwork::LegacyHistory => {
            let h: [u8; 32] = r.array();
            let b: Vec<u8> = match r.below(4) {
                0 => [&[0u8][..], &h].concat(),
                1 => [&[1u8][..], &h].concat(),
                2 => [&[2u8][..], &h].concat(),
                _ => [&[3u8][..], &r.u64().to_le_bytes()].concat(),
            };
            pick!(LegacyHistoryContentKey::try_from_bytes(b).expect("key"))
        }
        Subnetwork::Beacon => pick!(BeaconContentKey::try_from_bytes([&[0x10u8][..], &r.array::<32>()].concat()).expect("key")),
        _ => {
            let mut b = vec![0x22u8];
            b.extend(r.array::<32>());
            b.extend(r.array::<32>());
            pick!(StateContentKey::try_from_bytes(b).expect("key"))
        }
    }
}
struct Case<'a> {
    town: &'a Town,
    census: &'a Census,
    net: Subnetwork,
    limit: usize,
    /// peers about which nothing is certain at the moment
    open: BTreeSet<usize>,
    /// peers that have to be known
    sure: BTreeSet<usize>,
    history: Vec<String>,
}
impl Case<'_> {
    /// Compares what is picked with what is known about the peers.
    fn compare(&self, ctx: &mut Ctx, r: &mut Rng) {
        let of = |e: &Enr| self.town.people.iter().position(|p| p.id() == e.node_id().raw());
        for round in 0..60 {
            let (id, got) = if round % 4 == 0 {
                (None, self.census.select_random_peers(self.net).map(|v| v.into_iter().map(|p| p.enr).collect::<Vec<_>>()))
            } else {
                key(r, self.net)(self.census)
            };
            let covers = |i: usize| id.is_none_or(|id| self.town.people[i].covers(&id));
            let due: BTreeSet<usize> = self.sure.iter().copied().filter(|i| covers(*i)).collect();
            ctx.eval("picked", &(id, round, due.len(), self.history.len(), hex(&self.town.key)));
            let got = match got {
                Ok(g) => g,
                Err(e) => {
                    ctx.check(self.sure.is_empty(), "nobody-known", || j!({"history": self.history, "error": e.to_string(), "expected": self.sure.len()}));
                    continue;
                }
            };
            let who: Vec<Option<usize>> = got.iter().map(of).collect();
            let set: BTreeSet<usize> = who.iter().flatten().copied().collect();
            let detail = || j!({"history": self.history, "picked": format!("{who:?}"), "due": format!("{due:?}"), "uncertain": format!("{:?}", self.open), "limit": self.limit, "content": id.map(|i| hex(&i))});
            ctx.check(who.iter().all(|w| w.is_some()) && set.len() == who.len(), "picked-twice-or-unknown", detail);
            ctx.check(who.len() <= self.limit, "more-than-the-limit", detail);
            for i in &set {
                if !self.open.contains(i) {
                    ctx.check(self.sure.contains(i), "picked-a-peer-that-is-gone", detail);
                    ctx.check(covers(*i), "picked-beyond-radius", detail);
                }
            }
            let least = due.len().min(self.limit);
            ctx.check(set.len() >= least, "too-few-picked", detail);
            if due.len() + self.open.len() <= self.limit {
                ctx.check(due.is_subset(&set), "peer-left-out", detail);
            } else {
                ctx.event("limited");
            }
            for (e, w) in got.iter().zip(&who) {
                if let Some(i) = w.filter(|i| self.sure.contains(i) && !self.open.contains(i)) {
                    let want = self.town.people[i].mood.lock().seq;
                    ctx.check(e.seq() == want, "old-record", || j!({"history": self.history, "seq": e.seq(), "expected": want}));
                }
            }
            if id.is_some() {
                ctx.eval_bulk("covering picked", due.len() as u64);
                for _ in 0..due.len() {
                    ctx.event("covering picked");
                }
                for _ in due.len()..self.sure.len() {
                    ctx.event("beyond radius left out");
                }
            }
        }
    }
}
async fn one(ctx: &mut Ctx, r: &mut Rng, case: u64) {
    let (proto, net) = *r.pick(&[(HISTORY, Subnetwork::LegacyHistory), (BEACON, Subnetwork::Beacon), (STATE, Subnetwork::State)]);
    let mut town = Town::found(r, proto);
    let n = r.usize_in(1, 20);
    for _ in 0..n {
        let d = radius(r);
        town.join(r, d, true).await;
    }
    let nobody = case % 7 == 3;
    for p in &town.people {
        let mut m = p.mood.lock();
        m.answering = if nobody || r.chance(1, 8) { Answering::Never } else { Answering::Well };
    }
    // somebody has to be there to begin with
    let boot: Vec<usize> = (0..n.min(3)).collect();
    if !nobody {
        town.people[0].mood.lock().answering = Answering::Well;
        let i = n - 1;
        if i > 0 && r.bool() {
            town.people[i].mood.lock().answering = Answering::Briefly;
        }
    }
    let limit = *r.pick(&[1usize, 2, 5, 8, 40]);
    let config = town.config(&boot, &["--enr-offer-limit", &limit.to_string()]);
    let overlays = town.open(&config).await;
    town.wait(30).await;
    let mut census = Census::new(overlays.clone(), &config);
    if r.chance(1, 4) {
        let none: Vec<Subnetwork> = vec![];
        let mut other = Census::new(overlays.clone(), &config);
        let got = end(async move {
            let a = other.init(none).await.is_err();
            let b = other.init([Subnetwork::Beacon]).await.is_err();
            (a, b)
        })
        .await;
        ctx.check(got == Some((true, true)), "nonsense-start-accepted", || j!({"got": format!("{got:?}")}));
        let mut other = Census::new(overlays.clone(), &config);
        let got = end(async move { other.init([Subnetwork::Utp]).await.is_err() }).await;
        ctx.check(got == Some(true), "unsupported-network-accepted", || j!({"got": format!("{got:?}")}));
    }
    let mut c = census.clone();
    let started = end(async move {
        let h = c.init([net]).await;
        (c, h)
    })
    .await;
    let Some((c, handle)) = started else {
        ctx.check(false, if nobody { "never-gives-up-looking-for-anybody" } else { "first-look-never-ends" }, || j!({"peers": n}));
        return;
    };
    census = c;
    if nobody {
        ctx.check(handle.is_err(), "began-without-anybody", || j!({"peers": n}));
        ctx.event("nobody there");
        return;
    }
    let service = match handle {
        Ok(h) => h,
        Err(e) => {
            ctx.check(false, "first-look-failed", || j!({"error": e.to_string(), "peers": n}));
            return;
        }
    };
    ctx.event("looked around");
    let mut case = Case { town: &town, census: &census, net, limit, open: Default::default(), sure: Default::default(), history: vec![] };
    // right after the first look, nobody who does not answer is known
    let well = |t: &Town| -> BTreeSet<usize> { (0..t.people.len()).filter(|i| t.people[*i].mood.lock().answering == Answering::Well).collect() };
    case.open = well(&town);
    case.compare(ctx, r);
    town.wait(HEAR).await;
    case.open.clear();
    case.sure = well(&town);
    case.compare(ctx, r);
    if (0..n).any(|i| town.people[i].mood.lock().answering == Answering::Briefly) {
        ctx.event("answers less");
    }
    let mut history = vec![];
    let mut dead: Vec<usize> = vec![];
    drop(case);
    let mut sure = well(&town);
    for _ in 0..r.range(2, 5) {
        if ctx.violated() {
            break;
        }
        let mut open = BTreeSet::new();
        let alive: Vec<usize> = sure.iter().copied().collect();
        let what = r.below(9);
        let mut wait = ROUND;
        match what {
            0 | 1 => {
                for i in &alive {
                    if r.bool() {
                        town.people[*i].mood.lock().radius = radius(r);
                    }
                }
                history.push("radii change".to_string());
                ctx.event("radius changed");
            }
            2 if alive.len() > 1 => {
                // for good
                for i in alive.iter().take(alive.len() - 1) {
                    if r.chance(1, 3) {
                        let mut m = town.people[*i].mood.lock();
                        m.answering = if r.chance(1, 3) { Answering::Briefly } else { Answering::Never };
                        m.missed = 0;
                        dead.push(*i);
                        sure.remove(i);
                        open.insert(*i);
                        history.push(format!("peer {i} answers {:?}", m.answering));
                        ctx.event("fell silent");
                    }
                }
                // nobody is given up on early
                for _ in 0..4 {
                    town.wait(300).await;
                    let early: BTreeSet<usize> = dead.iter().copied().filter(|i| open.contains(i) && town.people[*i].mood.lock().missed < 10).collect();
                    let mut all = sure.clone();
                    all.extend(&early);
                    let rest: BTreeSet<usize> = open.difference(&early).copied().collect();
                    let c = Case { town: &town, census: &census, net, limit, open: rest, sure: all, history: history.clone() };
                    c.compare(ctx, r);
                }
                wait = GIVE_UP;
                open.clear();
            }
            3 => {
                let i = *r.pick(&alive);
                town.people[i].mood.lock().answering = Answering::Never;
                let d = r.range(20, 900);
                history.push(format!("peer {i} is away for {d} s"));
                town.wait(d).await;
                town.people[i].mood.lock().answering = Answering::Well;
                ctx.event("short absence");
                let c = Case { town: &town, census: &census, net, limit, open: Default::default(), sure: sure.clone(), history: history.clone() };
                c.compare(ctx, r);
            }
            4 | 5 => {
                let d = radius(r);
                let i = town.join(r, d, true).await;
                history.push(format!("peer {i} joins"));
                // one that hardly any search comes upon makes itself known
                if alive.iter().all(|a| crate::peers::log2(&town.people[*a].id(), &town.people[i].id()) < 253) {
                    town.people[i].hello().await;
                }
                sure.insert(i);
                wait = HEAR;
                ctx.event("joined");
            }
            6 => {
                let i = *r.pick(&alive);
                town.people[i].mood.lock().seq += r.range(1, 5);
                history.push(format!("peer {i} has a new record"));
                ctx.event("new record");
            }
            7 => {
                let i = *r.pick(&alive);
                let id = NodeId::new(&town.people[i].id());
                let trace = if r.bool() { OfferTrace::Failed } else { OfferTrace::Success(AcceptCode::NotWithinRadius) };
                for k in 0..120 {
                    census.record_offer_result(net, id, 100, Duration::from_secs(1), &trace);
                    if alive.len() > 1 && k % 4 == 0 {
                        let o = *alive.iter().find(|o| **o != i).unwrap();
                        census.record_offer_result(net, NodeId::new(&town.people[o].id()), 100, Duration::from_secs(1), &OfferTrace::Success(AcceptCode::Accepted));
                    }
                }
                history.push(format!("offers to peer {i} fail: {trace:?}"));
                town.wait(r.range(0, 600)).await;
                let mut s = sure.clone();
                s.remove(&i);
                let c = Case { town: &town, census: &census, net, limit, open: Default::default(), sure: s, history: history.clone() };
                c.compare(ctx, r);
                ctx.event("failing offers left out");
                wait = 960;
            }
            _ if !dead.is_empty() => {
                let i = dead.remove(r.index(dead.len()));
                town.people[i].mood.lock().answering = Answering::Well;
                town.people[i].hello().await;
                history.push(format!("peer {i} is back"));
                sure.insert(i);
                wait = HEAR;
                ctx.event("came back");
            }
            _ => {}
        }
        town.wait(wait).await;
        let c = Case { town: &town, census: &census, net, limit, open, sure: sure.clone(), history: history.clone() };
        c.compare(ctx, r);
    }
    ctx.check(!service.is_finished(), "stopped-watching", || j!({"history": history}));
    if r.chance(1, 3) && !ctx.violated() {
        // everybody leaves, some come back
        for p in &town.people {
            p.mood.lock().answering = Answering::Never;
        }
        town.wait(GIVE_UP).await;
        history.push("everybody left".into());
        let c = Case { town: &town, census: &census, net, limit, open: Default::default(), sure: Default::default(), history: history.clone() };
        c.compare(ctx, r);
        let before = crate::said();
        town.wait(60).await;
        let said = crate::said() - before;
        ctx.check(said < 3000, "spins-without-anybody", || j!({"history": history, "messages in a minute": said}));
        let back: BTreeSet<usize> = (0..town.people.len()).filter(|i| *i == 0 || r.bool()).collect();
        for i in &back {
            town.people[*i].mood.lock().answering = Answering::Well;
            town.people[*i].hello().await;
        }
        town.wait(HEAR).await;
        history.push("some came back".into());
        let c = Case { town: &town, census: &census, net, limit, open: Default::default(), sure: back, history: history.clone() };
        c.compare(ctx, r);
        ctx.event("came back");
    }
    service.abort();
}
