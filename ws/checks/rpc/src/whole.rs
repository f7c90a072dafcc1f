//! Complete nodes that only meet each other, driven through what they serve.
use std::{collections::BTreeMap, time::Duration};

use ethportal_api::types::enr::Enr;
use jsonrpsee::{served, Methods};
use oracle::{
    exec::{Block, Era},
    schema::{self, Fork, V},
};
use serde_json::Value;
use trin::{TrinConfig, TrinHandle};
use vcommon::{hex, json, unhex, Ctx, Rng};

use crate::{
    blocks::{self, body, by_hash, by_number, header_content, receipts, Proven},
    clock,
    header::{Kind, World},
    place, things,
    tries::{self, Form},
};

type Bytes = Vec<u8>;
const NETS: [&str; 3] = ["beacon", "legacyHistory", "state"];
const FLAGS: [&str; 3] = ["beacon", "legacy_history", "state"];
const BEACON: usize = 0;
const HISTORY: usize = 1;
const STATE: usize = 2;

fn text(b: &[u8]) -> Value {
    json!(format!("0x{}", hex(b)))
}
fn summaries(r: &mut Rng, w: &World) -> (Bytes, Bytes) {
    let epoch = r.range(364_032, 500_000);
    let v = V::Items(vec![
        V::Raw(epoch.to_le_bytes().to_vec()),
        V::Items(w.summaries.iter().map(|s| V::Items(vec![V::Raw(s.to_vec()), V::Raw(r.bytes(32))])).collect()),
        V::Items((0..6).map(|_| V::Raw(r.bytes(32))).collect()),
    ]);
    let mut out = Fork::Electra.digest().to_vec();
    out.extend(schema::historical_summaries_with_proof().ser(&v));
    (ethportal_api::OverlayContentKey::to_bytes(&things::of_summaries(epoch)).to_vec(), out)
}
fn chain(r: &mut Rng, n: usize) -> (World, Vec<Proven>) {
    let mut w = blocks::world(r);
    w.summaries = (0..r.range(10, 40)).map(|_| r.array()).collect();
    let mut list: Vec<Proven> = vec![];
    for _ in 0..40 {
        if list.len() >= n {
            break;
        }
        let kind = *r.pick(&[Kind::Capella, Kind::Deneb]);
        list.push(blocks::proven(r, kind, &mut w));
        let mut seen = std::collections::BTreeSet::new();
        list.retain(|p| p.claim.holds(&w) && seen.insert(p.block.header.number));
    }
    (w, list)
}
struct Node {
    dir: std::path::PathBuf,
    nets: usize,
    key: Option<[u8; 32]>,
    udp: u16,
    door: String,
    enr: Enr,
    handle: Option<TrinHandle>,
    /// what it is known to hold, per network
    held: [BTreeMap<Bytes, Bytes>; 3],
    /// whom it has met
    met: Vec<usize>,
}
struct Answer(Option<Result<Value, String>>);
impl Answer {
    fn ok(&self) -> Option<&Value> {
        self.0.as_ref().and_then(|x| x.as_ref().ok())
    }
    fn content(&self) -> Option<Bytes> {
        let v = self.ok()?;
        let t = if v.is_string() { v } else { v.get("content")? };
        Some(unhex(t.as_str()?.trim_start_matches("0x")))
    }
    fn show(&self) -> String {
        format!("{:?}", self.0).chars().take(500).collect()
    }
}
impl Node {
    fn methods(&self) -> Methods {
        served::at(&self.door).and_then(|s| s.methods).expect("the node serves")
    }
    async fn call(&self, method: &str, p: Vec<Value>) -> Answer {
        let f = self.methods().call_value(method, p);
        Answer(clock::within(Duration::from_secs(600), async move { f.await.map_err(|e| format!("{} {}", e.code(), e.message())) }).await)
    }
    async fn net(&self, net: usize, method: &str, p: Vec<Value>) -> Answer {
        self.call(&format!("portal_{}{method}", NETS[net]), p).await
    }
    async fn start(&mut self, boot: &[Enr]) -> Result<(), String> {
        let mut args: Vec<String> = ["trin", "--web3-transport", "http", "--no-upnp", "--max-radius", "100", "--mb", "100"].map(String::from).to_vec();
        let port = place::port();
        args.extend(["--web3-http-address".into(), format!("http://127.0.0.1:{port}")]);
        args.extend(["--external-address".into(), format!("127.0.0.1:{}", self.udp), "--discovery-port".into(), self.udp.to_string()]);
        args.extend(["--data-dir".into(), self.dir.display().to_string(), "--portal-subnetworks".into(), FLAGS[..self.nets].join(",")]);
        args.extend(["--bootnodes".into(), if boot.is_empty() { "none".into() } else { boot.iter().map(|e| e.to_base64()).collect::<Vec<_>>().join(",") }]);
        if let Some(k) = self.key {
            args.extend(["--unsafe-private-key".into(), format!("0x{}", hex(&k))]);
        }
        let config = TrinConfig::new_from(&args).map_err(|e| e.to_string())?;
        self.handle = Some(trin::run_trin_from_trin_config(config).await.map_err(|e| e.to_string())?);
        self.door = format!("127.0.0.1:{port}");
        let got = self.call("discv5_nodeInfo", vec![]).await;
        let enr: Option<Enr> = got.ok().and_then(|v| v["enr"].as_str()).and_then(|s| s.parse().ok());
        self.enr = enr.ok_or_else(|| got.show())?;
        Ok(())
    }
}
struct Thing {
    net: usize,
    key: Bytes,
    offered: Bytes,
    kept: Bytes,
    bad: Bytes,
    /// the header it hangs on
    header: Option<Bytes>,
}
fn things_of(r: &mut Rng, list: &[Proven]) -> Vec<Thing> {
    let mut out = vec![];
    for p in list {
        let h = p.block.header.hash();
        let content = header_content(&p.claim);
        let mut c = p.claim.clone();
        c.exec[0][3] ^= 1;
        let bad = header_content(&c);
        for k in [by_hash(&h), by_number(p.block.header.number)] {
            out.push(Thing { net: HISTORY, key: k, offered: content.clone(), kept: content.clone(), bad: bad.clone(), header: None });
        }
        let o = Block::random(r, Era::Shanghai, 4);
        for (k, v, bad) in [(body(&h), p.block.body_ssz(), o.body_ssz()), (receipts(&h), p.block.receipts_ssz(), o.receipts_ssz())] {
            if bad != v {
                out.push(Thing { net: HISTORY, key: k, offered: v.clone(), kept: v, bad, header: Some(by_hash(&h)) });
            }
        }
    }
    let w = tries::World::new(r);
    for _ in 0..8 {
        let (name, form) = tries::some(r, &w);
        let mut bad = form.clone();
        match &mut bad {
            Form::Proof(p) | Form::Both { storage: p, .. } => {
                let n = p.len() - 1;
                let i = r.index(p[n].len());
                p[n][i] ^= 1 << r.below(8);
            }
            Form::CodeProof(c, _) => c.push(r.u8()),
            _ => {}
        }
        if tries::verdict(&name, &form) != tries::Verdict::Proven || tries::verdict(&name, &bad) != tries::Verdict::Wrong || out.iter().any(|t| t.key == name.bytes()) {
            continue;
        }
        let block = r.array();
        out.push(Thing { net: STATE, key: name.bytes(), offered: form.bytes(&block), kept: form.kept().bytes(&block), bad: bad.bytes(&block), header: None });
    }
    out
}
async fn world(ctx: &mut Ctx, r: &mut Rng, root: &std::path::Path) {
    let (w, list) = chain(r, 3);
    let sums = summaries(r, &w);
    let all = things_of(r, &list);
    let mut nodes: Vec<Node> = vec![];
    let mut log: Vec<String> = vec![];
    macro_rules! ok {
        ($c:expr, $sig:expr, $got:expr) => {
            if !ctx.check($c, $sig, || j!({"history": log.iter().rev().take(12).rev().collect::<Vec<_>>(), "got": $got})) {
                return;
            }
        };
    }
    for i in 0..r.range(2, 3) as usize {
        let mut key: [u8; 32] = r.array();
        key[0] = key[0].clamp(1, 0x7f);
        let mut n = Node {
            dir: root.join(format!("{}-{i}", r.u32())),
            nets: if i == 0 { 3 } else { *r.pick(&[1, 2, 3, 3, 3]) },
            key: r.bool().then_some(key),
            udp: 9000 + i as u16,
            door: String::new(),
            enr: crate::peers::Peer::random(r).enr,
            handle: None,
            held: Default::default(),
            met: vec![],
        };
        let boot: Vec<Enr> = nodes.iter().filter(|_| r.bool()).map(|n| n.enr.clone()).collect();
        log.push(format!("start {i} with {} networks", n.nets));
        let got = n.start(&boot).await;
        ok!(got.is_ok(), "node-did-not-start", format!("{got:?}"));
        ok!(n.enr.udp4_socket().is_some_and(|a| a.to_string() == format!("127.0.0.1:{}", n.udp)), "address-not-announced", n.enr.to_base64());
        nodes.push(n);
    }
    clock::pass(Duration::from_secs(120)).await;
    for _ in 0..r.range(15, 45) {
        if ctx.saturated() {
            return;
        }
        let i = r.index(nodes.len());
        let j = (i + 1 + r.index(nodes.len() - 1)) % nodes.len();
        let t = r.pick(&all);
        let peer = json!(nodes[j].enr);
        let both = nodes[i].nets.min(nodes[j].nets);
        let what = *r.pick(&["meet", "meet", "summaries", "store", "store", "offer", "offer", "offer", "bad offer", "find", "find", "get", "get", "get", "restart", "absent"]);
        // rather something the node lacks and one it has met holds
        let reachable: Vec<_> = (all.iter())
            .filter(|t| t.net < nodes[i].nets && !nodes[i].held[t.net].contains_key(&t.key) && nodes[i].met.iter().any(|n| nodes[*n].held[t.net].contains_key(&t.key)))
            .collect();
        let there: Vec<_> = all.iter().filter(|t| t.net < both && nodes[j].held[t.net].contains_key(&t.key)).collect();
        let t = if what == "find" && !there.is_empty() && r.chance(2, 3) { *r.pick(&there) } else { t };
        let t = if what == "get" && !reachable.is_empty() && r.bool() { *r.pick(&reachable) } else { t };
        log.push(format!("{what}: {i} {j} {} {}", NETS[t.net], hex(&t.key[..5])));
        // contents travel: what is there now counts
        for n in 0..nodes.len() {
            for x in all.iter().filter(|x| x.key == t.key || Some(&x.key) == t.header.as_ref()) {
                if x.net < nodes[n].nets {
                    let now = nodes[n].net(x.net, "LocalContent", vec![text(&x.key)]).await;
                    let was = nodes[n].held[x.net].contains_key(&x.key);
                    let anywhere = nodes.iter().any(|n| n.held[x.net].contains_key(&x.key));
                    ok!(now.content().is_some() || !was, "content-lost", now.show());
                    ok!(now.content().is_none() || (anywhere && now.content().as_ref() == Some(&x.kept)), "content-spoiled-or-from-nowhere", now.show());
                    if now.content().is_some() {
                        nodes[n].held[x.net].insert(x.key.clone(), x.kept.clone());
                    }
                }
            }
        }
        ctx.eval(what, &(log.len(), hex(&t.key), hex(&nodes[i].enr.node_id().raw())));
        match what {
            "meet" => {
                for net in 0..both {
                    let got = nodes[i].net(net, "AddEnr", vec![peer.clone()]).await;
                    ok!(got.ok() == Some(&json!(true)), "peer-not-added", got.show());
                    let got = nodes[i].net(net, "Ping", vec![peer.clone()]).await;
                    let radius = nodes[j].net(net, "Radius", vec![]).await;
                    let same = got.ok().and_then(|v| v["payload"]["dataRadius"].as_str()).map(|s| s.to_lowercase()) == radius.ok().and_then(|v| v.as_str()).map(|s| s.to_lowercase());
                    ok!(got.ok().is_some_and(|v| v["enrSeq"] == json!(nodes[j].enr.seq())), "ping-failed", got.show());
                    // a node may introduce itself without telling how far it reaches
                    ok!(got.ok().is_none_or(|v| v["payload"]["dataRadius"].is_null()) || same, "radius-told-wrong", format!("{} {}", got.show(), radius.show()));
                }
                for (a, b) in [(i, j), (j, i)] {
                    if !nodes[a].met.contains(&b) {
                        nodes[a].met.push(b);
                    }
                }
                ctx.event("met");
            }
            "summaries" => {
                let got = nodes[i].net(BEACON, "Store", vec![text(&sums.0), text(&sums.1)]).await;
                ok!(got.ok() == Some(&json!(true)), "content-not-stored", got.show());
                nodes[i].held[BEACON].insert(sums.0.clone(), sums.1.clone());
                ctx.event("summaries");
            }
            "store" if t.net < nodes[i].nets => {
                let got = nodes[i].net(t.net, "Store", vec![text(&t.key), text(&t.offered)]).await;
                ok!(got.ok() == Some(&json!(true)), "content-not-stored", got.show());
                nodes[i].held[t.net].insert(t.key.clone(), t.kept.clone());
                ctx.event("stored");
            }
            "offer" | "bad offer" if t.net < both => {
                let good = what == "offer";
                let had = nodes[j].held[t.net].contains_key(&t.key);
                let sent = if good { &t.offered } else { &t.bad };
                let got = nodes[i].net(t.net, "Offer", vec![peer.clone(), json!([[text(&t.key), text(sent)]])]).await;
                ok!(got.ok().and_then(|v| v.as_str()).is_some_and(|s| s.len() == 4), "offer-not-answered", got.show());
                let accepted = got.ok() == Some(&json!("0x00"));
                ok!(accepted != had, "offer-answer-wrong", got.show());
                clock::pass(Duration::from_secs(90)).await;
                let now = nodes[j].net(t.net, "LocalContent", vec![text(&t.key)]).await;
                // a header is proven by the summaries the node holds, the rest by the header it can get
                let known = |n: usize, k: &Bytes| nodes[n].held[HISTORY].contains_key(k);
                let sums_here = !nodes[j].held[BEACON].is_empty();
                let provable = match (&t.header, t.net) {
                    (_, STATE) => Some(true),
                    (None, _) => Some(sums_here),
                    (Some(h), _) if known(j, h) => Some(true),
                    (Some(h), _) if (0..nodes.len()).any(|n| known(n, h)) => None,
                    _ => Some(false),
                };
                let keeps = now.content().as_ref() == Some(&t.kept);
                if had || (good && provable == Some(true)) {
                    ok!(keeps, "offered-content-not-kept", format!("{} bytes: {}", t.offered.len(), now.show()));
                    ctx.event(if had { "offered again" } else { "kept" });
                } else if !good || provable == Some(false) {
                    ok!(now.content().is_none(), "unproven-content-kept", now.show());
                    ctx.event(if good { "not provable" } else { "bad offer" });
                } else {
                    ok!(keeps || now.content().is_none(), "content-spoiled", now.show());
                }
                if keeps {
                    nodes[j].held[t.net].insert(t.key.clone(), t.kept.clone());
                }
                // what else was fetched to judge it may be kept
                if let (Some(h), HISTORY) = (&t.header, t.net) {
                    let truth = all.iter().find(|x| x.key == *h).map(|x| x.kept.clone());
                    let now = nodes[j].net(HISTORY, "LocalContent", vec![text(h)]).await;
                    ok!(now.content().is_none() || now.content() == truth, "content-spoiled", now.show());
                    if let Some(c) = now.content() {
                        nodes[j].held[HISTORY].insert(h.clone(), c);
                    }
                }
            }
            "find" if t.net < both => {
                let got = nodes[i].net(t.net, "FindContent", vec![peer.clone(), text(&t.key)]).await;
                match nodes[j].held[t.net].get(&t.key) {
                    Some(v) => {
                        let proves = t.net == STATE || t.header.as_ref().map_or(!nodes[i].held[BEACON].is_empty(), |h| nodes[i].held[HISTORY].contains_key(h));
                        ok!(got.content().as_ref() == Some(v) || (!proves && got.content().is_none()), "held-content-not-found", got.show());
                        ctx.event(if proves { "found" } else { "found unproven" });
                    }
                    None => ok!(got.ok().is_some_and(|v| v.get("enrs").is_some()), "unknown-content-answer-wrong", got.show()),
                }
            }
            "get" if t.net < nodes[i].nets => {
                let got = nodes[i].net(t.net, "GetContent", vec![text(&t.key)]).await;
                let here = nodes[i].held[t.net].contains_key(&t.key);
                let there = nodes[i].met.iter().any(|n| nodes[*n].held[t.net].contains_key(&t.key));
                let anywhere = nodes.iter().any(|n| n.held[t.net].contains_key(&t.key));
                let sums_here = !nodes[i].held[BEACON].is_empty();
                let provable = t.net == STATE || sums_here && t.header.as_ref().is_none_or(|h| nodes[i].held[HISTORY].contains_key(h));
                if here || (there && provable) {
                    ok!(got.content().as_ref() == Some(&t.kept), "content-not-got", got.show());
                    ctx.event(if here { "got here" } else { "got there" });
                } else if !anywhere {
                    ok!(got.0.as_ref().is_some_and(|x| x.as_ref().is_err_and(|e| e.starts_with("-39001"))), "absent-content-answer-wrong", got.show());
                    ctx.event("absent");
                } else {
                    ok!(got.content().is_none() || got.content().as_ref() == Some(&t.kept), "content-spoiled", got.show());
                }
                // what was fetched along the way may be kept
                clock::pass(Duration::from_secs(60)).await;
                for n in 0..nodes.len() {
                    let nets = nodes[n].nets;
                    for x in all.iter().filter(|x| x.net < nets && (x.key == t.key || Some(&x.key) == t.header.as_ref())) {
                        let now = nodes[n].net(x.net, "LocalContent", vec![text(&x.key)]).await.content();
                        ok!(now.is_none() || now.as_ref() == Some(&x.kept), "content-spoiled", format!("{now:?}"));
                        if now.is_some() {
                            nodes[n].held[x.net].insert(x.key.clone(), x.kept.clone());
                        }
                    }
                }
            }
            "absent" => {
                // a network the other one does not take part in
                if both < nodes[i].nets {
                    let got = nodes[i].net(both, "Ping", vec![peer.clone()]).await;
                    ok!(matches!(got.0, Some(Err(_))), "absent-network-answered", got.show());
                    ctx.event("absent network");
                }
                let got = nodes[i].call("web3_clientVersion", vec![]).await;
                ok!(got.ok().is_some(), "node-does-not-answer", got.show());
            }
            "restart" if r.chance(1, 2) => {
                // what is written now is written; then the node is gone
                let (id, held) = (nodes[i].enr.node_id(), nodes[i].held.clone());
                drop(nodes[i].handle.take());
                let got = nodes[i].start(&[]).await;
                ok!(got.is_ok(), "node-did-not-start-again", format!("{got:?}"));
                ok!(nodes[i].enr.node_id() == id, "identity-lost", nodes[i].enr.to_base64());
                nodes[i].met.clear();
                for n in nodes.iter_mut() {
                    n.met.retain(|x| *x != i);
                }
                clock::pass(Duration::from_secs(120)).await;
                for net in HISTORY..nodes[i].nets {
                    for (k, v) in &held[net] {
                        let now = nodes[i].net(net, "LocalContent", vec![text(k)]).await;
                        ok!(now.content().as_ref() == Some(v), "content-lost-by-restart", now.show());
                    }
                }
                let now = nodes[i].net(BEACON, "LocalContent", vec![text(&sums.0)]).await;
                if now.content().is_none() {
                    nodes[i].held[BEACON].clear();
                } else {
                    ok!(now.content().as_ref() == Some(&sums.1), "content-spoiled", now.show());
                }
                ctx.event("restarted");
            }
            _ => {}
        }
    }
}
pub fn nodes(ctx: &mut Ctx) {
    ctx.rule("complete nodes keep and hand out exactly what they were given or could prove, agree with each other about it, and keep identity and content over a restart");
    ctx.level("random histories of calls to complete nodes that meet each other");
    let mut rng = ctx.rng.fork("whole");
    let root = tempfile::tempdir().expect("scratch directory");
    for _ in 0..ctx.n(45, 500) {
        if ctx.saturated() {
            break;
        }
        let r = &mut rng;
        discv5::net::reset();
        discv5::seeded::reseed(r.u64());
        utp_rs::socket::reseed(r.u64());
        clock::simulate(world(ctx, r, root.path()));
    }
    for k in ["met", "summaries", "stored", "kept", "not provable", "bad offer", "offered again", "found", "got here", "absent", "absent network", "restarted"] {
        ctx.require(k, 2);
    }
    ctx.require("got there", 1);
}
