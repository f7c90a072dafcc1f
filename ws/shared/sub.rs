//! A running subnetwork driven through its JSON-RPC channel among scripted peers. Included by the
//! checks of each subnetwork, next to the simulated network of the network checks.
use std::{collections::BTreeMap, net::SocketAddr, path::PathBuf, sync::Arc, time::Duration};

use discv5::enr::NodeId;
use ethportal_api::{
    types::{
        distance::Distance,
        enr::Enr,
        network::Subnetwork,
        ping_extensions::{decode::PingExtension, extension_types::PingExtensionType, extensions::{type_1::BasicRadius, type_2::HistoryRadius}},
        portal_wire::{Content, FindContent, Nodes, Offer, Pong, Request, Response},
    },
    ContentValue, OverlayContentKey,
};
use portalnet::{
    config::PortalnetConfig,
    discovery::{Discovery, Discv5UdpSocket, UtpPeer},
    events::OverlayRequest,
};
use tokio::sync::mpsc;
use trin_storage::{config::StorageCapacityConfig, PortalStorageConfig, PortalStorageConfigFactory};
use utp_rs::socket::UtpSocket;
use vcommon::{hex, json, Ctx, Rng, Value};

use crate::{
    clock,
    peers::{log2, xor, Peer},
    world::{codes, frame, message, polite, uncode, Act, Scripted, Versions, UTP},
};

pub struct Dir(pub PathBuf);
impl Dir {
    pub fn new() -> Self {
        use std::sync::atomic::{AtomicU64, Ordering};
        static N: AtomicU64 = AtomicU64::new(0);
        let p = std::env::temp_dir().join(format!("verif-sub-{}-{}", std::process::id(), N.fetch_add(1, Ordering::SeqCst)));
        std::fs::create_dir_all(&p).expect("scratch directory");
        Self(p)
    }
}
impl Drop for Dir {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}

/// The calls every subnetwork offers.
pub enum Call<K, V> {
    RoutingTableInfo,
    Ping(Enr, Option<PingExtensionType>, Option<PingExtension>),
    AddEnr(Enr),
    DeleteEnr(NodeId),
    GetEnr(NodeId),
    LookupEnr(NodeId),
    FindNodes(Enr, Vec<u16>),
    RecursiveFindNodes(NodeId),
    DataRadius,
    LocalContent(K),
    FindContent(Enr, K),
    GetContent(K),
    TraceGetContent(K),
    Store(K, V),
    Offer(Enr, Vec<(K, V)>),
    TraceOffer(Enr, K, V),
    PutContent(K, V),
    Paginate(u64, u64),
}
#[macro_export]
macro_rules! endpoint {
    ($e:ident) => {
        |c| match c {
            $crate::sub::Call::RoutingTableInfo => $e::RoutingTableInfo,
            $crate::sub::Call::Ping(a, b, c) => $e::Ping(a, b, c),
            $crate::sub::Call::AddEnr(a) => $e::AddEnr(a),
            $crate::sub::Call::DeleteEnr(a) => $e::DeleteEnr(a),
            $crate::sub::Call::GetEnr(a) => $e::GetEnr(a),
            $crate::sub::Call::LookupEnr(a) => $e::LookupEnr(a),
            $crate::sub::Call::FindNodes(a, b) => $e::FindNodes(a, b),
            $crate::sub::Call::RecursiveFindNodes(a) => $e::RecursiveFindNodes(a),
            $crate::sub::Call::DataRadius => $e::DataRadius,
            $crate::sub::Call::LocalContent(a) => $e::LocalContent(a),
            $crate::sub::Call::FindContent(a, b) => $e::FindContent(a, b),
            $crate::sub::Call::GetContent(a) => $e::GetContent(a),
            $crate::sub::Call::TraceGetContent(a) => $e::TraceGetContent(a),
            $crate::sub::Call::Store(a, b) => $e::Store(a, b),
            $crate::sub::Call::Offer(a, b) => $e::Offer(a, b),
            $crate::sub::Call::TraceOffer(a, b, c) => $e::TraceOffer(a, b, c),
            $crate::sub::Call::PutContent(a, b) => $e::PutContent(a, b),
            $crate::sub::Call::Paginate(a, b) => $e::PaginateLocalContentKeys(a, b),
        }
    };
}

/// The parts every subnetwork is started with.
pub struct Ground {
    pub discovery: Arc<Discovery>,
    pub utp: Arc<UtpSocket<UtpPeer>>,
    pub config: PortalnetConfig,
    pub dir: Arc<Dir>,
    talk: Option<mpsc::Receiver<discv5::TalkRequest>>,
    utp_tx: mpsc::UnboundedSender<discv5::TalkRequest>,
}
impl Ground {
    pub async fn new(r: &mut Rng) -> Self {
        let mut secret: [u8; 32] = r.array();
        secret[0] = secret[0].max(1);
        Self::with(secret, Arc::new(Dir::new())).await
    }
    /// The same node with the same files.
    #[allow(dead_code)]
    pub async fn again(config: &PortalnetConfig, dir: Arc<Dir>) -> Self {
        Self::with(config.private_key.0, dir).await
    }
    async fn with(secret: [u8; 32], dir: Arc<Dir>) -> Self {
        let config = PortalnetConfig {
            external_addr: Some(SocketAddr::from(([10, 1, 2, 3], 9000))),
            private_key: secret.into(),
            listen_port: 9000,
            bootnodes: vec![],
            no_upnp: true,
            ..Default::default()
        };
        let mut discovery = Discovery::new(config.clone()).expect("discovery");
        let talk = discovery.start().await.expect("start");
        let discovery = Arc::new(discovery);
        let (utp_tx, utp_rx) = mpsc::unbounded_channel();
        let utp = Arc::new(UtpSocket::with_socket(Discv5UdpSocket::new(discovery.clone(), utp_rx)));
        Self { discovery, utp, config, dir, talk: Some(talk), utp_tx }
    }
    pub fn enr(&self) -> Enr {
        self.discovery.local_enr()
    }
    pub fn storage(&self, s: Subnetwork, mb: u32) -> PortalStorageConfig {
        let c = StorageCapacityConfig::Specific { beacon_mb: Some(mb), legacy_history_mb: Some(mb), state_mb: Some(mb) };
        PortalStorageConfigFactory::new(c, self.enr().node_id(), self.dir.0.clone()).and_then(|f| f.create(&s, Distance::MAX)).expect("storage")
    }
    /// Hands incoming requests to the subnetwork.
    pub fn route(&mut self, proto: &'static [u8], to: mpsc::UnboundedSender<OverlayRequest>) {
        let mut talk = self.talk.take().expect("routed once");
        let utp = self.utp_tx.clone();
        tokio::spawn(async move {
            while let Some(req) = talk.recv().await {
                if req.protocol() == UTP {
                    let _ = utp.send(req);
                } else if req.protocol() == proto {
                    let _ = to.send(OverlayRequest::Talk(req));
                }
            }
        });
    }
}

/// Some content and the forms it takes.
#[derive(Clone, Debug)]
pub struct Piece<K> {
    pub key: K,
    /// as offered, with everything needed to accept it
    pub offered: Vec<u8>,
    /// as kept and handed out
    pub kept: Vec<u8>,
    /// readable for this key but not right for it
    pub bad: Vec<u8>,
    /// what has to be known first to judge it
    pub needs: Vec<(K, Vec<u8>)>,
}

pub type Reply = mpsc::UnboundedSender<Result<Value, String>>;
pub struct Sub<K, V> {
    pub ground: Ground,
    pub proto: &'static [u8],
    pub send: Box<dyn Fn(Call<K, V>, Reply)>,
    /// retrieved content is kept
    pub keeps_retrieved: bool,
    /// the store itself refuses content that does not match its key
    pub guarded: bool,
    pub radius: &'static str,
    /// how peers tell their interest
    pub kind: PingExtensionType,
    /// what is kept can be listed
    pub pages: bool,
    /// content belongs to those near it, instead of to everybody
    pub by_radius: bool,
}
fn interest(kind: PingExtensionType, radius: Distance) -> PingExtension {
    match kind {
        PingExtensionType::HistoryRadius => PingExtension::HistoryRadius(HistoryRadius { data_radius: radius, ephemeral_header_count: 0 }),
        _ => PingExtension::BasicRadius(BasicRadius { data_radius: radius }),
    }
}
fn pong(kind: PingExtensionType, radius: Distance, enr_seq: u64) -> Act {
    let payload = match interest(kind, radius) {
        PingExtension::HistoryRadius(h) => h.into(),
        PingExtension::BasicRadius(b) => b.into(),
        _ => unreachable!(),
    };
    Act::Reply(Response::Pong(Pong { enr_seq, payload_type: kind, payload }))
}
fn manners(kind: PingExtensionType, radius: Distance, q: &Request) -> Act {
    match q {
        Request::Ping(_) => pong(kind, radius, 1),
        _ => polite(radius, 1, q),
    }
}
impl<K: OverlayContentKey + Clone + Send + 'static, V: ContentValue<TContentKey = K> + Clone> Sub<K, V> {
    pub async fn call(&self, c: Call<K, V>) -> Option<Result<Value, String>> {
        let (tx, mut rx) = mpsc::unbounded_channel();
        (self.send)(c, tx);
        clock::within(Duration::from_secs(300), async move { rx.recv().await }).await?
    }
    pub async fn peer(&self, r: &mut Rng) -> Scripted {
        Scripted::near(Peer::random(r), self.ground.enr(), self.proto, Versions::List(vec![0, 1])).await
    }
}
fn value<V: ContentValue>(k: &V::TContentKey, b: &[u8]) -> V {
    V::decode(k, b).unwrap_or_else(|e| panic!("harness content does not decode: {e}"))
}
fn text(b: &[u8]) -> Value {
    json!(format!("0x{}", hex(b)))
}
fn enrs(v: &[Enr]) -> Vec<ethportal_api::types::enr::SszEnr> {
    v.iter().cloned().map(ethportal_api::types::enr::SszEnr).collect()
}

/// Drives one world for a while.
pub async fn drive<K, V>(ctx: &mut Ctx, r: &mut Rng, sub: &Sub<K, V>, mut make: impl FnMut(&mut Rng) -> Piece<K>)
where
    K: OverlayContentKey + Clone + Send + 'static,
    V: ContentValue<TContentKey = K> + Clone,
{
    let me = sub.ground.enr();
    let kind = sub.kind;
    let mut peers: Vec<Scripted> = vec![];
    for _ in 0..r.range(2, 5) {
        peers.push(sub.peer(r).await);
    }
    // how far each of them is interested in content
    let reach: Vec<Distance> = peers
        .iter()
        .map(|_| match r.below(4) {
            0 => Distance::from(alloy::primitives::U256::from_be_slice(&r.bytes(32))),
            1 => Distance::ZERO,
            _ => Distance::MAX,
        })
        .collect();
    for (p, d) in peers.iter().zip(reach.clone()) {
        p.think(move |q| manners(kind, d, q));
    }
    let mut listed = vec![false; peers.len()];
    let pieces: Vec<Piece<K>> = (0..r.range(3, 8)).map(|_| make(r)).collect();
    let raw = |p: &Piece<K>| p.key.to_bytes().to_vec();
    let mut kept: BTreeMap<Vec<u8>, Vec<u8>> = BTreeMap::new();
    let mut log: Vec<String> = vec![];
    macro_rules! call {
        ($name:expr, $c:expr) => {{
            log.push($name.to_string());
            ctx.eval($name, &(log.len(), hex(&me.node_id().raw())));
            match sub.call($c).await {
                Some(x) => x,
                None => {
                    ctx.violation("call-not-answered", j!({"history": log}));
                    return;
                }
            }
        }};
    }
    macro_rules! ok {
        ($ok:expr, $sig:expr, $got:expr) => {
            if !ctx.check($ok, $sig, || j!({"history": log.iter().rev().take(8).rev().collect::<Vec<_>>(), "got": format!("{:?}", $got).chars().rev().take(700).collect::<Vec<_>>().into_iter().rev().collect::<String>()})) {
                return;
            }
        };
    }
    // the node learns that the peers it lists are there and how far they are interested
    macro_rules! meet {
        () => {
            for i in (0..peers.len()).filter(|i| listed[*i]) {
                let got = call!("ping", Call::Ping(peers[i].enr.clone(), None, None));
                ok!(got.is_ok(), "ping-failed", got);
            }
        };
    }
    for (i, p) in peers.iter().enumerate() {
        if r.chance(5, 6) {
            let got = call!("add", Call::AddEnr(p.enr.clone()));
            ok!(got == Ok(json!(true)), "peer-not-added", got);
            listed[i] = true;
        }
    }
    for (key, v) in pieces.iter().flat_map(|p| &p.needs) {
        let got = call!("store", Call::Store(key.clone(), value(key, v)));
        ok!(got == Ok(json!(true)), "content-not-stored", got);
        kept.insert(key.to_bytes().to_vec(), v.clone());
    }
    for _ in 0..r.range(12, 40) {
        if ctx.saturated() {
            return;
        }
        for (i, p) in peers.iter().enumerate() {
            let d = reach[i];
            p.think(move |q| manners(kind, d, q));
            // whoever talks to the node or answers it is taken into its table
            listed[i] = present(sub, p).await;
            p.log.lock().clear();
            p.got.lock().clear();
        }
        let w = r.index(peers.len());
        let piece = r.pick(&pieces).clone();
        let k = raw(&piece);
        let far = reach[w];
        match r.below(19) {
            0 => {
                let got = call!("radius", Call::DataRadius);
                ok!(got == Ok(json!(sub.radius)), "radius-wrong", got);
            }
            1 => {
                if listed[w] || r.bool() {
                    let got = call!("delete", Call::DeleteEnr(peers[w].enr.node_id()));
                    ok!(got == Ok(json!(listed[w])), "deletion-answer-wrong", got);
                    ok!(!present(sub, &peers[w]).await, "deleted-peer-present", got);
                } else {
                    let got = call!("add", Call::AddEnr(peers[w].enr.clone()));
                    ok!(got == Ok(json!(true)) && present(sub, &peers[w]).await, "peer-not-added", got);
                }
            }
            2 => {
                let got = call!("get enr", Call::GetEnr(peers[w].enr.node_id()));
                ok!(!listed[w] || got.as_ref().ok().and_then(|v| v.as_str()).and_then(|s| s.parse::<Enr>().ok()).is_some_and(|e| e.node_id() == peers[w].enr.node_id()), "record-answer-wrong", got);
                let got = call!("get own enr", Call::GetEnr(me.node_id()));
                ok!(got.as_ref().ok().and_then(|v| v.as_str()) == Some(&me.to_base64()), "own-record-wrong", got);
            }
            3 => {
                // the peer gives a newer record of itself and somebody else's
                let newer = crate::world::versioned(&peers[w].peer, 7, &Versions::List(vec![0, 1]));
                let other = peers[(w + 1) % peers.len()].enr.clone();
                let list = enrs(&[newer.clone(), other]);
                peers[w].think(move |q| match q {
                    Request::FindNodes(f) if f.distances == [0] => Act::Reply(Response::Nodes(Nodes { total: 1, enrs: list.clone() })),
                    _ => manners(kind, far, q),
                });
                if listed[w] {
                    let got = call!("lookup enr", Call::LookupEnr(peers[w].enr.node_id()));
                    ok!(got == Ok(json!(newer)), "newer-record-not-found", got);
                }
            }
            4 => {
                // others are told of only at the distances asked for
                let mut d: Vec<u16> = peers.iter().map(|p| log2(&p.id(), &peers[w].id())).filter(|d| *d > 0).collect();
                d.sort();
                d.dedup();
                let found: Vec<Enr> = peers.iter().enumerate().filter(|(i, _)| *i != w).map(|(_, p)| p.enr.clone()).collect();
                let list = enrs(&found);
                let dd = d.clone();
                peers[w].think(move |q| match q {
                    Request::FindNodes(f) if f.distances == dd => Act::Reply(Response::Nodes(Nodes { total: 1, enrs: list.clone() })),
                    _ => manners(kind, far, q),
                });
                let got = call!("find nodes", Call::FindNodes(peers[w].enr.clone(), d));
                ok!(got == Ok(json!(found)), "nodes-not-reported", got);
            }
            5 => {
                let seq = r.below(1000);
                peers[w].think(move |_| pong(kind, far, seq));
                let own = Distance::from(alloy::primitives::U256::from_be_slice(&r.bytes(32)));
                let (t, p) = *r.pick(&[(true, true), (true, false), (false, false), (false, true)]);
                let got = call!(
                    "ping",
                    Call::Ping(peers[w].enr.clone(), t.then_some(kind), p.then(|| interest(kind, own)))
                );
                if p && !t {
                    ok!(got.is_err() && peers[w].asked() == 0, "ping-without-type-sent", got);
                } else {
                    let asked = peers[w].log.lock().first().map(|l| l.1.clone());
                    let fits = matches!(&asked, Some(Request::Ping(q)) if !(t && p) || (q.payload_type == kind && PingExtension::decode_ssz(q.payload_type, q.payload.clone()).is_ok_and(|x| x == interest(kind, own))));
                    ok!(fits, "ping-differs", asked);
                    ok!(
                        got.as_ref().is_ok_and(|v| v["enrSeq"] == json!(seq) && v["payloadType"] == json!(u16::from(kind)) && v["payload"]["dataRadius"] == json!(format!("{:#x}", *far))),
                        "pong-not-reported",
                        got
                    );
                }
            }
            6 => {
                let got = call!("routing table", Call::RoutingTableInfo);
                let all = got.as_ref().ok().map(|v| v.to_string()).unwrap_or_default();
                for (i, p) in peers.iter().enumerate() {
                    let there = all.contains(&hex(&p.id()));
                    ok!(there == listed[i], "routing-table-wrong", format!("peer {i} listed {there}"));
                }
                ok!(all.contains(&hex(&me.node_id().raw())), "routing-table-without-own-id", all);
            }
            7 => {
                let got = call!("local", Call::LocalContent(piece.key.clone()));
                match kept.get(&k) {
                    Some(v) => ok!(got == Ok(text(v)), "local-content-wrong", got),
                    None => ok!(got.is_err(), "local-content-made-up", got),
                }
                ctx.event(if kept.contains_key(&k) { "local-present" } else { "local-absent" });
            }
            8 | 9 => {
                let got = call!("store", Call::Store(piece.key.clone(), value(&piece.key, &piece.offered)));
                ok!(got == Ok(json!(true)), "content-not-stored", got);
                kept.insert(k, piece.kept.clone());
                ctx.event("stored");
            }
            10 => {
                if sub.guarded && piece.bad != piece.offered {
                    let got = call!("store bad", Call::Store(piece.key.clone(), value(&piece.key, &piece.bad)));
                    ok!(got.is_err(), "bad-content-stored", got);
                    ctx.event("bad-store-refused");
                }
            }
            11 => {
                let form = r.below(3);
                let served = piece.kept.clone();
                let (s, list) = (served.clone(), enrs(&[peers[(w + 1) % peers.len()].enr.clone()]));
                let key = k.clone();
                peers[w].think(move |q| match q {
                    Request::FindContent(f) if f.content_key.to_vec() == key => match form {
                        0 if s.len() < 1000 => Act::Reply(Response::Content(Content::Content(s.clone().into()))),
                        0 | 1 => Act::Serve(frame(&[s.clone()])),
                        _ => Act::Reply(Response::Content(Content::Enrs(list.clone()))),
                    },
                    _ => manners(kind, far, q),
                });
                let got = call!("find content", Call::FindContent(peers[w].enr.clone(), piece.key.clone()));
                let want = if form == 2 {
                    json!({"enrs": [peers[(w + 1) % peers.len()].enr]})
                } else {
                    json!({"content": format!("0x{}", hex(&served)), "utpTransfer": form == 1 || served.len() >= 1000})
                };
                ok!(got == Ok(want.clone()), "found-content-wrong", format!("{got:?} instead of {want}"));
                ctx.event("found-at-peer");
            }
            12 | 13 => {
                meet!();
                let id = piece.key.content_id();
                let within = |i: usize| !sub.by_radius || Distance::from(alloy::primitives::U256::from_be_bytes(xor(&peers[i].id(), &id))) <= reach[i];
                // some have it, some have something else, some have nothing
                let has: Vec<u64> = peers.iter().map(|_| r.below(3)).collect();
                for (i, p) in peers.iter().enumerate() {
                    let far = reach[i];
                    let (good, bad, key, h) = (piece.kept.clone(), piece.bad.clone(), k.clone(), has[i]);
                    p.think(move |q| match q {
                        Request::FindContent(f) if f.content_key.to_vec() == key && h < 2 => {
                            let v = if h == 0 { &good } else { &bad };
                            if v.len() < 1000 {
                                Act::Reply(Response::Content(Content::Content(v.clone().into())))
                            } else {
                                Act::Serve(frame(&[v.clone()]))
                            }
                        }
                        _ => manners(kind, far, q),
                    });
                }
                let traced = r.bool();
                let there = kept.contains_key(&k);
                let findable = (0..peers.len()).any(|i| listed[i] && has[i] == 0);
                let c = if traced { Call::TraceGetContent(piece.key.clone()) } else { Call::GetContent(piece.key.clone()) };
                let got = call!("get content", c);
                match (there, findable) {
                    (true, _) => {
                        ctx.event("get-local");
                        ok!(got.as_ref().is_ok_and(|v| v["content"] == text(&kept[&k]) && v["utpTransfer"] == json!(false) && v["trace"].is_object() == traced), "stored-content-not-returned", got);
                        ok!(peers.iter().all(|p| p.log.lock().iter().all(|l| !matches!(l.1, Request::FindContent(_)))), "asked-peers-for-stored-content", got);
                    }
                    (_, true) => {
                        ctx.event("get-remote");
                        ok!(got.as_ref().is_ok_and(|v| v["content"] == text(&piece.kept) && v["utpTransfer"] == json!(piece.kept.len() >= 1000) && v["trace"].is_object() == traced), "content-not-found", format!("{got:?} has {has:?} listed {listed:?} length {} bad {}", piece.kept.len(), piece.bad.len()));
                        if traced {
                            let from = got.as_ref().ok().and_then(|v| v["trace"]["receivedFrom"].as_str().map(String::from)).unwrap_or_default();
                            ok!((0..peers.len()).any(|i| has[i] == 0 && from == format!("0x{}", hex(&peers[i].id()))), "trace-names-wrong-source", from);
                        }
                    }
                    _ => {
                        ctx.event("get-nowhere");
                        ok!(got.is_err(), "content-made-up", got);
                    }
                }
                clock::pass(Duration::from_millis(500)).await;
                // content found is passed on only as something proven and kept, to those interested in it
                for (i, p) in peers.iter().enumerate() {
                    let asked = p.log.lock().iter().any(|l| matches!(&l.1, Request::FindContent(f) if f.content_key.to_vec() == k));
                    let offers = p.log.lock().iter().filter(|l| matches!(l.1, Request::Offer(_))).count();
                    let right = p.log.lock().iter().all(|l| !matches!(&l.1, Request::Offer(o) if o.content_keys.len() != 1 || o.content_keys[0].to_vec() != k));
                    ok!(right && (offers == 0 || (sub.keeps_retrieved && !there && findable && listed[i] && within(i) && offers <= 1 + asked as usize)), "found-content-passed-on", format!("peer {i}: {offers} offers, asked {asked}, has {has:?}"));
                    if offers > 0 {
                        ctx.event("passed-on");
                    }
                }
                if !there && findable && sub.keeps_retrieved {
                    kept.insert(k.clone(), piece.kept.clone());
                }
                let after = call!("local", Call::LocalContent(piece.key.clone()));
                match kept.get(&k) {
                    Some(v) => ok!(after == Ok(text(v)), "content-after-lookup-wrong", after),
                    None => ok!(after.is_err(), "unproven-content-kept", after),
                }
            }
            14 => {
                let mut items: Vec<Piece<K>> = pieces.iter().filter(|_| r.bool()).cloned().collect();
                if items.is_empty() {
                    items.push(piece.clone());
                }
                let answer: Vec<u8> = items.iter().map(|_| *r.pick(&[0u8, 0, 1, 2, 3])).collect();
                let a = answer.clone();
                peers[w].think(move |q| match q {
                    Request::Offer(_) if a.contains(&0) => Act::Accept(codes(1, &a)),
                    Request::Offer(_) => Act::Reply(Response::Accept(ethportal_api::types::portal_wire::Accept { connection_id: 0, content_keys: codes(1, &a).into() })),
                    _ => manners(kind, far, q),
                });
                let got = call!("offer", Call::Offer(peers[w].enr.clone(), items.iter().map(|p| (p.key.clone(), value(&p.key, &p.offered))).collect()));
                ok!(got == Ok(text(&answer)), "accept-codes-wrong", got);
                clock::pass(Duration::from_secs(2)).await;
                let sent = peers[w].log.lock().iter().find_map(|l| if let Request::Offer(o) = &l.1 { Some(o.content_keys.iter().map(|k| k.to_vec()).collect::<Vec<_>>()) } else { None });
                ok!(sent == Some(items.iter().map(raw).collect()), "offered-keys-wrong", sent);
                let want: Vec<Vec<u8>> = items.iter().zip(&answer).filter(|(_, c)| **c == 0).map(|(p, _)| p.offered.clone()).collect();
                let arrived = peers[w].got.lock().clone();
                ok!(if want.is_empty() { arrived.is_empty() } else { arrived == vec![frame(&want)] }, "offered-content-wrong", arrived.len());
                ctx.event("offered");
            }
            15 => {
                let c = *r.pick(&[0u8, 0, 1, 2]);
                peers[w].think(move |q| match q {
                    Request::Offer(_) if c == 0 => Act::Accept(codes(1, &[0])),
                    Request::Offer(_) => Act::Reply(Response::Accept(ethportal_api::types::portal_wire::Accept { connection_id: 0, content_keys: codes(1, &[c]).into() })),
                    _ => manners(kind, far, q),
                });
                let got = call!("trace offer", Call::TraceOffer(peers[w].enr.clone(), piece.key.clone(), value(&piece.key, &piece.offered)));
                ok!(got.as_ref().is_ok_and(|v| v.get("Success").is_some()), "offer-trace-wrong", got);
                let arrived = peers[w].got.lock().clone();
                ok!(if c == 0 { arrived == vec![frame(&[piece.offered.clone()])] } else { arrived.is_empty() }, "traced-offer-content-wrong", arrived.len());
                ctx.event("offer-traced");
            }
            16 => {
                let there = kept.contains_key(&k);
                let spoilt = sub.guarded && !there && r.chance(1, 4);
                let form = if spoilt { &piece.bad } else { &piece.offered };
                meet!();
                let id = piece.key.content_id();
                let asked: Vec<bool> = (0..peers.len()).map(|i| listed[i] && (!sub.by_radius || Distance::from(alloy::primitives::U256::from_be_bytes(xor(&peers[i].id(), &id))) <= reach[i])).collect();
                let got = call!("put content", Call::PutContent(piece.key.clone(), value(&piece.key, form)));
                clock::pass(Duration::from_secs(2)).await;
                let now = asked.iter().filter(|l| **l).count();
                ok!(got == Ok(json!({"peerCount": now, "storedLocally": !there && !spoilt})), "put-answer-wrong", format!("{got:?} with {now} peers, stored before: {there}, spoilt: {spoilt}"));
                if !there && !spoilt {
                    kept.insert(k.clone(), piece.kept.clone());
                }
                for (i, p) in peers.iter().enumerate() {
                    let n = p.log.lock().iter().filter(|l| matches!(&l.1, Request::Offer(o) if o.content_keys.len() == 1 && o.content_keys[0].to_vec() == k)).count();
                    ok!(n == asked[i] as usize, "put-content-not-spread", format!("peer {i} interested {} offered {n} times", asked[i]));
                }
                ctx.event(if spoilt { "put-bad" } else { "put" });
            }
            17 if !sub.pages => {
                let got = call!("paginate", Call::Paginate(0, 10));
                ok!(got.is_err(), "listing-answered", got);
            }
            17 => {
                let size = r.range(1, 4);
                let mut seen = vec![];
                let mut at = 0;
                loop {
                    let got = call!("paginate", Call::Paginate(at, size));
                    let Ok(v) = got else {
                        ok!(false, "paging-failed", got);
                        return;
                    };
                    ok!(v["totalEntries"] == json!(kept.len()), "total-wrong", v);
                    let page: Vec<String> = v["contentKeys"].as_array().map(|a| a.iter().filter_map(|x| x.as_str().map(String::from)).collect()).unwrap_or_default();
                    ok!(page.len() as u64 == size.min((kept.len() as u64).saturating_sub(at)), "page-size-wrong", v);
                    if page.is_empty() {
                        break;
                    }
                    at += page.len() as u64;
                    seen.extend(page);
                }
                seen.sort();
                let want: Vec<String> = kept.keys().map(|k| format!("0x{}", hex(k))).collect();
                ok!(seen == want, "listed-keys-wrong", seen);
                ctx.event("listed");
            }
            _ => {
                // a peer offers something to the node, or asks for it
                log.push("incoming".into());
                ctx.eval("incoming", &(log.len(), hex(&me.node_id().raw())));
                if r.bool() && kept.contains_key(&k) {
                    let ans = peers[w].ask(Request::FindContent(FindContent { content_key: piece.key.to_bytes() })).await;
                    let got = match ans.as_deref().and_then(message) {
                        Some(Response::Content(Content::Content(c))) => Some(c.to_vec()),
                        Some(Response::Content(Content::ConnectionId(id))) => peers[w].read_stream(u16::from_be(id)).await.flatten().and_then(|b| crate::world::unframe(&b)).and_then(|mut v| v.pop()),
                        _ => None,
                    };
                    ok!(got.as_ref() == kept.get(&k), "served-content-wrong", got.map(|g| hex(&g)));
                    ctx.event("served");
                } else {
                    let ans = peers[w].ask(Request::Offer(Offer { content_keys: vec![piece.key.to_bytes()] })).await;
                    let Some(Response::Accept(a)) = ans.as_deref().and_then(message) else {
                        ok!(false, "offer-not-answered", ans);
                        return;
                    };
                    let code = uncode(1, &a.content_keys);
                    let there = kept.contains_key(&k);
                    ok!(code == Some(vec![if there { 2 } else { 0 }]), "accept-code-wrong", code);
                    if !there {
                        let pick = r.below(3);
                        let data = match pick {
                            0 => piece.bad.clone(),
                            1 if !sub.keeps_retrieved => piece.kept.clone(),
                            _ => piece.offered.clone(),
                        };
                        let good = data == piece.offered;
                        let _ = peers[w].send_stream(u16::from_be(a.connection_id), frame(&[data]), true).await;
                        clock::pass(Duration::from_secs(3)).await;
                        if good {
                            kept.insert(k.clone(), piece.kept.clone());
                        }
                        let after = call!("local", Call::LocalContent(piece.key.clone()));
                        match kept.get(&k) {
                            Some(v) => ok!(after == Ok(text(v)), "received-content-wrong", after),
                            None => ok!(after.is_err(), "bad-content-kept", after),
                        }
                        ctx.event(if good { "received" } else { "received-bad" });
                        // a failed transfer leaves its mark for a while
                        clock::pass(Duration::from_secs(if good { 1 } else { 130 })).await;
                    }
                }
            }
        }
    }
    ctx.sample("world", || json!(log));
}
/// Whether the node lists a peer, by its own account.
async fn present<K, V>(sub: &Sub<K, V>, p: &Scripted) -> bool
where
    K: OverlayContentKey + Clone + Send + 'static,
    V: ContentValue<TContentKey = K> + Clone,
{
    matches!(sub.call(Call::GetEnr(p.enr.node_id())).await, Some(Ok(_)))
}
pub const EVENTS: &[(&str, u64)] = &[
    ("local-present", 5), ("local-absent", 5), ("stored", 10), ("found-at-peer", 10), ("get-local", 5), ("get-remote", 5), ("get-nowhere", 3), ("offered", 10),
    ("offer-traced", 10), ("put", 5), ("served", 5), ("received", 5), ("received-bad", 3),
];
