//! A node under test among scripted peers, on a simulated network and clock.
use std::{
    collections::BTreeMap,
    fmt,
    io,
    net::SocketAddr,
    sync::{
        atomic::{AtomicUsize, Ordering},
        Arc,
    },
    time::Duration,
};

use async_trait::async_trait;
use discv5::{
    enr::NodeId,
    net::{ConfigBuilder, Discv5, Event, ListenConfig},
    TalkRequest,
};
use ethportal_api::{
    types::{
        content_key::error::ContentKeyError,
        distance::{Distance, Metric, XorMetric},
        enr::Enr,
        network::Subnetwork,
        portal_wire::{Message, Request, Response},
    },
    OverlayContentKey, RawContentKey, RawContentValue,
};
use parking_lot::Mutex;
use portalnet::{
    config::PortalnetConfig,
    discovery::{Discovery, Discv5UdpSocket},
    overlay::{config::OverlayConfig, ping_extensions::MockPingExtension, protocol::OverlayProtocol},
};
use tokio::sync::mpsc;
use trin_storage::{error::ContentStoreError, ContentStore, ShouldWeStoreContent};
use trin_validation::validator::{ValidationResult, Validator};
use utp_rs::{
    cid::ConnectionId,
    conn::ConnectionConfig,
    peer::{ConnectionPeer, Peer as UtpPeerRef},
    socket::UtpSocket,
    udp::AsyncUdpSocket,
};
use vcommon::Rng;

use crate::{
    clock,
    peers::{xor, Peer},
};

pub const HISTORY: &[u8] = &[0x50, 0x0b];
pub const UTP: &[u8] = b"utp";

/// A key whose second to last bytes are its content id; the first says whether distance matters.
#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct Key(pub [u8; 33]);
impl Key {
    pub fn random(r: &mut Rng, near: bool) -> Self {
        let mut k: [u8; 33] = r.array();
        k[0] = near as u8;
        Self(k)
    }
    pub fn id(&self) -> [u8; 32] {
        self.0[1..].try_into().unwrap()
    }
    pub fn raw(&self) -> RawContentKey {
        RawContentKey::from(self.0.to_vec())
    }
}
impl fmt::Display for Key {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "{}", vcommon::hex(&self.0))
    }
}
impl OverlayContentKey for Key {
    fn content_id(&self) -> [u8; 32] {
        self.id()
    }
    fn affected_by_radius(&self) -> bool {
        self.0[0] == 1
    }
    fn to_bytes(&self) -> RawContentKey {
        self.raw()
    }
    fn try_from_bytes(b: impl AsRef<[u8]>) -> Result<Self, ContentKeyError> {
        let b = b.as_ref();
        match b.try_into() {
            Ok(k) if b[0] < 2 => Ok(Self(k)),
            _ => Err(ContentKeyError::InvalidLength { received: b.len(), expected: 33 }),
        }
    }
}

/// How good a value is for its key.
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Worth {
    Canonical,
    Matching,
    Bad,
}
pub fn value(r: &mut Rng, key: &Key, w: Worth, len: usize) -> Vec<u8> {
    let mut v = vec![match w {
        Worth::Canonical => b'C',
        Worth::Matching => b'V',
        Worth::Bad => b'x',
    }];
    v.extend(key.id());
    if w == Worth::Bad && r.bool() {
        // right mark, wrong key
        v[0] = b'C';
        v[1 + r.index(32)] ^= 1 << r.below(8);
    }
    let more = len.saturating_sub(v.len());
    v.extend(r.bytes(more));
    v
}
pub fn worth(key: &Key, v: &[u8]) -> Worth {
    if v.len() < 33 || v[1..33] != key.0[1..] {
        return Worth::Bad;
    }
    match v[0] {
        b'C' => Worth::Canonical,
        b'V' => Worth::Matching,
        _ => Worth::Bad,
    }
}

#[derive(Default)]
pub struct Judge {
    pub delay: Mutex<Duration>,
    pub calls: AtomicUsize,
}
impl Validator<Key> for Judge {
    async fn validate_content(&self, key: &Key, v: &[u8]) -> ValidationResult {
        self.calls.fetch_add(1, Ordering::SeqCst);
        let d = *self.delay.lock();
        if !d.is_zero() {
            tokio::time::sleep(d).await;
        }
        match worth(key, v) {
            Worth::Canonical => ValidationResult::CanonicallyValid,
            Worth::Matching => ValidationResult::Valid,
            Worth::Bad => ValidationResult::Invalid("bad".into()),
        }
    }
}

pub struct Store {
    pub node: [u8; 32],
    pub radius: Distance,
    pub items: BTreeMap<Key, Vec<u8>>,
    pub puts: Vec<(Key, Vec<u8>)>,
    /// handed out as dropped by the next put
    pub to_drop: Vec<(Key, Vec<u8>)>,
}
impl ContentStore for Store {
    type Key = Key;
    fn get(&self, k: &Key) -> Result<Option<RawContentValue>, ContentStoreError> {
        Ok(self.items.get(k).map(|v| RawContentValue::from(v.clone())))
    }
    fn put<V: AsRef<[u8]>>(&mut self, k: Key, v: V) -> Result<Vec<(Key, RawContentValue)>, ContentStoreError> {
        self.puts.push((k.clone(), v.as_ref().to_vec()));
        self.items.insert(k, v.as_ref().to_vec());
        Ok(std::mem::take(&mut self.to_drop).into_iter().map(|(k, v)| (k, RawContentValue::from(v))).collect())
    }
    fn should_we_store(&self, k: &Key) -> Result<ShouldWeStoreContent, ContentStoreError> {
        Ok(if self.items.contains_key(k) {
            ShouldWeStoreContent::AlreadyStored
        } else if !k.affected_by_radius() || XorMetric::distance(&self.node, &k.id()) <= self.radius {
            ShouldWeStoreContent::Store
        } else {
            ShouldWeStoreContent::NotWithinRadius
        })
    }
    fn radius(&self) -> Distance {
        self.radius
    }
}

pub type Overlay = OverlayProtocol<Key, XorMetric, Judge, Store, MockPingExtension>;
pub struct Node {
    pub overlay: Arc<Overlay>,
    pub store: Arc<Mutex<Store>>,
    pub judge: Arc<Judge>,
    pub utp: Arc<UtpSocket<portalnet::discovery::UtpPeer>>,
    pub discovery: Arc<Discovery>,
}
impl Node {
    pub async fn start(r: &mut Rng, config: OverlayConfig) -> Self {
        let mut secret: [u8; 32] = r.array();
        secret[0] = secret[0].max(1);
        let mut discovery = Discovery::new(PortalnetConfig {
            external_addr: Some(SocketAddr::from(([10, 1, 2, 3], 9000))),
            private_key: secret.into(),
            listen_port: 9000,
            bootnodes: vec![],
            no_upnp: true,
            ..Default::default()
        })
        .expect("discovery");
        let mut talk = discovery.start().await.expect("start");
        let discovery = Arc::new(discovery);
        let (utp_tx, utp_rx) = mpsc::unbounded_channel();
        let utp = Arc::new(UtpSocket::with_socket(Discv5UdpSocket::new(discovery.clone(), utp_rx)));
        let store = Arc::new(Mutex::new(Store {
            node: discovery.local_enr().node_id().raw(),
            radius: Distance::MAX,
            items: BTreeMap::new(),
            puts: vec![],
            to_drop: vec![],
        }));
        let judge = Arc::new(Judge::default());
        let overlay = Arc::new(
            OverlayProtocol::new(config, discovery.clone(), utp.clone(), store.clone(), Subnetwork::LegacyHistory, judge.clone(), Arc::new(MockPingExtension {})).await,
        );
        let o = overlay.clone();
        tokio::spawn(async move {
            while let Some(req) = talk.recv().await {
                if req.protocol() == UTP {
                    let _ = utp_tx.send(req);
                } else if req.protocol() == HISTORY {
                    let o = o.clone();
                    tokio::spawn(async move {
                        let reply = match o.process_one_request(&req).await {
                            Ok(x) => Message::from(x).into(),
                            Err(_) => vec![],
                        };
                        let _ = req.respond(reply);
                    });
                }
            }
        });
        Self { overlay, store, judge, utp, discovery }
    }
    pub fn enr(&self) -> Enr {
        self.overlay.local_enr()
    }
    pub fn id(&self) -> [u8; 32] {
        self.enr().node_id().raw()
    }
}

/// What a scripted peer does with a request.
pub enum Act {
    Reply(Response),
    Raw(Vec<u8>),
    Late(Duration, Response),
    Silent,
    /// announce a transfer and then send these bytes
    Serve(Vec<u8>),
    /// announce a transfer that never starts
    Ghost(u16),
    /// accept the offered items whose code is zero and receive them
    Accept(Vec<u8>),
    /// the same after a while
    AcceptLate(Duration, Vec<u8>),
    /// announce acceptance but never take the transfer
    AcceptGhost(Vec<u8>),
}
type Brain = Box<dyn FnMut(&Request) -> Act + Send>;
#[derive(Clone)]
pub struct Far(pub Enr);
impl fmt::Debug for Far {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "far")
    }
}
impl ConnectionPeer for Far {
    type Id = NodeId;
    fn id(&self) -> NodeId {
        self.0.node_id()
    }
    fn consolidate(a: Self, _b: Self) -> Self {
        a
    }
}
struct Pipe {
    disc: Arc<Discv5>,
    to: Enr,
    rx: mpsc::UnboundedReceiver<TalkRequest>,
}
#[async_trait]
impl AsyncUdpSocket<Far> for Pipe {
    async fn send_to(&mut self, buf: &[u8], _peer: &UtpPeerRef<Far>) -> io::Result<usize> {
        tokio::spawn(self.disc.talk_req(self.to.clone(), UTP.to_vec(), buf.to_vec()));
        Ok(buf.len())
    }
    async fn recv_from(&mut self, buf: &mut [u8]) -> io::Result<(usize, UtpPeerRef<Far>)> {
        match self.rx.recv().await {
            Some(t) => {
                let n = t.body().len().min(buf.len());
                buf[..n].copy_from_slice(&t.body()[..n]);
                let id = *t.node_id();
                let _ = t.respond(vec![]);
                Ok((n, UtpPeerRef::new_id(id)))
            }
            None => Err(io::ErrorKind::NotConnected.into()),
        }
    }
}
pub struct Scripted {
    pub peer: Peer,
    pub enr: Enr,
    /// protocol version spoken with the node; none if there is no common one
    pub version: Option<u8>,
    proto: &'static [u8],
    disc: Arc<Discv5>,
    utp: Arc<UtpSocket<Far>>,
    to: Enr,
    pub brain: Arc<Mutex<Brain>>,
    /// requests received, with the time
    pub log: Arc<Mutex<Vec<(Duration, Request)>>>,
    /// payloads received by accepted transfers
    pub got: Arc<Mutex<Vec<Vec<u8>>>>,
    /// the same with the request and when the transfer ended
    pub took: Arc<Mutex<Vec<(Duration, Request, Vec<u8>)>>>,
}
fn cfg() -> ConnectionConfig {
    ConnectionConfig { max_idle_timeout: Duration::from_secs(10), ..Default::default() }
}
pub enum Versions {
    Absent,
    List(Vec<u8>),
}
pub fn versioned(p: &Peer, seq: u64, v: &Versions) -> Enr {
    let mut b = discv5::enr::Enr::builder();
    b.ip(p.ip.into()).udp4(8000).seq(seq);
    if let Versions::List(v) = v {
        b.add_value("pv", &bytes::Bytes::from(v.clone()));
    }
    b.build(&p.key).expect("record")
}
impl Scripted {
    pub async fn start(r: &mut Rng, node: &Node, versions: Versions) -> Self {
        Self::at(Peer::random(r), node, versions).await
    }
    pub async fn at(peer: Peer, node: &Node, versions: Versions) -> Self {
        Self::near(peer, node.enr(), HISTORY, versions).await
    }
    /// A peer of the node `to` in the network `proto`.
    pub async fn near(peer: Peer, to: Enr, proto: &'static [u8], versions: Versions) -> Self {
        let enr = versioned(&peer, 1, &versions);
        let version = match &versions {
            Versions::Absent => Some(0),
            Versions::List(v) => v.iter().copied().filter(|x| *x <= 1).max(),
        };
        let key = discv5::enr::CombinedKey::secp256k1_from_bytes(&mut peer.secret.clone()).expect("key");
        let mut disc = Discv5::new(enr.clone(), key, ConfigBuilder::new(ListenConfig::Ipv4 { ip: std::net::Ipv4Addr::UNSPECIFIED, port: 8000 }).request_timeout(Duration::from_secs(3)).build())
            .expect("peer");
        disc.start().await.expect("peer start");
        let mut events = disc.event_stream().await.expect("events");
        let disc = Arc::new(disc);
        let (utp_tx, rx) = mpsc::unbounded_channel();
        let utp = Arc::new(UtpSocket::with_socket(Pipe { disc: disc.clone(), to: to.clone(), rx }));
        let brain: Arc<Mutex<Brain>> = Arc::new(Mutex::new(Box::new(|_: &Request| Act::Silent)));
        let log = Arc::new(Mutex::new(vec![]));
        let got = Arc::new(Mutex::new(vec![]));
        let took = Arc::new(Mutex::new(vec![]));
        let k = took.clone();
        let (b, l, g, u, t) = (brain.clone(), log.clone(), got.clone(), utp.clone(), to.clone());
        tokio::spawn(async move {
            while let Some(e) = events.recv().await {
                let Event::TalkRequest(req) = e else { continue };
                if req.protocol() == UTP {
                    let _ = utp_tx.send(req);
                    continue;
                }
                let Some(request) = Message::try_from(req.body().to_vec()).ok().and_then(|m| Request::try_from(m).ok()) else {
                    l.lock().push((clock::now(), Request::FindNodes(ethportal_api::types::portal_wire::FindNodes { distances: vec![9999] })));
                    continue;
                };
                l.lock().push((clock::now(), request.clone()));
                let act = (b.lock())(&request);
                let from = *req.node_id();
                match act {
                    Act::Reply(x) => drop(req.respond(Message::from(x).into())),
                    Act::Raw(x) => drop(req.respond(x)),
                    Act::Late(d, x) => {
                        tokio::spawn(async move {
                            tokio::time::sleep(d).await;
                            let _ = req.respond(Message::from(x).into());
                        });
                    }
                    Act::Silent => {
                        tokio::spawn(async move {
                            tokio::time::sleep(Duration::from_secs(30)).await;
                            drop(req);
                        });
                    }
                    Act::Serve(data) => {
                        let cid = u.cid(from, false);
                        let x = Response::Content(ethportal_api::types::portal_wire::Content::ConnectionId(cid.send.to_be()));
                        let _ = req.respond(Message::from(x).into());
                        let (u, t) = (u.clone(), t.clone());
                        tokio::spawn(async move {
                            if let Ok(mut s) = u.accept_with_cid(cid, UtpPeerRef::new(Far(t)), cfg()).await {
                                let _ = s.write(&data).await;
                                let _ = s.close().await;
                            }
                        });
                    }
                    Act::Ghost(cid) => {
                        let x = Response::Content(ethportal_api::types::portal_wire::Content::ConnectionId(cid));
                        let _ = req.respond(Message::from(x).into());
                    }
                    act @ (Act::Accept(_) | Act::AcceptLate(..)) => {
                        let (wait, codes) = match act {
                            Act::AcceptLate(d, codes) => (d, codes),
                            Act::Accept(codes) => (Duration::ZERO, codes),
                            _ => continue,
                        };
                        let cid = u.cid(from, false);
                        let x = Response::Accept(ethportal_api::types::portal_wire::Accept { connection_id: cid.send.to_be(), content_keys: codes.into() });
                        let mut req = Some(req);
                        if wait.is_zero() {
                            let _ = req.take().map(|r| r.respond(Message::from(x.clone()).into()));
                        }
                        let (u, t, g, k) = (u.clone(), t.clone(), g.clone(), k.clone());
                        tokio::spawn(async move {
                            if let Some(r) = req {
                                tokio::time::sleep(wait).await;
                                let _ = r.respond(Message::from(x).into());
                            }
                            if let Ok(mut s) = u.accept_with_cid(cid, UtpPeerRef::new(Far(t)), cfg()).await {
                                let mut data = vec![];
                                if s.read_to_eof(&mut data).await.is_ok() {
                                    k.lock().push((clock::now(), request, data.clone()));
                                    g.lock().push(data);
                                }
                            }
                        });
                    }
                    Act::AcceptGhost(codes) => {
                        let x = Response::Accept(ethportal_api::types::portal_wire::Accept { connection_id: 77, content_keys: codes.into() });
                        let _ = req.respond(Message::from(x).into());
                    }
                }
            }
        });
        Self { peer, enr, version, proto, disc, utp, to, brain, log, got, took }
    }
    pub fn id(&self) -> [u8; 32] {
        self.enr.node_id().raw()
    }
    pub fn think(&self, f: impl FnMut(&Request) -> Act + Send + 'static) {
        *self.brain.lock() = Box::new(f);
    }
    pub fn distance(&self, id: &[u8; 32]) -> [u8; 32] {
        xor(&self.id(), id)
    }
    /// Sends a request to the node; `None` without an answer, empty if it was refused.
    pub async fn ask(&self, m: Request) -> Option<Vec<u8>> {
        self.ask_raw(Message::from(m).into()).await
    }
    pub async fn ask_raw(&self, m: Vec<u8>) -> Option<Vec<u8>> {
        clock::within(Duration::from_secs(5), self.disc.talk_req(self.to.clone(), self.proto.to_vec(), m)).await?.ok()
    }
    /// Connects to a transfer the node announced and sends `data`, at most until `limit`.
    pub async fn send_stream(&self, cid: u16, data: Vec<u8>, finish: bool) -> Option<bool> {
        let cid = ConnectionId { recv: cid, send: cid.wrapping_add(1), peer_id: self.to.node_id() };
        let (u, t) = (self.utp.clone(), self.to.clone());
        clock::within(Duration::from_secs(60), async move {
            let Ok(mut s) = u.connect_with_cid(cid, UtpPeerRef::new(Far(t)), cfg()).await else { return false };
            s.write(&data).await.is_ok() && (!finish || s.close().await.is_ok())
        })
        .await
    }
    pub async fn read_stream(&self, cid: u16) -> Option<Option<Vec<u8>>> {
        let cid = ConnectionId { recv: cid, send: cid.wrapping_add(1), peer_id: self.to.node_id() };
        let (u, t) = (self.utp.clone(), self.to.clone());
        clock::within(Duration::from_secs(60), async move {
            let Ok(mut s) = u.connect_with_cid(cid, UtpPeerRef::new(Far(t)), cfg()).await else { return None };
            let mut data = vec![];
            s.read_to_eof(&mut data).await.ok().map(|_| data)
        })
        .await
    }
    pub fn asked(&self) -> usize {
        self.log.lock().len()
    }
}
/// The framing of items in one transfer.
pub fn frame(items: &[Vec<u8>]) -> Vec<u8> {
    let mut out = vec![];
    for i in items {
        let mut n = i.len();
        while n >= 0x80 {
            out.push(n as u8 | 0x80);
            n >>= 7;
        }
        out.push(n as u8);
        out.extend(i);
    }
    out
}
pub fn unframe(mut b: &[u8]) -> Option<Vec<Vec<u8>>> {
    let mut out = vec![];
    while !b.is_empty() {
        let (mut n, mut s) = (0usize, 0);
        loop {
            let (x, rest) = b.split_first()?;
            b = rest;
            n |= ((x & 0x7f) as usize) << s;
            s += 7;
            if x & 0x80 == 0 {
                break;
            }
        }
        if b.len() < n {
            return None;
        }
        out.push(b[..n].to_vec());
        b = &b[n..];
    }
    Some(out)
}
/// The codes as sent to a peer speaking version `v`.
pub fn codes(v: u8, c: &[u8]) -> Vec<u8> {
    if v >= 1 {
        return c.to_vec();
    }
    let mut out = vec![0u8; c.len() / 8 + 1];
    for (i, x) in c.iter().enumerate() {
        if *x == 0 {
            out[i / 8] |= 1 << (i % 8);
        }
    }
    out[c.len() / 8] |= 1 << (c.len() % 8);
    out
}
pub fn uncode(v: u8, b: &[u8]) -> Option<Vec<u8>> {
    if v >= 1 {
        return Some(b.to_vec());
    }
    let last = *b.last()?;
    if last == 0 {
        return None;
    }
    let len = (b.len() - 1) * 8 + 7 - last.leading_zeros() as usize;
    Some((0..len).map(|i| if b[i / 8] >> (i % 8) & 1 == 1 { 0 } else { 1 }).collect())
}
/// A fresh network.
pub fn fresh(r: &mut Rng) {
    discv5::net::reset();
    discv5::seeded::reseed(r.u64());
    utp_rs::socket::reseed(r.u64());
}
pub fn message(b: &[u8]) -> Option<Response> {
    Message::try_from(b.to_vec()).ok().and_then(|m| Response::try_from(m).ok())
}
/// An answer like that of an ordinary peer that has nothing and wants nothing.
pub fn polite(radius: Distance, version: u8, q: &Request) -> Act {
    use ethportal_api::types::{
        ping_extensions::{extension_types::PingExtensionType, extensions::type_1::BasicRadius},
        portal_wire::{Accept, Content, Nodes, Pong},
    };
    Act::Reply(match q {
        Request::Ping(_) => Response::Pong(Pong { enr_seq: 1, payload_type: PingExtensionType::BasicRadius, payload: BasicRadius { data_radius: radius }.into() }),
        Request::FindNodes(_) => Response::Nodes(Nodes { total: 1, enrs: vec![] }),
        Request::FindContent(_) => Response::Content(Content::Enrs(vec![])),
        Request::Offer(o) => Response::Accept(Accept { connection_id: 0, content_keys: codes(version, &vec![1; o.content_keys.len()]).into() }),
        _ => return Act::Silent,
    })
}
impl Scripted {
    pub fn behave(&self) {
        let v = self.version.unwrap_or(0);
        self.think(move |q| polite(Distance::MAX, v, q));
    }
}
pub fn some_versions(r: &mut Rng) -> Versions {
    match r.below(6) {
        0 => Versions::Absent,
        1 => Versions::List(vec![0]),
        2 => Versions::List(vec![1]),
        3 => Versions::List(vec![1, 2]),
        _ => Versions::List(vec![0, 1]),
    }
}
