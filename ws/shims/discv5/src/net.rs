//! The service: messages travel between the nodes of one process.
use std::{
    collections::HashMap,
    fmt,
    net::{IpAddr, Ipv4Addr, Ipv6Addr, SocketAddr},
    sync::{
        atomic::{AtomicU64, Ordering},
        Arc, OnceLock,
    },
    time::Duration,
};

use parking_lot::{Mutex, RwLock};
use tokio::sync::{mpsc, oneshot};

use crate::{
    enr::{CombinedKey, NodeId},
    kbucket::*,
    rpc::RequestId,
    service::Pong,
    Enr,
};

#[derive(Debug, Clone, PartialEq, Eq)]
pub enum RequestError {
    Timeout,
    SelfRequest,
    InvalidEnr(String),
    InvalidRemotePacket,
    EncodeFailed,
    ServiceNotStarted,
    ChannelFailed(String),
    InvalidMultiaddr(String),
}
impl fmt::Display for RequestError {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "{self:?}")
    }
}
impl std::error::Error for RequestError {}
#[derive(Debug, Clone, PartialEq, Eq)]
pub enum QueryError {
    ServiceNotStarted,
    ChannelFailed(String),
    FailedToGenerateNodeId,
    InvalidMultiaddr(String),
}
impl fmt::Display for QueryError {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "{self:?}")
    }
}
impl std::error::Error for QueryError {}
#[derive(Debug, Clone, PartialEq, Eq)]
pub enum ResponseError {
    ChannelClosed,
}
impl fmt::Display for ResponseError {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "{self:?}")
    }
}
impl std::error::Error for ResponseError {}
#[derive(Debug, Clone, PartialEq, Eq)]
pub enum Error {
    InvalidEnr,
    ServiceAlreadyStarted,
    ServiceNotStarted,
}
impl fmt::Display for Error {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "{self:?}")
    }
}
impl std::error::Error for Error {}

#[derive(Clone, Debug)]
pub enum ListenConfig {
    Ipv4 { ip: Ipv4Addr, port: u16 },
    Ipv6 { ip: Ipv6Addr, port: u16 },
}
#[derive(Clone, Debug)]
pub struct Config {
    pub request_timeout: Duration,
    pub session_cache_capacity: usize,
    pub listen_config: ListenConfig,
}
pub struct ConfigBuilder {
    c: Config,
}
impl ConfigBuilder {
    pub fn new(listen_config: ListenConfig) -> Self {
        Self {
            c: Config {
                request_timeout: Duration::from_secs(1),
                session_cache_capacity: 1000,
                listen_config,
            },
        }
    }
    pub fn request_timeout(&mut self, d: Duration) -> &mut Self {
        self.c.request_timeout = d;
        self
    }
    pub fn session_cache_capacity(&mut self, n: usize) -> &mut Self {
        self.c.session_cache_capacity = n;
        self
    }
    pub fn build(&mut self) -> Config {
        self.c.clone()
    }
}

#[derive(Debug)]
pub enum Event {
    Discovered(Enr),
    EnrAdded { enr: Enr, replaced: Option<Enr> },
    NodeInserted { node_id: NodeId, replaced: Option<NodeId> },
    SessionEstablished(Enr, SocketAddr),
    SocketUpdated(SocketAddr),
    TalkRequest(TalkRequest),
}
#[derive(Debug)]
pub struct TalkRequest {
    id: RequestId,
    node_id: NodeId,
    address: SocketAddr,
    protocol: Vec<u8>,
    body: Vec<u8>,
    sender: Option<oneshot::Sender<Vec<u8>>>,
}
impl Drop for TalkRequest {
    fn drop(&mut self) {
        if let Some(s) = self.sender.take() {
            let _ = s.send(vec![]);
        }
    }
}
impl TalkRequest {
    /// A request that did not travel; the response arrives at the returned receiver.
    pub fn detached(node_id: NodeId, protocol: Vec<u8>, body: Vec<u8>) -> (Self, oneshot::Receiver<Vec<u8>>) {
        let (tx, rx) = oneshot::channel();
        let r = Self {
            id: RequestId::random(),
            node_id,
            address: SocketAddr::new(IpAddr::V4(Ipv4Addr::LOCALHOST), 9000),
            protocol,
            body,
            sender: Some(tx),
        };
        (r, rx)
    }
    pub fn id(&self) -> &RequestId {
        &self.id
    }
    pub fn node_id(&self) -> &NodeId {
        &self.node_id
    }
    pub fn node_address(&self) -> SocketAddr {
        self.address
    }
    pub fn protocol(&self) -> &[u8] {
        &self.protocol
    }
    pub fn body(&self) -> &[u8] {
        &self.body
    }
    pub fn respond(mut self, response: Vec<u8>) -> Result<(), ResponseError> {
        self.sender
            .take()
            .expect("response sent once")
            .send(response)
            .map_err(|_| ResponseError::ChannelClosed)
    }
}

/// What happens to a talk request.
pub enum Fate {
    Deliver,
    DeliverAfter(Duration),
    Lose,
    /// The request arrives, the response does not.
    LoseResponse,
    Answer(Vec<u8>),
    Fail(RequestError),
}
pub struct Message<'a> {
    pub from: NodeId,
    pub to: NodeId,
    pub protocol: &'a [u8],
    pub body: &'a [u8],
}
type Policy = Arc<dyn Fn(&Message<'_>) -> Fate + Send + Sync>;
struct Peer {
    generation: u64,
    events: mpsc::Sender<Event>,
    enr: Arc<RwLock<Enr>>,
}
#[derive(Default)]
struct World {
    nodes: Mutex<HashMap<NodeId, Peer>>,
    policy: RwLock<Option<Policy>>,
}
fn world() -> &'static World {
    static W: OnceLock<World> = OnceLock::new();
    W.get_or_init(World::default)
}
pub fn set_policy(p: Option<Policy>) {
    *world().policy.write() = p;
}
/// Removes every node from the network.
pub fn reset() {
    world().nodes.lock().clear();
    set_policy(None);
}

pub struct Discv5 {
    enr: Arc<RwLock<Enr>>,
    key: CombinedKey,
    config: Config,
    table: Arc<RwLock<KBucketsTable<NodeId, Enr>>>,
    events: Mutex<Option<mpsc::Receiver<Event>>>,
    event_tx: mpsc::Sender<Event>,
    /// the instances of others a session exists with
    sessions: Arc<Mutex<HashMap<NodeId, u64>>>,
    generation: u64,
    started: bool,
}
fn address(enr: &Enr) -> SocketAddr {
    enr.udp4_socket()
        .map(SocketAddr::V4)
        .unwrap_or_else(|| SocketAddr::new(IpAddr::V4(Ipv4Addr::LOCALHOST), enr.udp4().unwrap_or(9000)))
}
impl Discv5 {
    pub fn new(enr: Enr, key: CombinedKey, config: Config) -> Result<Self, &'static str> {
        static G: AtomicU64 = AtomicU64::new(1);
        let (event_tx, rx) = mpsc::channel(10_000);
        let table = KBucketsTable::new(enr.node_id().into(), Duration::from_secs(60), 16, None, None);
        Ok(Self {
            enr: Arc::new(RwLock::new(enr)),
            key,
            config,
            table: Arc::new(RwLock::new(table)),
            events: Mutex::new(Some(rx)),
            event_tx,
            sessions: Default::default(),
            generation: G.fetch_add(1, Ordering::SeqCst),
            started: false,
        })
    }
    pub async fn start(&mut self) -> Result<(), Error> {
        if self.started {
            return Err(Error::ServiceAlreadyStarted);
        }
        self.started = true;
        world().nodes.lock().insert(
            self.enr.read().node_id(),
            Peer {
                generation: self.generation,
                events: self.event_tx.clone(),
                enr: self.enr.clone(),
            },
        );
        Ok(())
    }
    pub async fn event_stream(&self) -> Result<mpsc::Receiver<Event>, Error> {
        self.events.lock().take().ok_or(Error::ServiceNotStarted)
    }
    pub fn local_enr(&self) -> Enr {
        self.enr.read().clone()
    }
    pub fn connected_peers(&self) -> usize {
        self.table.write().iter().filter(|e| e.status.is_connected()).count()
    }
    pub fn table_entries_enr(&self) -> Vec<Enr> {
        self.table.write().iter().map(|e| e.node.value.clone()).collect()
    }
    pub fn table_entries_id(&self) -> Vec<NodeId> {
        self.table.write().iter().map(|e| *e.node.key.preimage()).collect()
    }
    pub fn kbuckets(&self) -> KBucketsTable<NodeId, Enr> {
        self.table.read().clone()
    }
    pub fn find_enr(&self, id: &NodeId) -> Option<Enr> {
        match self.table.write().entry(&Key::from(*id)) {
            Entry::Present(e, _) => Some(e.value().clone()),
            _ => None,
        }
    }
    pub fn add_enr(&self, enr: Enr) -> Result<(), &'static str> {
        let key = Key::from(enr.node_id());
        let status = NodeStatus {
            state: ConnectionState::Disconnected,
            direction: ConnectionDirection::Incoming,
        };
        match self.table.write().insert_or_update(&key, enr, status) {
            InsertResult::Failed(FailureReason::BucketFull) => Err("Table full"),
            InsertResult::Failed(FailureReason::InvalidSelfUpdate) => Err("Invalid self update"),
            InsertResult::Failed(_) => Err("Failed"),
            _ => Ok(()),
        }
    }
    pub fn remove_node(&self, id: &NodeId) -> bool {
        self.table.write().remove(&Key::from(*id))
    }
    pub fn update_local_enr_socket(&self, s: SocketAddr, _is_tcp: bool) -> bool {
        let mut e = self.enr.write();
        if e.udp4_socket().map(SocketAddr::V4) == Some(s) {
            return false;
        }
        e.set_udp_socket(s, &self.key).is_ok()
    }
    pub async fn find_node(&self, target: NodeId) -> Result<Vec<Enr>, QueryError> {
        let mut v: Vec<Enr> = world().nodes.lock().values().map(|p| p.enr.read().clone()).collect();
        let k = Key::from(target);
        v.retain(|e| e.node_id() != self.local_enr().node_id());
        v.sort_by_key(|e| Key::from(e.node_id()).distance(&k));
        v.truncate(16);
        Ok(v)
    }
    pub async fn find_node_designated_peer(&self, enr: Enr, distances: Vec<u64>) -> Result<Vec<Enr>, RequestError> {
        let _ = distances;
        if world().nodes.lock().contains_key(&enr.node_id()) {
            Ok(vec![])
        } else {
            Err(RequestError::Timeout)
        }
    }
    pub async fn send_ping(&self, enr: Enr) -> Result<Pong, RequestError> {
        match world().nodes.lock().get(&enr.node_id()) {
            Some(p) => Ok(Pong {
                enr_seq: p.enr.read().seq(),
                ip: address(&self.local_enr()).ip(),
                port: address(&self.local_enr()).port(),
            }),
            None => Err(RequestError::Timeout),
        }
    }
    pub fn talk_req(
        &self,
        enr: Enr,
        protocol: Vec<u8>,
        request: Vec<u8>,
    ) -> impl std::future::Future<Output = Result<Vec<u8>, RequestError>> + 'static {
        let local = self.local_enr();
        let started = self.started;
        let timeout = self.config.request_timeout;
        let to = enr.node_id();
        let sessions = self.sessions.clone();
        let own = self.event_tx.clone();
        async move {
            if !started {
                return Err(RequestError::ServiceNotStarted);
            }
            if to == local.node_id() {
                return Err(RequestError::SelfRequest);
            }
            let policy = world().policy.read().clone();
            let fate = policy
                .map(|p| {
                    p(&Message {
                        from: local.node_id(),
                        to,
                        protocol: &protocol,
                        body: &request,
                    })
                })
                .unwrap_or(Fate::Deliver);
            let mut lose_response = false;
            match fate {
                Fate::Deliver => {}
                Fate::DeliverAfter(d) => tokio::time::sleep(d).await,
                Fate::Lose => {
                    tokio::time::sleep(timeout).await;
                    return Err(RequestError::Timeout);
                }
                Fate::LoseResponse => lose_response = true,
                Fate::Answer(v) => return Ok(v),
                Fate::Fail(e) => return Err(e),
            }
            let target = world().nodes.lock().get(&to).map(|p| (p.events.clone(), p.enr.clone(), p.generation));
            let Some((events, peer_enr, instance)) = target else {
                tokio::time::sleep(timeout).await;
                return Err(RequestError::Timeout);
            };
            if sessions.lock().insert(to, instance) != Some(instance) {
                let _ = events.send(Event::SessionEstablished(local.clone(), address(&local))).await;
                let peer = peer_enr.read().clone();
                let a = address(&peer);
                let _ = own.try_send(Event::SessionEstablished(peer, a));
            }
            let (tx, rx) = oneshot::channel();
            let sent = events
                .send(Event::TalkRequest(TalkRequest {
                    id: RequestId::random(),
                    node_id: local.node_id(),
                    address: address(&local),
                    protocol,
                    body: request,
                    sender: Some(tx),
                }))
                .await;
            if sent.is_err() || lose_response {
                tokio::time::sleep(timeout).await;
                return Err(RequestError::Timeout);
            }
            match tokio::time::timeout(timeout, rx).await {
                Ok(Ok(v)) => Ok(v),
                _ => Err(RequestError::Timeout),
            }
        }
    }
}
impl Drop for Discv5 {
    fn drop(&mut self) {
        let id = self.enr.read().node_id();
        let mut n = world().nodes.lock();
        if n.get(&id).is_some_and(|p| p.generation == self.generation) {
            n.remove(&id);
        }
    }
}
