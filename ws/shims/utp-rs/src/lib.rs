//! A reliable transfer with the interface of the `utp-rs` crate and a simpler packet format.
//! Packets carry the sender's `send` id; a connection is looked up by peer and own `recv` id.
pub mod peer {
    use std::{fmt::Debug, hash::Hash};
    pub trait ConnectionPeer: Debug + Clone + Send + Sync + 'static {
        type Id: Debug + Clone + PartialEq + Eq + Hash + Send + Sync + 'static;
        fn id(&self) -> Self::Id;
        fn consolidate(a: Self, b: Self) -> Self;
    }
    #[derive(Debug, Clone)]
    pub struct Peer<P: ConnectionPeer> {
        id: P::Id,
        peer: Option<P>,
    }
    impl<P: ConnectionPeer> Peer<P> {
        pub fn new(peer: P) -> Self {
            Self { id: peer.id(), peer: Some(peer) }
        }
        pub fn new_id(id: P::Id) -> Self {
            Self { id, peer: None }
        }
        pub fn id(&self) -> &P::Id {
            &self.id
        }
        pub fn peer(&self) -> Option<&P> {
            self.peer.as_ref()
        }
    }
}
pub mod cid {
    #[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
    pub struct ConnectionId<Id> {
        pub send: u16,
        pub recv: u16,
        pub peer_id: Id,
    }
}
pub mod conn {
    use std::time::Duration;
    #[derive(Debug, Clone, Copy)]
    pub struct ConnectionConfig {
        pub max_packet_size: u16,
        pub max_conn_attempts: usize,
        pub max_idle_timeout: Duration,
        pub initial_timeout: Duration,
        pub min_timeout: Duration,
        pub max_timeout: Duration,
        pub target_delay: Duration,
    }
    impl Default for ConnectionConfig {
        fn default() -> Self {
            Self {
                max_packet_size: 512,
                max_conn_attempts: 6,
                max_idle_timeout: Duration::from_secs(20),
                initial_timeout: Duration::from_millis(1500),
                min_timeout: Duration::from_millis(500),
                max_timeout: Duration::from_secs(60),
                target_delay: Duration::from_micros(100_000),
            }
        }
    }
}
pub mod udp {
    use std::io;

    use async_trait::async_trait;

    use crate::peer::{ConnectionPeer, Peer};
    #[async_trait]
    pub trait AsyncUdpSocket<P: ConnectionPeer>: Send + Sync {
        async fn send_to(&mut self, buf: &[u8], peer: &Peer<P>) -> io::Result<usize>;
        async fn recv_from(&mut self, buf: &mut [u8]) -> io::Result<(usize, Peer<P>)>;
    }
}
pub mod socket {
    use std::{
        collections::{HashMap, VecDeque},
        io,
        sync::{
            atomic::{AtomicU64, Ordering},
            Arc,
        },
        time::Duration,
    };

    use parking_lot::Mutex;
    use tokio::{sync::mpsc, time::timeout};

    use crate::{
        cid::ConnectionId,
        conn::ConnectionConfig,
        peer::{ConnectionPeer, Peer},
        udp::AsyncUdpSocket,
    };

    static SEED: AtomicU64 = AtomicU64::new(0x9e3779b97f4a7c15);
    /// Makes the connection ids chosen from here on follow from `s`.
    pub fn reseed(s: u64) {
        SEED.store(s, Ordering::SeqCst);
    }
    /// Looks random, but comes to the same again only after all others: an id that was handed out
    /// and is not in use yet is not handed out twice.
    fn random16() -> u16 {
        let n = SEED.fetch_add(1 << 20, Ordering::SeqCst);
        let mut x = (n >> 20) as u16;
        for k in [n as u16 & 0xf, 5, 11] {
            x = x.wrapping_mul(0x9e37).wrapping_add(k);
            x ^= x >> 7;
        }
        x
    }

    const SYN: u8 = 1;
    const DATA: u8 = 2;
    const FIN: u8 = 3;
    const ACK: u8 = 4;
    const RESET: u8 = 5;
    struct Packet {
        kind: u8,
        cid: u16,
        seq: u32,
        body: Vec<u8>,
    }
    impl Packet {
        fn encode(&self) -> Vec<u8> {
            let mut v = vec![self.kind];
            v.extend(self.cid.to_be_bytes());
            v.extend(self.seq.to_be_bytes());
            v.extend(&self.body);
            v
        }
        fn decode(b: &[u8]) -> Option<Self> {
            if b.len() < 7 || !(SYN..=RESET).contains(&b[0]) {
                return None;
            }
            Some(Self {
                kind: b[0],
                cid: u16::from_be_bytes([b[1], b[2]]),
                seq: u32::from_be_bytes(b[3..7].try_into().unwrap()),
                body: b[7..].to_vec(),
            })
        }
    }
    type Key<P> = (<P as ConnectionPeer>::Id, u16);
    struct Shared<P: ConnectionPeer> {
        conns: HashMap<Key<P>, mpsc::UnboundedSender<Packet>>,
        early: VecDeque<(Key<P>, Packet)>,
    }
    /// Reliable connections over one datagram socket.
    pub struct UtpSocket<P: ConnectionPeer> {
        shared: Arc<Mutex<Shared<P>>>,
        out: mpsc::UnboundedSender<(Vec<u8>, Peer<P>)>,
        task: tokio::task::AbortHandle,
    }
    impl<P: ConnectionPeer> Drop for UtpSocket<P> {
        fn drop(&mut self) {
            self.task.abort();
        }
    }
    impl<P: ConnectionPeer> UtpSocket<P> {
        pub fn with_socket<S: AsyncUdpSocket<P> + 'static>(mut socket: S) -> Self {
            let shared: Arc<Mutex<Shared<P>>> =
                Arc::new(Mutex::new(Shared { conns: HashMap::new(), early: VecDeque::new() }));
            let (out, mut out_rx) = mpsc::unbounded_channel::<(Vec<u8>, Peer<P>)>();
            let sh = shared.clone();
            let task = tokio::spawn(async move {
                let mut buf = vec![0u8; 65536];
                loop {
                    tokio::select! {
                        r = socket.recv_from(&mut buf) => {
                            let Ok((n, from)) = r else { break };
                            let Some(p) = Packet::decode(&buf[..n]) else { continue };
                            let key = (from.id().clone(), p.cid);
                            let mut s = sh.lock();
                            match s.conns.get(&key) {
                                Some(tx) => { let _ = tx.send(p); }
                                None if p.kind == SYN => {
                                    if s.early.len() > 256 { s.early.pop_front(); }
                                    s.early.push_back((key, p));
                                }
                                None => {}
                            }
                        }
                        o = out_rx.recv() => {
                            let Some((b, to)) = o else { break };
                            let _ = socket.send_to(&b, &to).await;
                        }
                    }
                }
            })
            .abort_handle();
            Self { shared, out, task }
        }
        pub fn cid(&self, peer_id: P::Id, is_initiator: bool) -> ConnectionId<P::Id> {
            loop {
                let recv = random16();
                let send = if is_initiator { recv.wrapping_add(1) } else { recv.wrapping_sub(1) };
                if !self.shared.lock().conns.contains_key(&(peer_id.clone(), recv)) {
                    return ConnectionId { send, recv, peer_id };
                }
            }
        }
        pub fn num_connections(&self) -> usize {
            self.shared.lock().conns.len()
        }
        fn register(&self, cid: &ConnectionId<P::Id>) -> io::Result<mpsc::UnboundedReceiver<Packet>> {
            let key = (cid.peer_id.clone(), cid.recv);
            let mut s = self.shared.lock();
            if s.conns.contains_key(&key) {
                return Err(io::Error::new(io::ErrorKind::Other, "connection ID unavailable"));
            }
            let (tx, rx) = mpsc::unbounded_channel();
            let mut kept = VecDeque::new();
            while let Some((k, p)) = s.early.pop_front() {
                if k == key {
                    let _ = tx.send(p);
                } else {
                    kept.push_back((k, p));
                }
            }
            s.early = kept;
            s.conns.insert(key, tx);
            Ok(rx)
        }
        fn stream(&self, cid: ConnectionId<P::Id>, peer: Peer<P>, cfg: ConnectionConfig, rx: mpsc::UnboundedReceiver<Packet>) -> UtpStream<P> {
            UtpStream {
                shared: self.shared.clone(),
                out: self.out.clone(),
                cid,
                peer,
                cfg,
                rx: Some(rx),
                next_in: 1,
                next_out: 1,
                got: vec![],
                eof: false,
                closed: false,
            }
        }
        pub async fn connect_with_cid(&self, cid: ConnectionId<P::Id>, peer: Peer<P>, cfg: ConnectionConfig) -> io::Result<UtpStream<P>> {
            let rx = self.register(&cid)?;
            let mut s = self.stream(cid, peer, cfg, rx);
            let tries = ((cfg.max_idle_timeout.as_millis() / cfg.initial_timeout.as_millis().max(1)) as usize).clamp(1, cfg.max_conn_attempts);
            for _ in 0..tries {
                s.send(SYN, 0, vec![]);
                if s.wait_ack(0, cfg.initial_timeout).await? {
                    return Ok(s);
                }
            }
            Err(io::ErrorKind::TimedOut.into())
        }
        pub async fn accept_with_cid(&self, cid: ConnectionId<P::Id>, peer: Peer<P>, cfg: ConnectionConfig) -> io::Result<UtpStream<P>> {
            let rx = self.register(&cid)?;
            let mut s = self.stream(cid, peer, cfg, rx);
            let got = timeout(Duration::from_secs(20), async {
                while let Some(p) = s.rx.as_mut().unwrap().recv().await {
                    if p.kind == SYN {
                        return true;
                    }
                }
                false
            })
            .await;
            if !matches!(got, Ok(true)) {
                return Err(io::ErrorKind::TimedOut.into());
            }
            s.send(ACK, 0, vec![]);
            Ok(s)
        }
    }
    pub struct UtpStream<P: ConnectionPeer> {
        shared: Arc<Mutex<Shared<P>>>,
        out: mpsc::UnboundedSender<(Vec<u8>, Peer<P>)>,
        cid: ConnectionId<P::Id>,
        peer: Peer<P>,
        cfg: ConnectionConfig,
        rx: Option<mpsc::UnboundedReceiver<Packet>>,
        next_in: u32,
        next_out: u32,
        got: Vec<u8>,
        eof: bool,
        closed: bool,
    }
    impl<P: ConnectionPeer> UtpStream<P> {
        fn send(&self, kind: u8, seq: u32, body: Vec<u8>) {
            let b = Packet { kind, cid: self.cid.send, seq, body }.encode();
            let _ = self.out.send((b, self.peer.clone()));
        }
        fn take(&mut self, p: Packet) -> io::Result<Option<u32>> {
            match p.kind {
                ACK => return Ok(Some(p.seq)),
                SYN => self.send(ACK, 0, vec![]),
                RESET => return Err(io::ErrorKind::ConnectionReset.into()),
                DATA | FIN => {
                    if p.seq == self.next_in {
                        self.next_in += 1;
                        self.got.extend(p.body);
                        self.eof |= p.kind == FIN;
                    }
                    if p.seq < self.next_in {
                        self.send(ACK, p.seq, vec![]);
                    }
                }
                _ => {}
            }
            Ok(None)
        }
        async fn wait_ack(&mut self, seq: u32, d: Duration) -> io::Result<bool> {
            let end = tokio::time::Instant::now() + d;
            loop {
                match tokio::time::timeout_at(end, self.rx.as_mut().unwrap().recv()).await {
                    Err(_) => return Ok(false),
                    Ok(None) => return Err(io::ErrorKind::BrokenPipe.into()),
                    Ok(Some(p)) => {
                        if self.take(p)? == Some(seq) {
                            return Ok(true);
                        }
                    }
                }
            }
        }
        async fn deliver(&mut self, kind: u8, body: Vec<u8>) -> io::Result<()> {
            let seq = self.next_out;
            self.next_out += 1;
            let end = tokio::time::Instant::now() + self.cfg.max_idle_timeout;
            while tokio::time::Instant::now() < end {
                self.send(kind, seq, body.clone());
                if self.wait_ack(seq, self.cfg.initial_timeout).await? {
                    return Ok(());
                }
            }
            Err(io::ErrorKind::TimedOut.into())
        }
        pub async fn write(&mut self, b: &[u8]) -> io::Result<usize> {
            let step = (self.cfg.max_packet_size as usize - 24).max(1) * 16;
            for c in b.chunks(step) {
                self.deliver(DATA, c.to_vec()).await?;
            }
            Ok(b.len())
        }
        pub async fn read_to_eof(&mut self, buf: &mut Vec<u8>) -> io::Result<usize> {
            while !self.eof {
                match timeout(self.cfg.max_idle_timeout, self.rx.as_mut().unwrap().recv()).await {
                    Err(_) => return Err(io::ErrorKind::TimedOut.into()),
                    Ok(None) => return Err(io::ErrorKind::BrokenPipe.into()),
                    Ok(Some(p)) => {
                        self.take(p)?;
                    }
                }
            }
            buf.append(&mut self.got);
            Ok(buf.len())
        }
        pub async fn close(&mut self) -> io::Result<()> {
            self.closed = true;
            self.deliver(FIN, vec![]).await
        }
    }
    impl<P: ConnectionPeer> Drop for UtpStream<P> {
        fn drop(&mut self) {
            let key = (self.cid.peer_id.clone(), self.cid.recv);
            if !self.eof && !self.closed {
                self.send(RESET, 0, vec![]);
                self.shared.lock().conns.remove(&key);
                return;
            }
            // linger, so that the other side's last packets are still answered
            let mut rx = self.rx.take().unwrap();
            let (shared, out, peer, send, next_in) =
                (self.shared.clone(), self.out.clone(), self.peer.clone(), self.cid.send, self.next_in);
            let linger = self.cfg.max_idle_timeout;
            if let Ok(h) = tokio::runtime::Handle::try_current() {
                h.spawn(async move {
                    let _ = timeout(linger, async {
                        while let Some(p) = rx.recv().await {
                            if matches!(p.kind, DATA | FIN) && p.seq < next_in {
                                let b = Packet { kind: ACK, cid: send, seq: p.seq, body: vec![] }.encode();
                                let _ = out.send((b, peer.clone()));
                            }
                        }
                    })
                    .await;
                    shared.lock().conns.remove(&key);
                });
            }
        }
    }
}
