//! A bridge among scripted peers.
use std::{net::SocketAddr, sync::Arc, time::Duration};

use alloy::primitives::U256;
use clap::Parser;
use ethportal_api::types::{
    distance::Distance,
    enr::Enr,
    ping_extensions::{
        extension_types::PingExtensionType,
        extensions::{type_0::ClientInfoRadiusCapabilities, type_1::BasicRadius},
    },
    portal_wire::{Accept, Content, Nodes, Ping, Pong, Request, Response},
};
use parking_lot::Mutex;
use portal_bridge::{cli::BridgeConfig, handle::start_trin};
use trin::SubnetworkOverlays;
use vcommon::Rng;

use crate::{
    clock,
    peers::{log2, xor, Peer},
    world::{self, Act, Scripted, Versions},
};

pub const BEACON: &[u8] = &[0x50, 0x0c];
pub const HISTORY: &[u8] = &[0x50, 0x0b];
pub const STATE: &[u8] = &[0x50, 0x0a];

/// What a peer does about offers.
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Taste {
    Take,
    /// after a while
    Slow,
    /// declines with this code
    Decline(u8),
    Silent,
    /// accepts but never takes the transfer
    Ghost,
}
/// How a peer answers pings.
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Answering {
    Well,
    /// with less than was asked for
    Briefly,
    Never,
}
#[derive(Clone, Debug)]
pub struct Mood {
    pub answering: Answering,
    pub radius: Distance,
    pub seq: u64,
    /// whether it hands out its latest record
    pub open: bool,
    pub taste: Taste,
    /// pings since the last one it answered well
    pub missed: u64,
}
pub struct Citizen {
    pub s: Scripted,
    pub mood: Arc<Mutex<Mood>>,
}
impl Citizen {
    pub fn id(&self) -> [u8; 32] {
        self.s.id()
    }
    pub fn covers(&self, id: &[u8; 32]) -> bool {
        U256::from_be_bytes(xor(&self.id(), id)) <= U256::from_be_bytes(self.mood.lock().radius.big_endian())
    }
    /// Everything that was offered, with when.
    pub fn offered(&self) -> Vec<(Duration, Vec<u8>)> {
        let mut out = vec![];
        for (t, q) in self.s.log.lock().iter() {
            if let Request::Offer(o) = q {
                out.extend(o.content_keys.iter().map(|k| (*t, k.to_vec())));
            }
        }
        out
    }
    /// Everything it took, with when.
    pub fn took(&self) -> Vec<(Duration, Vec<u8>, Vec<u8>)> {
        let mut out = vec![];
        for (t, q, data) in self.s.took.lock().iter() {
            if let Request::Offer(o) = q {
                let items = world::unframe(data).unwrap_or_default();
                for (k, v) in o.content_keys.iter().zip(items) {
                    out.push((*t, k.to_vec(), v));
                }
            }
        }
        out
    }
    pub fn forget(&self) {
        self.s.log.lock().clear();
        self.s.took.lock().clear();
        self.s.got.lock().clear();
    }
    /// Makes itself known to the bridge's node.
    pub async fn hello(&self) {
        let m = self.mood.lock().clone();
        let payload = ClientInfoRadiusCapabilities::new(m.radius, vec![PingExtensionType::Capabilities, PingExtensionType::BasicRadius]);
        self.s.ask(Request::Ping(Ping { enr_seq: m.seq, payload_type: PingExtensionType::Capabilities, payload: payload.into() })).await;
    }
}
/// Who knows whom: everybody knows those listed here.
pub type Book = Arc<Mutex<Vec<Enr>>>;

pub struct Town {
    pub key: [u8; 32],
    pub me: Enr,
    pub proto: &'static [u8],
    pub book: Book,
    pub people: Vec<Citizen>,
}
fn think(s: &Scripted, mood: Arc<Mutex<Mood>>, book: Book) {
    let me = s.id();
    let secret = s.peer.secret;
    let ip = s.peer.ip;
    let mut r = Rng::new(u64::from_be_bytes(me[..8].try_into().unwrap()));
    s.think(move |q| {
        let mut m = mood.lock();
        if let Request::Ping(_) = q {
            m.missed += 1;
        }
        if m.answering == Answering::Never {
            return Act::Silent;
        }
        let own = |seq| {
            let key = discv5::enr::CombinedKey::secp256k1_from_bytes(&mut secret.clone()).expect("key");
            let mut b = discv5::enr::Enr::builder();
            b.ip(ip.into()).udp4(8000).seq(seq);
            b.add_value("pv", &bytes::Bytes::from(vec![0u8, 1]));
            b.build(&key).expect("record")
        };
        Act::Reply(match q {
            Request::Ping(p) => {
                let full = m.answering == Answering::Well && p.payload_type == PingExtensionType::Capabilities;
                if full {
                    if m.open || m.seq == 1 {
                        m.missed = 0;
                    }
                    let x = ClientInfoRadiusCapabilities::new(m.radius, vec![PingExtensionType::Capabilities, PingExtensionType::BasicRadius]);
                    Response::Pong(Pong { enr_seq: m.seq, payload_type: PingExtensionType::Capabilities, payload: x.into() })
                } else {
                    Response::Pong(Pong { enr_seq: m.seq, payload_type: PingExtensionType::BasicRadius, payload: BasicRadius { data_radius: m.radius }.into() })
                }
            }
            Request::FindNodes(f) => {
                let mut enrs = vec![];
                if f.distances.contains(&0) && m.open {
                    enrs.push(own(m.seq));
                }
                for e in book.lock().iter() {
                    if e.node_id().raw() != me && f.distances.contains(&log2(&me, &e.node_id().raw())) {
                        enrs.push(e.clone());
                    }
                }
                // as many as fit into a packet
                if enrs.len() > 6 {
                    r.shuffle(&mut enrs);
                    enrs.truncate(6);
                }
                Response::Nodes(Nodes { total: 1, enrs: enrs.into_iter().map(ethportal_api::types::enr::SszEnr).collect() })
            }
            Request::FindContent(_) => Response::Content(Content::Enrs(vec![])),
            Request::Offer(o) => {
                let n = o.content_keys.len();
                match m.taste {
                    Taste::Take => return Act::Accept(vec![0; n]),
                    Taste::Slow => return Act::AcceptLate(Duration::from_secs(1), vec![0; n]),
                    Taste::Ghost => return Act::AcceptGhost(vec![0; n]),
                    Taste::Silent => return Act::Silent,
                    Taste::Decline(c) => Response::Accept(Accept { connection_id: 0, content_keys: vec![c; n].into() }),
                }
            }
            _ => return Act::Silent,
        })
    });
}
impl Town {
    pub fn found(r: &mut Rng, proto: &'static [u8]) -> Self {
        world::fresh(r);
        let mut key: [u8; 32] = r.array();
        key[0] = key[0].max(1);
        let k = discv5::enr::CombinedKey::secp256k1_from_bytes(&mut key.clone()).expect("key");
        let mut b = discv5::enr::Enr::builder();
        b.ip([10, 1, 2, 3].into()).udp4(9009).seq(1);
        Self { key, me: b.build(&k).expect("record"), proto, book: Default::default(), people: vec![] }
    }
    /// A new peer; those who know everybody know it only if it is `listed`.
    pub async fn join(&mut self, r: &mut Rng, radius: Distance, listed: bool) -> usize {
        let s = Scripted::near(Peer::random(r), self.me.clone(), self.proto, Versions::List(vec![0, 1])).await;
        let mood = Arc::new(Mutex::new(Mood { answering: Answering::Well, radius, seq: 1, open: true, taste: Taste::Take, missed: 0 }));
        think(&s, mood.clone(), self.book.clone());
        if listed {
            self.book.lock().push(s.enr.clone());
        }
        self.people.push(Citizen { s, mood });
        self.people.len() - 1
    }
    pub fn config(&self, boot: &[usize], more: &[&str]) -> BridgeConfig {
        let boot: Vec<String> = boot.iter().map(|i| self.people[*i].s.enr.to_base64()).collect();
        let net = match self.proto {
            HISTORY => "legacy_history",
            STATE => "state",
            _ => "beacon",
        };
        let boot = if boot.is_empty() { "none".into() } else { boot.join(",") };
        let key = format!("0x{}", vcommon::hex(&self.key));
        let mut args = vec!["bridge", "--portal-subnetwork", net, "--external-ip", "10.1.2.3:9009", "--private-key", &key, "--bootnodes", &boot];
        args.extend(more);
        BridgeConfig::try_parse_from(args).expect("a command line")
    }
    pub async fn open(&self, c: &BridgeConfig) -> SubnetworkOverlays {
        start_trin(c).await.expect("the bridge's node starts")
    }
    pub fn addr() -> SocketAddr {
        SocketAddr::from(([10, 1, 2, 3], 9009))
    }
    /// Waits, letting others work.
    pub async fn wait(&self, secs: u64) {
        clock::pass(Duration::from_secs(secs)).await;
    }
}
