//! A served interface whose networks are played by the check.
use std::{
    collections::BTreeMap,
    sync::{
        atomic::{AtomicU64, Ordering::SeqCst},
        Arc,
    },
};

use ethportal_api::{
    types::{
        jsonrpc::{
            endpoints::{LegacyHistoryEndpoint, StateEndpoint},
            request::{BeaconJsonRpcRequest, LegacyHistoryJsonRpcRequest, StateJsonRpcRequest},
        },
        network::Subnetwork,
    },
    OverlayContentKey,
};
use jsonrpsee::{served, types::ErrorObjectOwned, Methods};
use parking_lot::Mutex;
use portalnet::{config::PortalnetConfig, discovery::Discovery};
use rpc::{config::RpcConfig, RpcServerHandle};
use serde_json::Value;
use tokio::sync::mpsc::{self, UnboundedReceiver};
use trin_utils::cli::Web3TransportType;
use vcommon::{hex, Rng};

pub type Reply = Result<Value, ErrorObjectOwned>;

pub fn discovery(r: &mut Rng) -> Arc<Discovery> {
    let mut secret: [u8; 32] = r.array();
    secret[0] = secret[0].max(1);
    Arc::new(
        Discovery::new(PortalnetConfig {
            external_addr: Some(([10, 1, 2, 3], 9000).into()),
            private_key: secret.into(),
            listen_port: 9000,
            bootnodes: vec![],
            no_upnp: true,
            ..Default::default()
        })
        .expect("discovery"),
    )
}
static PORT: AtomicU64 = AtomicU64::new(30_000);
/// An address nobody has been given.
pub fn port() -> u16 {
    PORT.fetch_add(1, SeqCst) as u16
}
pub fn http(port: u16) -> RpcConfig {
    RpcConfig {
        web3_transport: Web3TransportType::HTTP,
        web3_ipc_path: "/nowhere/at-all.ipc".into(),
        web3_http_address: format!("http://127.0.0.1:{port}/").parse().expect("url"),
        ws: false,
        ws_port: 1,
    }
}
pub struct Place {
    pub methods: Methods,
    pub handle: RpcServerHandle,
    pub history: Option<UnboundedReceiver<LegacyHistoryJsonRpcRequest>>,
    pub state: Option<UnboundedReceiver<StateJsonRpcRequest>>,
    pub beacon: Option<UnboundedReceiver<BeaconJsonRpcRequest>>,
}
/// Serves the networks over http.
pub async fn serve(r: &mut Rng, networks: &[Subnetwork]) -> Place {
    let (h, history) = mpsc::unbounded_channel();
    let (s, state) = mpsc::unbounded_channel();
    let (b, beacon) = mpsc::unbounded_channel();
    let has = |n| networks.contains(&n);
    let handle = rpc::launch_jsonrpc_server(
        http(port()),
        Arc::new(networks.to_vec()),
        discovery(r),
        has(Subnetwork::LegacyHistory).then_some(h),
        has(Subnetwork::State).then_some(s),
        has(Subnetwork::Beacon).then_some(b),
    )
    .await
    .expect("launches");
    let at = handle.http_local_addr().expect("an address").to_string();
    let methods = served::at(&at).expect("served").methods.expect("methods");
    Place { methods, handle, history: Some(history), state: Some(state), beacon: Some(beacon) }
}
impl Place {
    pub async fn call(&self, method: &str, params: Vec<Value>) -> Reply {
        self.methods.call_value(method, params).await
    }
}

/// How a content is withheld.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Fault {
    Refused,
    NotFound,
    Silent,
    Short,
    Nothing,
    Long,
    OtherShape,
}
pub const FAULTS: [Fault; 7] = [Fault::Refused, Fault::NotFound, Fault::Silent, Fault::Short, Fault::Nothing, Fault::Long, Fault::OtherShape];

/// What a network has, and what was asked of it.
#[derive(Default)]
pub struct Shelf {
    pub has: BTreeMap<Vec<u8>, Vec<u8>>,
    pub bad: BTreeMap<Vec<u8>, Fault>,
    pub asked: Vec<Vec<u8>>,
    pub odd: Vec<String>,
}
pub type Shared = Arc<Mutex<Shelf>>;
pub fn found(content: &[u8]) -> Value {
    vcommon::json!({"content": format!("0x{}", hex(content)), "utpTransfer": false})
}
pub fn not_found() -> String {
    j!({"message": "Unable to locate content on the network before timing out", "trace": null})
}
/// The answer to a request for a content; nothing if there is to be none.
fn answer(s: &Shared, key: &[u8]) -> Option<Result<Value, String>> {
    let mut s = s.lock();
    s.asked.push(key.to_vec());
    let c = s.has.get(key).cloned();
    Some(match (s.bad.get(key), c) {
        (None, Some(c)) => Ok(found(&c)),
        (None | Some(Fault::NotFound), _) => Err(not_found()),
        (Some(Fault::Silent), _) => return None,
        (Some(Fault::Refused), _) => Err("the network is busy".into()),
        (Some(Fault::Nothing), _) => Ok(found(&[])),
        (Some(Fault::OtherShape), _) => Ok(vcommon::json!({"enrs": []})),
        (Some(Fault::Short), c) => {
            let c = c.unwrap_or_default();
            Ok(found(&c[..c.len().min(3)]))
        }
        (Some(Fault::Long), _) => Ok(found(&[0xff; 70_000])),
    })
}
/// Answers requests for contents, several at a time in no particular order.
macro_rules! keeper {
    ($name:ident, $req:ty, $end:ident) => {
        pub async fn $name(mut rx: UnboundedReceiver<$req>, s: Shared, mut r: Rng) {
            let mut waiting: Vec<$req> = vec![];
            loop {
                if waiting.is_empty() {
                    let Some(m) = rx.recv().await else { return };
                    waiting.push(m);
                }
                for _ in 0..r.index(4) {
                    tokio::task::yield_now().await;
                }
                while let Ok(m) = rx.try_recv() {
                    waiting.push(m);
                }
                let i = r.index(waiting.len());
                let m = waiting.swap_remove(i);
                match m.endpoint {
                    $end::GetContent(k) => {
                        if let Some(a) = answer(&s, &k.to_bytes()) {
                            let _ = m.resp.send(a);
                        }
                    }
                    other => {
                        s.lock().odd.push(format!("{other:?}"));
                        let _ = m.resp.send(Err("not that".into()));
                    }
                }
            }
        }
    };
}
keeper!(keep_history, LegacyHistoryJsonRpcRequest, LegacyHistoryEndpoint);
keeper!(keep_state, StateJsonRpcRequest, StateEndpoint);
