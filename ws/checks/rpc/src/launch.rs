//! What is served where, from launch to stop.
use std::{collections::BTreeSet, sync::Arc};

use discv5::enr::NodeId;
use ethportal_api::types::{enr::Enr, network::Subnetwork};
use jsonrpsee::{served, Methods};
use portalnet::discovery::Discovery;
use rpc::{config::RpcConfig, RpcServerHandle};
use tokio::sync::mpsc;
use trin_utils::cli::Web3TransportType;
use vcommon::{json, Ctx, Rng, Value};

use crate::{peers::Peer, place};

const EACH: [&str; 18] = [
    "RoutingTableInfo", "Radius", "AddEnr", "GetEnr", "DeleteEnr", "LookupEnr", "Ping", "FindNodes", "RecursiveFindNodes", "FindContent", "GetContent", "TraceGetContent",
    "PaginateLocalContentKeys", "PutContent", "Offer", "TraceOffer", "Store", "LocalContent",
];
const BEACON: [&str; 6] = ["LightClientStore", "FinalizedStateRoot", "FinalizedHeader", "FinalityUpdate", "OptimisticUpdate", "OptimisticStateRoot"];
const ALWAYS: [&str; 12] = [
    "web3_clientVersion", "discv5_nodeInfo", "discv5_updateNodeInfo", "discv5_routingTableInfo", "discv5_addEnr", "discv5_getEnr", "discv5_deleteEnr", "discv5_lookupEnr",
    "discv5_recursiveFindNodes", "discv5_talkReq", "discv5_ping", "discv5_findNode",
];
const ETH: [&str; 7] = ["eth_chainId", "eth_getBlockByNumber", "eth_getBlockByHash", "eth_getBalance", "eth_getCode", "eth_getStorageAt", "eth_call"];

fn due(nets: &[Subnetwork]) -> BTreeSet<String> {
    let mut all: BTreeSet<String> = ALWAYS.iter().map(|s| s.to_string()).collect();
    for n in nets {
        let name = match n {
            Subnetwork::LegacyHistory => "legacyHistory",
            Subnetwork::State => "state",
            _ => "beacon",
        };
        all.extend(EACH.iter().map(|m| format!("portal_{name}{m}")));
        if *n == Subnetwork::Beacon {
            all.extend(BEACON.iter().map(|m| format!("portal_beacon{m}")));
        }
        if *n == Subnetwork::LegacyHistory {
            all.extend(ETH.iter().map(|m| m.to_string()));
        }
    }
    all
}
/// Methods of a kind that was not asked for.
fn foreign(m: &str, nets: &[Subnetwork]) -> bool {
    let has = |n| nets.contains(&n);
    (m.starts_with("eth_") || m.starts_with("portal_legacyHistory")) && !has(Subnetwork::LegacyHistory)
        || m.starts_with("portal_state") && !has(Subnetwork::State)
        || m.starts_with("portal_beacon") && !has(Subnetwork::Beacon)
}
fn sites() -> BTreeSet<(String, String)> {
    served::all().into_iter().map(|(k, s)| (k, s.kind.to_string())).collect()
}
async fn ask(m: &Methods, method: &str, p: Vec<Value>) -> place::Reply {
    m.call_value(method, p).await
}
/// What the answers about the node and the nodes it knows have to be.
async fn node(ctx: &mut Ctx, r: &mut Rng, m: &Methods, d: &Discovery, known: &mut Vec<Enr>) {
    let me = d.local_enr();
    let version = ask(m, "web3_clientVersion", vec![]).await;
    ctx.check(version.as_ref().is_ok_and(|v| v.as_str().is_some_and(|s| s.starts_with("trin"))), "version-wrong", || j!({"got": format!("{version:?}")}));
    let mut gone: Vec<NodeId> = vec![];
    let mut log: Vec<String> = vec![];
    for _ in 0..r.range(4, 24) {
        let what = r.below(6);
        log.push(what.to_string());
        ctx.eval("node call", &(log.clone(), me.node_id().raw()));
        macro_rules! ok {
            ($c:expr, $sig:expr, $got:expr) => {
                ctx.check($c, $sig, || j!({"history": log.clone(), "got": format!("{:?}", $got).replace("Array [], ", "").chars().take(1500).collect::<String>()}))
            };
        }
        match what {
            0 | 1 => {
                let e = Peer::random(r).enr;
                let got = ask(m, "discv5_addEnr", vec![json!(e)]).await;
                if ok!(got.as_ref().is_ok_and(|v| v.is_boolean()), "add-not-answered", got) && got.as_ref().is_ok_and(|v| *v == json!(true)) {
                    known.push(e);
                }
            }
            2 if !known.is_empty() => {
                let i = r.index(known.len());
                let id = known[i].node_id();
                let got = ask(m, "discv5_deleteEnr", vec![json!(id)]).await;
                ok!(got.as_ref().ok() == Some(&json!(true)), "delete-failed", got);
                known.remove(i);
                gone.push(id);
            }
            3 => {
                for e in known.iter() {
                    let got = ask(m, "discv5_getEnr", vec![json!(e.node_id())]).await;
                    ok!(got.as_ref().ok() == Some(&json!(e)), "record-wrong", got);
                }
                gone.push(Peer::random(r).enr.node_id());
                for id in &gone {
                    let got = ask(m, "discv5_getEnr", vec![json!(id)]).await;
                    ok!(got.is_err(), "record-of-nobody", got);
                    let got = ask(m, "discv5_deleteEnr", vec![json!(id)]).await;
                    ok!(got.as_ref().ok() == Some(&json!(false)), "deleted-nobody", got);
                }
            }
            4 => {
                let got = ask(m, "discv5_routingTableInfo", vec![]).await;
                let listed: BTreeSet<String> = got
                    .iter()
                    .flat_map(|v| v["buckets"].as_array().into_iter().flatten())
                    .flat_map(|b| b.as_array().or_else(|| b["nodeIds"].as_array()).into_iter().flatten())
                    .filter_map(|x| x.as_str().map(str::to_string))
                    .collect();
                let want: BTreeSet<String> = known.iter().filter_map(|e| json!(e.node_id()).as_str().map(str::to_string)).collect();
                ok!(listed == want, "table-wrong", got);
                ok!(got.as_ref().is_ok_and(|v| v["localNodeId"] == json!(me.node_id())), "own-name-wrong", got);
            }
            _ => {
                let before = d.local_enr();
                let at = format!("{}.{}.{}.{}:{}", r.range(1, 200), r.u8(), r.u8(), r.u8(), r.range(1, 65535));
                let odd = r.chance(1, 3);
                let text = if odd { r.pick(&["here", "1.2.3.4", "1.2.3.4:99999", ""]).to_string() } else { at.clone() };
                let got = ask(m, "discv5_updateNodeInfo", vec![json!(text), json!(false)]).await;
                let after = d.local_enr();
                if odd {
                    ok!(got.is_err() && after == before, "nonsense-address-taken", got);
                } else {
                    ok!(after.udp4_socket().is_some_and(|a| a.to_string() == at) && after.seq() > before.seq(), "address-not-taken", got);
                    ok!(got.as_ref().is_ok_and(|v| v["enr"] == json!(after) && v["nodeId"] == json!(me.node_id())), "own-record-wrong", got);
                }
                let got = ask(m, "discv5_nodeInfo", vec![]).await;
                ok!(got.as_ref().is_ok_and(|v| v["enr"] == json!(after) && v["ip"].as_str() == after.ip4().map(|i| i.to_string()).as_deref()), "own-record-wrong", got);
            }
        }
    }
    ctx.event("node asked");
}
async fn round(ctx: &mut Ctx, r: &mut Rng) {
    let mut nets: Vec<Subnetwork> = [Subnetwork::Beacon, Subnetwork::LegacyHistory, Subnetwork::State].into_iter().filter(|_| r.chance(2, 3)).collect();
    r.shuffle(&mut nets);
    let unsupported = r.chance(1, 8);
    let mut asked = nets.clone();
    if unsupported {
        asked.push(*r.pick(&[Subnetwork::History, Subnetwork::Utp, Subnetwork::CanonicalIndices, Subnetwork::VerkleState, Subnetwork::TransactionGossip]));
    }
    let (port, ws_port) = (place::port(), place::port());
    let shape = r.below(4);
    let path = format!("/nowhere/{}.ipc", r.u32());
    let (http, ws, one) = (shape > 0, shape > 1, shape == 3);
    let config = RpcConfig {
        web3_transport: if http { Web3TransportType::HTTP } else { Web3TransportType::IPC },
        web3_ipc_path: path.clone().into(),
        web3_http_address: if one { format!("http://0.0.0.0:{ws_port}/") } else { format!("http://127.0.0.1:{port}/") }.parse().expect("url"),
        ws,
        ws_port,
    };
    let mut want: BTreeSet<(String, String)> = BTreeSet::new();
    match shape {
        0 => want.extend([(format!("ipc:{path}"), "ipc".into())]),
        1 => want.extend([(format!("127.0.0.1:{port}"), "http".into())]),
        2 => want.extend([(format!("127.0.0.1:{port}"), "http".into()), (format!("0.0.0.0:{ws_port}"), "ws".into())]),
        _ => want.extend([(format!("0.0.0.0:{ws_port}"), "http+ws".into())]),
    }
    let before = sites();
    let names: Vec<&String> = want.iter().map(|w| &w.0).collect();
    let taken = r.chance(1, 4).then(|| r.pick(&names).to_string());
    let held = taken.as_ref().map(|t| served::claim(t, vec![]).expect("free"));
    let d = || j!({"networks": format!("{asked:?}"), "shape": shape, "taken": taken.clone(), "sites": format!("{:?}", sites())});
    ctx.eval("launch", &(format!("{asked:?}"), shape, taken.is_some()));
    let discovery = place::discovery(r);
    let (ht, mut hr) = mpsc::unbounded_channel();
    let (st, mut sr) = mpsc::unbounded_channel();
    let (bt, mut br) = mpsc::unbounded_channel();
    let has = |n| nets.contains(&n);
    let got = {
        let (h, s, b) = (has(Subnetwork::LegacyHistory).then_some(ht), has(Subnetwork::State).then_some(st), has(Subnetwork::Beacon).then_some(bt));
        let (asked, discovery) = (Arc::new(asked.clone()), discovery.clone());
        tokio::spawn(async move { rpc::launch_jsonrpc_server(config, asked, discovery, h, s, b).await }).await
    };
    let got = match got {
        Ok(x) => x,
        Err(_) => {
            ctx.violation("launch-died", d());
            return;
        }
    };
    let handle: RpcServerHandle = match got {
        Err(_) => {
            ctx.check(taken.is_some() || unsupported, "launch-failed", d);
            drop(held);
            ctx.check(sites() == before, "left-over-after-failed-launch", d);
            ctx.event(if taken.is_some() { "address taken" } else { "unsupported" });
            return;
        }
        Ok(h) => h,
    };
    if !ctx.check(taken.is_none() && !unsupported, "launched-all-the-same", d) {
        return;
    }
    let now: BTreeSet<_> = sites().difference(&before).cloned().collect();
    if !ctx.check(now == want, "served-elsewhere", || j!({"want": format!("{want:?}"), "served": format!("{now:?}")})) {
        return;
    }
    let (ha, wa) = (handle.http_local_addr().map(|a| a.to_string()), handle.ws_local_addr().map(|a| a.to_string()));
    let here = |kind: &str| want.iter().find(|w| w.1.contains(kind)).map(|w| w.0.clone());
    ctx.check(ha == here("http") && wa == here("ws"), "address-told-wrong", || j!({"http": ha, "ws": wa, "want": format!("{want:?}")}));
    let want_methods = due(&nets);
    let mut known = vec![];
    for (name, _) in &want {
        let Some(m) = served::at(name).and_then(|s| s.methods) else {
            ctx.violation("nothing-served", d());
            continue;
        };
        let names: BTreeSet<String> = m.method_names().into_iter().map(|s| s.to_string()).collect();
        let missing: Vec<_> = want_methods.difference(&names).collect();
        ctx.check(missing.is_empty(), "method-missing", || j!({"missing": missing, "networks": format!("{nets:?}")}));
        let foreign: Vec<_> = names.iter().filter(|n| foreign(n, &nets)).collect();
        ctx.check(foreign.is_empty(), "method-not-asked-for", || j!({"methods": foreign, "networks": format!("{nets:?}")}));
        ctx.event(&format!("served {}", nets.len()));
        node(ctx, r, &m, &discovery, &mut known).await;
        // each network answers behind each door
        let tag = r.u32();
        macro_rules! door {
            ($net:ident, $rx:ident, $method:literal) => {
                if has(Subnetwork::$net) {
                    let call = tokio::spawn(m.call_value($method, vec![json!(Peer::random(r).enr)]));
                    match $rx.recv().await {
                        Some(q) => {
                            let _ = q.resp.send(Err(format!("tag {tag}")));
                            let got = call.await.ok();
                            ctx.check(got.as_ref().is_some_and(|g| g.as_ref().is_err_and(|e| e.message().contains(&format!("tag {tag}")))), "wrong-network-behind-door", || j!({"got": format!("{got:?}")}));
                        }
                        None => {
                            ctx.violation("network-not-connected", d());
                        }
                    }
                } else {
                    let got = ask(&m, $method, vec![json!(Peer::random(r).enr)]).await;
                    ctx.check(got.as_ref().is_err_and(|e| e.code() == -32601), "absent-method-answered", || j!({"got": format!("{got:?}")}));
                }
            };
        }
        door!(LegacyHistory, hr, "portal_legacyHistoryAddEnr");
        door!(State, sr, "portal_stateAddEnr");
        door!(Beacon, br, "portal_beaconAddEnr");
    }
    // a second one cannot have the same places, and does not disturb the first
    if r.bool() {
        let other = handle.clone();
        drop(handle);
        ctx.check(sites().difference(&before).cloned().collect::<BTreeSet<_>>() == want, "stopped-early", d);
        drop(other);
        ctx.event("dropped");
    } else {
        let _ = handle.stop();
        ctx.event("stopped");
    }
    ctx.check(sites() == before, "still-served-after-stop", d);
}
pub fn services(ctx: &mut Ctx) {
    ctx.rule("exactly the methods of the enabled networks are served at the configured places from launch to stop; a failed launch leaves nothing; answers about the node and its table agree with what was done to them");
    ctx.level("launched service over recording transports");
    let rt = crate::rt();
    let mut r = ctx.rng.fork("launch");
    for _ in 0..ctx.n(300, 4000) {
        if ctx.saturated() {
            break;
        }
        rt.block_on(round(ctx, &mut r));
    }
    for k in ["served 0", "served 1", "served 2", "served 3", "address taken", "unsupported", "dropped", "stopped", "node asked"] {
        ctx.require(k, 2);
    }
}
