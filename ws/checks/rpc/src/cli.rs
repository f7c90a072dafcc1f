//! What a command line means.
use alloy::primitives::U256;
use ethportal_api::types::{distance::Distance, enr::Enr, network::Subnetwork};
use portalnet::config::PortalnetConfig;
use rpc::config::RpcConfig;
use trin::{NodeRuntimeConfig, TrinConfig};
use trin_storage::config::StorageCapacityConfig;
use trin_utils::cli::Web3TransportType;
use vcommon::{hex, Ctx, Rng};

use crate::peers::Peer;

/// A command line and what a reader of the manual expects of it.
#[derive(Default)]
struct Line {
    args: Vec<Vec<String>>,
    /// why it is to be refused
    wrong: Vec<&'static str>,
    /// a text the refusal has to mention
    named: Option<String>,
}
impl Line {
    fn put(&mut self, r: &mut Rng, flag: &str, v: impl Into<String>) {
        let v = v.into();
        // a value that looks like a flag has to be joined
        self.args.push(if r.bool() || v.starts_with('-') || v.is_empty() { vec![format!("--{flag}={v}")] } else { vec![format!("--{flag}"), v] });
    }
    fn flag(&mut self, flag: &str) {
        self.args.push(vec![format!("--{flag}")]);
    }
    fn bad(&mut self, why: &'static str) {
        self.wrong.push(why);
    }
}
struct Want {
    http: bool,
    ipc_path: String,
    http_at: String,
    ws: bool,
    ws_port: u16,
    port: u16,
    boot: Option<Vec<Enr>>,
    outside: Option<std::net::SocketAddr>,
    no_stun: bool,
    no_upnp: bool,
    root: Option<[u8; 32]>,
    key: Option<[u8; 32]>,
    nets: Vec<Subnetwork>,
    total: Option<u32>,
    each: [Option<u32>; 3],
    metrics: Option<std::net::SocketAddr>,
    no_poke: bool,
    limit: usize,
    percent: u64,
    network: &'static str,
    dir: Option<String>,
    ephemeral: bool,
}
const NETS: [(&str, Subnetwork); 3] = [("beacon", Subnetwork::Beacon), ("legacy_history", Subnetwork::LegacyHistory), ("state", Subnetwork::State)];
fn hash(r: &mut Rng, line: &mut Line, flag: &str, odds: u64) -> Option<[u8; 32]> {
    let mut h: [u8; 32] = r.array();
    h[0] = h[0].clamp(1, 0x7f);
    let text = hex(&h);
    if r.below(odds) != 0 {
        line.put(r, flag, format!("0x{text}"));
        return Some(h);
    }
    line.bad("not a hash");
    let t = match r.below(5) {
        0 => text,
        1 => format!("0x{}", &text[..62]),
        2 => format!("0x{text}00"),
        3 => format!("{text}00"),
        _ => format!("0x{}zz", &text[..62]),
    };
    line.put(r, flag, t);
    None
}
fn make(r: &mut Rng, odds: u64) -> (Line, Want) {
    let mut line = Line::default();
    let l = &mut line;
    let bad = |r: &mut Rng| r.below(odds) == 0;
    let mut w = Want {
        http: false,
        ipc_path: "/tmp/trin-jsonrpc.ipc".into(),
        http_at: "http://127.0.0.1:8545/".into(),
        ws: false,
        ws_port: 8546,
        port: 9009,
        boot: None,
        outside: None,
        no_stun: false,
        no_upnp: false,
        root: None,
        key: None,
        nets: vec![Subnetwork::Beacon, Subnetwork::LegacyHistory],
        total: Some(1000),
        each: [None; 3],
        metrics: None,
        no_poke: false,
        limit: 50,
        percent: 5,
        network: "mainnet",
        dir: None,
        ephemeral: false,
    };
    match r.below(3) {
        0 => {}
        1 => l.put(r, "web3-transport", "ipc"),
        _ => {
            w.http = true;
            l.put(r, "web3-transport", "http");
        }
    }
    if bad(r) && l.args.is_empty() {
        let t = *r.pick(&["HTTP", "ws", "", "tcp"]);
        l.put(r, "web3-transport", t);
        l.bad("unknown transport");
    }
    if (w.http && r.bool()) || bad(r) {
        let port = r.range(1, 65535);
        w.http_at = if port == 80 { "http://127.0.0.1/".into() } else { format!("http://127.0.0.1:{port}/") };
        let t = if r.bool() { w.http_at.clone() } else { w.http_at.trim_end_matches('/').into() };
        l.put(r, "web3-http-address", t);
        if !w.http && port != 8545 {
            l.bad("http address without http");
        }
    } else if r.chance(1, 4) {
        l.put(r, "web3-http-address", w.http_at.clone());
    } else if bad(r) {
        let t = *r.pick(&["", "here", ":::"]);
        l.put(r, "web3-http-address", t);
        l.bad("not an address");
    }
    if (!w.http && r.bool()) || bad(r) {
        w.ipc_path = format!("/tmp/place-{}.ipc", r.u32());
        l.put(r, "web3-ipc-path", w.ipc_path.clone());
        if w.http {
            l.bad("ipc path without ipc");
        }
    } else if r.chance(1, 4) {
        l.put(r, "web3-ipc-path", w.ipc_path.clone());
    }
    if (w.http && r.bool()) || bad(r) {
        w.ws = true;
        l.flag("ws");
        if !w.http {
            l.bad("ws without http");
        }
    }
    if (w.ws && r.bool()) || bad(r) {
        w.ws_port = r.u32() as u16;
        l.put(r, "ws-port", w.ws_port.to_string());
        if !w.ws {
            l.bad("ws port without ws");
        }
    }
    if r.bool() {
        w.port = r.u32() as u16;
        l.put(r, "discovery-port", w.port.to_string());
    } else if bad(r) {
        let t = *r.pick(&["65536", "-1", "", "port"]);
        l.put(r, "discovery-port", t);
        l.bad("not a port");
    }
    match r.below(5) {
        0 => l.put(r, "bootnodes", "default"),
        1 => {
            w.boot = Some(vec![]);
            l.put(r, "bootnodes", "none");
        }
        2 => {
            let v: Vec<Enr> = (0..r.range(1, 4)).map(|_| Peer::random(r).enr).collect();
            l.put(r, "bootnodes", v.iter().map(|e| e.to_base64()).collect::<Vec<_>>().join(","));
            w.boot = Some(v);
        }
        3 if bad(r) => {
            let e = Peer::random(r).enr.to_base64();
            let t = match r.below(3) {
                0 => format!("{e},"),
                1 => format!("{e},{}", &e[..e.len() - 9]),
                _ => "None".into(),
            };
            l.put(r, "bootnodes", t);
            l.bad("not records");
        }
        _ => {}
    }
    if r.bool() {
        let a = std::net::SocketAddr::from((r.array::<4>(), r.u32() as u16));
        w.outside = Some(a);
        l.put(r, "external-address", a.to_string());
    }
    if (w.outside.is_none() && r.bool()) || bad(r) {
        w.no_stun = true;
        l.flag("no-stun");
        if w.outside.is_some() {
            l.bad("address given and not wanted");
        }
    }
    if r.bool() {
        w.no_upnp = true;
        l.flag("no-upnp");
    }
    if r.chance(1, 3) {
        w.key = hash(r, l, "unsafe-private-key", odds);
    }
    if r.chance(1, 3) {
        w.root = hash(r, l, "trusted-block-root", odds);
    }
    if r.bool() {
        w.network = *r.pick(&["mainnet", "angelfood", "sepolia"]);
        l.put(r, "network", w.network);
    } else if bad(r) {
        let t = *r.pick(&["Mainnet", "", "goerli"]);
        l.put(r, "network", t);
        l.bad("unknown network");
        l.named = (!t.is_empty()).then(|| t.to_string());
    }
    if r.chance(2, 3) {
        let n = r.range(1, 4) as usize;
        let mut picked: Vec<usize> = (0..n.min(3)).collect();
        if bad(r) {
            // something that needs another one, alone
            picked = if r.bool() { vec![1] } else { r.pick(&[vec![2], vec![2, 0], vec![1, 2]]).clone() };
            l.bad("dependency missing");
        }
        r.shuffle(&mut picked);
        let mut text: Vec<String> = picked.iter().map(|i| NETS[*i].0.to_string()).collect();
        w.nets = picked.iter().map(|i| NETS[*i].1).collect();
        if bad(r) {
            let t = *r.pick(&["history", "canonical_indices", "verkle_state", "transaction_gossip", "utp", "nonsense", ""]);
            let at = r.index(text.len() + 1);
            text.insert(at, t.into());
            l.bad("no such subnetwork");
            l.named = (!t.is_empty()).then(|| t.to_string());
        }
        l.put(r, "portal-subnetworks", text.join(","));
    }
    match r.below(3) {
        0 => {
            let n = *r.pick(&[0, 1, 2, 100, 1000, u32::MAX]);
            w.total = Some(n);
            let f = *r.pick(&["storage.total", "mb"]);
            l.put(r, f, n.to_string());
        }
        1 => {
            w.total = None;
            for (i, (name, net)) in NETS.iter().enumerate() {
                let enabled = w.nets.contains(net);
                if enabled != bad(r) {
                    let n = *r.pick(&[0, 1, 7, 1000, u32::MAX]);
                    w.each[i] = Some(n);
                    l.put(r, &format!("storage.{name}"), n.to_string());
                }
            }
            if w.each.iter().all(|e| e.is_none()) {
                w.total = Some(1000);
            } else if NETS.iter().zip(w.each).any(|((_, n), e)| w.nets.contains(n) != e.is_some()) {
                l.bad("storage not for what is enabled");
            }
            if w.total.is_none() && bad(r) {
                l.put(r, "storage.total", "1000");
                l.bad("storage twice");
            }
        }
        _ if bad(r) => {
            let t = *r.pick(&["4294967296", "-1", "1.5", "", "1gb"]);
            l.put(r, "storage.total", t);
            l.bad("not a size");
        }
        _ => {}
    }
    if r.chance(1, 3) {
        let a = std::net::SocketAddr::from((r.array::<4>(), r.u32() as u16));
        w.metrics = Some(a);
        l.put(r, "enable-metrics-with-url", a.to_string());
    }
    if r.chance(1, 3) {
        let d = format!("/nowhere/data-{}", r.u32());
        l.put(r, "data-dir", d.clone());
        w.dir = Some(d);
    }
    if r.chance(1, 3) {
        w.ephemeral = true;
        l.args.push(vec![r.pick(&["-e", "--ephemeral"]).to_string()]);
    }
    if r.chance(1, 3) {
        w.no_poke = true;
        l.flag("disable-poke");
    }
    if r.chance(1, 3) {
        w.limit = *r.pick(&[0, 1, 50, 51, 100_000]);
        l.put(r, "utp-transfer-limit", w.limit.to_string());
    }
    if r.chance(2, 3) {
        w.percent = *r.pick(&[0, 1, 5, 50, 99, 100]);
        if r.bool() {
            w.percent = r.below(101);
        }
        l.put(r, "max-radius", w.percent.to_string());
    } else if bad(r) {
        let t = *r.pick(&["101", "-1", "x", "5%", "115792089237316195423570985008687907853269984665640564039457584007913129639936"]);
        l.put(r, "max-radius", t);
        l.bad("not a share");
    }
    if bad(r) {
        let t = *r.pick(&["--no-such-thing", "extra"]);
        l.args.push(vec![t.into()]);
        l.bad("unknown argument");
    }
    r.shuffle(&mut line.args);
    (line, w)
}

pub fn lines(ctx: &mut Ctx) {
    ctx.rule("a command line is accepted exactly if its parts are well formed and go together, and every part of the accepted one reaches the node");
    ctx.level("parsing of generated command lines and the configurations derived from them");
    let mut r = ctx.rng.fork("cli");
    let official: Vec<Vec<Enr>> = ["mainnet", "angelfood", "sepolia"]
        .iter()
        .map(|n| TrinConfig::new_from(["trin", "--network", n]).expect("a network").as_portalnet_config(Default::default()).bootnodes)
        .collect();
    ctx.check(official[0].len() > 3 && !official[1].is_empty() && official[0] != official[1], "no-built-in-peers", || j!({"peers": official.iter().map(|o| o.len()).collect::<Vec<_>>()}));
    for i in 0..ctx.n(6000, 150_000) {
        if ctx.saturated() {
            break;
        }
        let (line, w) = make(&mut r, if i % 2 == 0 { 60 } else { 400 });
        let args: Vec<String> = std::iter::once("trin".to_string()).chain(line.args.iter().flatten().cloned()).collect();
        ctx.eval("line", &args);
        let d = || j!({"args": args.clone(), "wrong": line.wrong.clone()});
        let Some(got) = ctx.no_panic("panic-on-command-line", d, || TrinConfig::new_from(&args)) else { continue };
        let c = match got {
            Ok(c) => c,
            Err(e) => {
                for x in &line.wrong {
                    ctx.event(x);
                }
                ctx.check(!line.wrong.is_empty(), "good-line-refused", || j!({"args": args.clone(), "error": e.to_string()}));
                if let ([_], Some(n)) = (&line.wrong[..], &line.named) {
                    ctx.check(e.to_string().contains(n.as_str()), "refusal-does-not-name-the-value", || j!({"args": args.clone(), "error": e.to_string()}));
                }
                continue;
            }
        };
        if !ctx.check(line.wrong.is_empty(), "bad-line-accepted", d) {
            continue;
        }
        ctx.event("accepted");
        let seen: [u8; 32] = r.array();
        let PortalnetConfig { external_addr, private_key, listen_port, bootnodes, no_stun, no_upnp, disable_poke, trusted_block_root, utp_transfer_limit, .. } = c.as_portalnet_config(seen.into());
        let dir = std::path::PathBuf::from("/nowhere/node");
        let n: NodeRuntimeConfig = c.as_node_runtime_config(dir.clone());
        let rc = RpcConfig::from(&c);
        let boot = match &w.boot {
            Some(b) => b,
            None => &official[["mainnet", "angelfood", "sepolia"].iter().position(|x| *x == w.network).expect("known")],
        };
        let storage = match w.total {
            Some(total_mb) => StorageCapacityConfig::Combined { total_mb, subnetworks: w.nets.clone() },
            None => StorageCapacityConfig::Specific { beacon_mb: w.each[0], legacy_history_mb: w.each[1], state_mb: w.each[2] },
        };
        // the share of all distances, give or take rounding
        let share = U256::MAX / U256::from(10_000) * U256::from(w.percent * 100);
        let radius = match w.percent {
            100 => n.max_radius == Distance::MAX,
            p => {
                let x = U256::from_be_bytes(n.max_radius.to_be_bytes::<32>());
                let gap = if x > share { x - share } else { share - x };
                gap < U256::from(1_000_000) && (p != 0 || x == U256::ZERO)
            }
        };
        for (what, ok) in [
            ("outside address", external_addr == w.outside),
            ("key handed on", private_key.0 == seen),
            ("own key", c.private_key.map(|k| k.0) == w.key),
            ("port", listen_port == w.port),
            ("first peers", bootnodes == *boot),
            ("stun", no_stun == w.no_stun),
            ("upnp", no_upnp == w.no_upnp),
            ("poke", disable_poke == w.no_poke),
            ("trusted root", trusted_block_root.map(|k| k.0) == w.root),
            ("transfers", utp_transfer_limit == w.limit),
            ("subnetworks", *n.portal_subnetworks == w.nets),
            ("storage", n.storage_capacity_config == storage),
            ("radius", radius),
            ("metrics", n.enable_metrics_with_url == w.metrics),
            ("node directory", n.node_data_dir == dir),
            ("transport", rc.web3_transport == if w.http { Web3TransportType::HTTP } else { Web3TransportType::IPC }),
            ("ipc path", rc.web3_ipc_path == std::path::Path::new(&w.ipc_path)),
            ("http address", rc.web3_http_address.as_str() == w.http_at),
            ("ws", rc.ws == w.ws),
            ("ws port", rc.ws_port == w.ws_port),
            ("data directory", c.data_dir.as_deref() == w.dir.as_deref().map(std::path::Path::new)),
            ("ephemeral", c.ephemeral == w.ephemeral),
            ("network", c.network.network().to_string() == w.network),
        ] {
            ctx.check(ok, &format!("argument-lost: {what}"), d);
        }
    }
    for k in ["accepted", "not a hash", "dependency missing", "no such subnetwork", "storage twice", "storage not for what is enabled", "ws without http", "http address without http", "ipc path without ipc", "ws port without ws", "not records", "address given and not wanted", "unknown network", "not a share"] {
        ctx.require(k, 3);
    }
}
