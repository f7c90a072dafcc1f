//! L05: where light client data comes from: the beacon API over HTTP and the Portal network.
use std::sync::{Arc, Mutex};

use ethportal_api::{BeaconContentKey, OverlayContentKey};
use light_client::consensus::rpc::{nimbus_rpc::NimbusRpc, portal_rpc::PortalRpc, ConsensusRpc};
use oracle::schema::{self, Fork, FORKS, T};
use portalnet::overlay::command::OverlayCommand;
use ssz::Encode;
use tokio::sync::mpsc;
use vcommon::{hex, json, Ctx, Rng, Value};

use crate::clock;

fn spoil(r: &mut Rng, v: &mut Value) {
    // walks to some member and drops or replaces it
    match v {
        Value::Object(m) if !m.is_empty() => {
            let k = m.keys().nth(r.index(m.len())).unwrap().clone();
            if r.chance(1, 3) {
                if r.bool() {
                    m.remove(&k);
                } else {
                    m[&k] = json!([]);
                }
            } else {
                spoil(r, &mut m[&k]);
            }
        }
        Value::Array(a) if !a.is_empty() => {
            if r.chance(1, 3) {
                a.pop();
            } else {
                let i = r.index(a.len());
                spoil(r, &mut a[i]);
            }
        }
        Value::String(s) => {
            if r.bool() || s.is_empty() {
                s.push('z');
            } else {
                s.pop();
            }
        }
        other => *other = json!({"x": 1}),
    }
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum What {
    Boot,
    Updates,
    Finality,
    Optimistic,
}
fn shape(w: What, f: Fork) -> T {
    match w {
        What::Boot => schema::lc_bootstrap(f),
        What::Updates => schema::lc_update(f),
        What::Finality => schema::lc_finality_update(f),
        What::Optimistic => schema::lc_optimistic_update(f),
    }
}
const KINDS: [What; 4] = [What::Boot, What::Updates, What::Finality, What::Optimistic];

pub fn answers(ctx: &mut Ctx) {
    ctx.rule("a source asks for exactly the object it is asked for and returns what the other side holds, or an error if that is not such an object");
    let mut r = ctx.rng.fork("sources");
    for _ in 0..ctx.n(150, 1500) {
        if ctx.saturated() {
            break;
        }
        http(ctx, &mut r);
        portal(ctx, &mut r);
    }
    reqwest::answered_by(None);
    ctx.require("http-object", 40);
    ctx.require("http-spoilt", 10);
    ctx.require("portal-object", 30);
    ctx.require("portal-other-fork", 10);
    ctx.require("portal-missing", 5);
    ctx.require("portal-spoilt", 5);
}

fn http(ctx: &mut Ctx, r: &mut Rng) {
    let w = *r.pick(&KINDS);
    let t = shape(w, Fork::Electra);
    let n = if w == What::Updates { r.usize_in(0, 3) } else { 1 };
    let values: Vec<_> = (0..n).map(|_| t.gen(r, 4)).collect();
    let want: Vec<Vec<u8>> = values.iter().map(|v| t.ser(v)).collect();
    let one = |v| json!({"version": "electra", "data": t.json(v)});
    let mut doc = if w == What::Updates { values.iter().map(one).collect() } else { one(&values[0]) };
    let fate = r.below(8);
    let spoilt = fate < 2 && n > 0;
    if spoilt {
        let d = if w == What::Updates { &mut doc[r.index(n)]["data"] } else { &mut doc["data"] };
        spoil(r, d);
    }
    let root: [u8; 32] = r.array();
    let (period, count) = (r.below(3000), r.range(1, 255) as u8);
    let url = match w {
        What::Boot => format!("http://b.test/eth/v1/beacon/light_client/bootstrap/0x{}", hex(&root)),
        What::Updates => format!("http://b.test/eth/v1/beacon/light_client/updates?start_period={period}&count={}", count.min(128)),
        What::Finality => "http://b.test/eth/v1/beacon/light_client/finality_update".into(),
        What::Optimistic => "http://b.test/eth/v1/beacon/light_client/optimistic_update".into(),
    };
    let asked = Arc::new(Mutex::new(vec![]));
    let a = asked.clone();
    let text = doc.to_string().into_bytes();
    reqwest::answered_by(Some(Arc::new(move |m, u, _| {
        a.lock().unwrap().push(format!("{m} {u}"));
        match fate {
            2 => None,
            3 => Some((500, b"{\"code\":500}".to_vec())),
            _ => Some((200, text.clone())),
        }
    })));
    let rpc = NimbusRpc::new("http://b.test");
    ctx.eval("http", &(format!("{w:?}"), want.clone(), fate));
    let what = || j!({"kind": format!("{w:?}"), "fate": fate, "items": n});
    let got = ctx.no_panic("panic-on-http-answer", what, || {
        clock::simulate(async {
            match w {
                What::Boot => rpc.get_bootstrap(root.into()).await.map(|b| vec![b.as_ssz_bytes()]),
                What::Updates => rpc.get_updates(period, count).await.map(|v| v.iter().map(|u| u.as_ssz_bytes()).collect()),
                What::Finality => rpc.get_finality_update().await.map(|u| vec![u.as_ssz_bytes()]),
                What::Optimistic => rpc.get_optimistic_update().await.map(|u| vec![u.as_ssz_bytes()]),
            }
        })
    });
    let Some(got) = got else { return };
    let asked = asked.lock().unwrap().clone();
    ctx.check(asked == vec![format!("GET {url}")], "http-request-wrong", || j!({"asked": asked, "expected": url}));
    match fate {
        2 | 3 => {
            ctx.event("http-failed");
            ctx.check(got.is_err(), "http-failure-not-reported", what);
        }
        _ if spoilt => {
            ctx.event("http-spoilt");
            // whatever is made of it must not be passed off as the object that was not sent
            ctx.check(got.is_err() || got.as_ref().is_ok_and(|g| *g != want), "http-spoilt-taken", what);
        }
        _ => {
            ctx.event("http-object");
            let e = got.as_ref().err().map(|e| e.to_string());
            ctx.check(got.as_ref().is_ok_and(|g| *g == want), "http-object-changed", || format!("{} {e:?}", what()));
        }
    }
}
fn portal(ctx: &mut Ctx, r: &mut Rng) {
    let w = *r.pick(&KINDS);
    let n = if w == What::Updates { r.usize_in(1, 3) } else { 1 };
    let forks: Vec<Fork> = (0..n).map(|_| if r.chance(1, 4) { *r.pick(&FORKS) } else { Fork::Electra }).collect();
    let bodies: Vec<Vec<u8>> = forks.iter().map(|f| { let t = shape(w, *f); let v = t.gen(r, 4); t.ser(&v) }).collect();
    let framed: Vec<Vec<u8>> = forks.iter().zip(&bodies).map(|(f, b)| [f.digest().to_vec(), b.clone()].concat()).collect();
    let mut value = if w == What::Updates { oracle::ssz::var_list(&framed) } else { framed[0].clone() };
    let fate = r.below(10);
    if fate == 0 {
        // cut short, or with a fork that does not exist
        if r.bool() {
            value.truncate(r.index(value.len()));
        } else {
            let at = if w == What::Updates { 4 * n } else { 0 };
            value[at..at + 4].copy_from_slice(&[1, 2, 3, 4]);
        }
    }
    let (tx, mut rx) = mpsc::unbounded_channel();
    let rpc = PortalRpc::with_portal(tx);
    let root: [u8; 32] = r.array();
    let (period, count) = (r.below(3000), n as u8);
    let now = 11_700_000 + r.below(3_000_000);
    clock::set(1606824023 + now * 12 + r.below(12));
    ctx.eval("portal", &(format!("{w:?}{forks:?}"), value.clone(), fate));
    let what = || j!({"kind": format!("{w:?}"), "forks": format!("{forks:?}"), "fate": fate});
    let v = value.clone();
    let got = ctx.no_panic("panic-on-portal-answer", what, || {
        clock::simulate(async move {
            let h = tokio::spawn(async move {
                let mut keys: Vec<Vec<u8>> = vec![];
                while let Some(c) = rx.recv().await {
                    if let OverlayCommand::FindContentQuery { target, callback, .. } = c {
                        keys.push(BeaconContentKey::to_bytes(&target).to_vec());
                        match fate {
                            1 => drop(callback),
                            2 => {
                                let _ = callback.send(Err(portalnet::overlay::errors::OverlayRequestError::Timeout));
                            }
                            _ => {
                                let _ = callback.send(Ok((v.clone().into(), false, None)));
                            }
                        }
                    }
                }
                keys
            });
            let got = match w {
                What::Boot => rpc.get_bootstrap(root.into()).await.map(|b| vec![b.as_ssz_bytes()]),
                What::Updates => rpc.get_updates(period, count).await.map(|v| v.iter().map(|u| u.as_ssz_bytes()).collect()),
                What::Finality => rpc.get_finality_update().await.map(|u| vec![u.as_ssz_bytes()]),
                What::Optimistic => rpc.get_optimistic_update().await.map(|u| vec![u.as_ssz_bytes()]),
            };
            drop(rpc);
            (got, h.await.expect("peer"))
        })
    });
    let Some((got, keys)) = got else { return };
    let key = match w {
        What::Boot => [vec![0x10], root.to_vec()].concat(),
        What::Updates => [vec![0x11], period.to_le_bytes().to_vec(), (count as u64).to_le_bytes().to_vec()].concat(),
        What::Finality => [vec![0x12], vec![0; 8]].concat(),
        What::Optimistic => [vec![0x13], now.to_le_bytes().to_vec()].concat(),
    };
    ctx.check(keys == vec![key.clone()], "portal-key-wrong", || j!({"asked": keys.iter().map(|k| hex(k)).collect::<Vec<_>>(), "expected": hex(&key)}));
    ctx.sample("portal", || json!({"case": what(), "asked": hex(&key), "returned": got.is_ok()}));
    let ok = got.as_ref().is_ok_and(|g| *g == bodies);
    match fate {
        0 => {
            ctx.event("portal-spoilt");
            ctx.check(!ok, "portal-spoilt-taken", what);
        }
        1 | 2 => {
            ctx.event("portal-missing");
            ctx.check(got.is_err(), "portal-failure-not-reported", what);
        }
        _ if forks.iter().any(|f| *f != Fork::Electra) => {
            ctx.event("portal-other-fork");
            ctx.check(got.is_err(), "object-of-other-fork-taken", what);
        }
        _ => {
            ctx.event("portal-object");
            let e = got.as_ref().err().map(|e| e.to_string());
            ctx.check(ok, "portal-object-changed", || format!("{} {e:?}", what()));
        }
    }
}
