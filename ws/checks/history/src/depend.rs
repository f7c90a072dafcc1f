//! Bodies and receipts that reach a running node before, after or without their header.
use std::{
    collections::{BTreeMap, BTreeSet},
    sync::{Arc, Mutex},
    time::Duration,
};

use ethportal_api::types::{
    distance::Distance,
    ping_extensions::{extension_types::PingExtensionType, extensions::type_2::HistoryRadius},
    portal_wire::{Content, Offer, Pong, Request, Response},
};
use oracle::exec::{Block, Era};
use vcommon::{hex, json, Ctx, Rng};

use crate::{
    blocks::{body, by_hash, header_content, key, receipts, Proven},
    clock,
    header::World,
    serve::{chain, false_header, start, Node},
    sub::{Call, Ground},
    world::{frame, fresh, message, polite, uncode, Act, Scripted},
};

type Shelf = Arc<Mutex<BTreeMap<Vec<u8>, Vec<u8>>>>;

fn equip(p: &Scripted, shelf: Shelf) {
    p.think(move |q| match q {
        Request::Ping(_) => Act::Reply(Response::Pong(Pong {
            enr_seq: 1,
            payload_type: PingExtensionType::HistoryRadius,
            payload: HistoryRadius { data_radius: Distance::MAX, ephemeral_header_count: 0 }.into(),
        })),
        Request::FindContent(f) => match shelf.lock().unwrap().get(&f.content_key.to_vec()) {
            Some(v) if v.len() < 900 => Act::Reply(Response::Content(Content::Content(v.clone().into()))),
            Some(v) => Act::Serve(frame(&[v.clone()])),
            None => polite(Distance::MAX, 1, q),
        },
        _ => polite(Distance::MAX, 1, q),
    });
}
async fn local(node: &Node, k: &[u8]) -> Option<Option<Vec<u8>>> {
    match node.call(Call::LocalContent(key(k))).await? {
        Ok(v) => Some(Some(vcommon::unhex(v.as_str()?.trim_start_matches("0x")))),
        Err(_) => Some(None),
    }
}
/// One thing that is offered, with the truth about it.
struct Item {
    key: Vec<u8>,
    sent: Vec<u8>,
    right: bool,
    header: Vec<u8>,
    truth: Vec<u8>,
    reachable: bool,
    place: &'static str,
}
async fn world(ctx: &mut Ctx, r: &mut Rng) {
    let (w, list): (World, Vec<Proven>) = chain(r, 7);
    let ground = Ground::new(r).await;
    let node = start(r, ground, &w).await;
    let mut peers: Vec<Scripted> = vec![];
    let mut shelves: Vec<Shelf> = vec![];
    for _ in 0..r.range(2, 4) {
        let p = node.peer(r).await;
        let shelf = Shelf::default();
        equip(&p, shelf.clone());
        for c in [Call::AddEnr(p.enr.clone()), Call::Ping(p.enr.clone(), None, None)] {
            let got = node.call(c).await;
            if !ctx.check(matches!(got, Some(Ok(_))), "peer-not-met", || format!("{got:?}")) {
                return;
            }
        }
        peers.push(p);
        shelves.push(shelf);
    }
    // what the node is known to hold
    let mut held: BTreeMap<Vec<u8>, Vec<u8>> = BTreeMap::new();
    let truths: BTreeMap<Vec<u8>, Vec<u8>> = list
        .iter()
        .flat_map(|p| {
            let h = p.block.header.hash();
            [(by_hash(&h), header_content(&p.claim)), (body(&h), p.block.body_ssz()), (receipts(&h), p.block.receipts_ssz())]
        })
        .collect();
    for _ in 0..r.range(3, 8) {
        if ctx.saturated() {
            return;
        }
        for s in &shelves {
            s.lock().unwrap().clear();
        }
        for p in &peers {
            p.log.lock().clear();
        }
        let mut items: Vec<Item> = vec![];
        let mut used = BTreeSet::new();
        for _ in 0..r.range(1, 3) {
            let p = r.pick(&list);
            let h = p.block.header.hash();
            let header = by_hash(&h);
            let truth = header_content(&p.claim);
            let is_body = r.bool();
            let k = if is_body { body(&h) } else { receipts(&h) };
            if held.contains_key(&k) || !used.insert(h) {
                continue;
            }
            let what = |b: &Block| if is_body { b.body_ssz() } else { b.receipts_ssz() };
            let mut sent = what(&p.block);
            match r.below(6) {
                0 => sent = what(&Block::random(r, Era::Shanghai, 5)),
                1 => {
                    let i = r.index(sent.len().max(1)).min(sent.len().saturating_sub(1));
                    if let Some(b) = sent.get_mut(i) {
                        *b ^= 1 << r.below(8);
                    }
                }
                _ => {}
            }
            let right = sent == what(&p.block);
            let at = r.index(peers.len());
            let there = held.contains_key(&header);
            let place = match r.below(6) {
                _ if there => "known",
                0 => {
                    let got = node.call(Call::Store(key(&header), ethportal_api::ContentValue::decode(&key(&header), &truth).expect("harness header"))).await;
                    if !ctx.check(got == Some(Ok(json!(true))), "header-not-stored", || format!("{got:?}")) {
                        return;
                    }
                    held.insert(header.clone(), truth.clone());
                    "stored"
                }
                1 | 2 => {
                    shelves[at].lock().unwrap().insert(header.clone(), truth.clone());
                    "at a peer"
                }
                3 => {
                    for s in &shelves {
                        let f = if r.bool() { false_header(r, p, &w) } else { header_content(&r.pick(&list).claim) };
                        if f != truth {
                            s.lock().unwrap().insert(header.clone(), f);
                        }
                    }
                    "false ones at peers"
                }
                4 if peers.len() > 1 => {
                    for s in &shelves {
                        s.lock().unwrap().insert(header.clone(), false_header(r, p, &w));
                    }
                    shelves[at].lock().unwrap().insert(header.clone(), truth.clone());
                    "false ones at peers and a true one"
                }
                _ => "nowhere",
            };
            let reachable = !matches!(place, "nowhere" | "false ones at peers");
            items.push(Item { key: k, sent, right, header, truth, reachable, place });
        }
        if items.is_empty() {
            continue;
        }
        let told = |items: &[Item]| json!(items.iter().map(|i| json!({"key": hex(&i.key), "sent": hex(&i.sent), "right": i.right, "header": i.place})).collect::<Vec<_>>());
        let by = r.index(peers.len());
        let looked_up = r.chance(1, 4);
        if looked_up {
            // the node is asked to find it itself
            for i in &items {
                shelves[by].lock().unwrap().insert(i.key.clone(), i.sent.clone());
            }
            for i in &items {
                ctx.eval("looked up", &(&i.key, &i.sent, i.place));
                let got = node.call(Call::GetContent(key(&i.key))).await;
                let Some(got) = got else {
                    ctx.violation("lookup-not-answered", told(&items).to_string());
                    return;
                };
                let want = i.right && i.reachable;
                let ok = match &got {
                    Ok(v) => want && v["content"] == json!(format!("0x{}", hex(&i.sent))),
                    Err(_) => !want,
                };
                if !ctx.check(ok, "lookup-answer-wrong", || j!({"items": told(&items), "key": hex(&i.key), "got": format!("{got:?}")})) {
                    return;
                }
            }
        } else {
            let ans = peers[by].ask(Request::Offer(Offer { content_keys: items.iter().map(|i| i.key.clone().into()).collect() })).await;
            let Some(Response::Accept(a)) = ans.as_deref().and_then(message) else {
                ctx.violation("offer-not-answered", told(&items).to_string());
                return;
            };
            let codes = uncode(1, &a.content_keys);
            if !ctx.check(codes == Some(vec![0; items.len()]), "wanted-content-not-accepted", || j!({"items": told(&items), "codes": format!("{codes:?}")})) {
                return;
            }
            for i in &items {
                ctx.eval("offered", &(&i.key, &i.sent, i.place));
            }
            let _ = peers[by].send_stream(u16::from_be(a.connection_id), frame(&items.iter().map(|i| i.sent.clone()).collect::<Vec<_>>()), true).await;
            clock::pass(Duration::from_secs(4)).await;
        }
        clock::pass(Duration::from_secs(2)).await;
        for i in &items {
            let Some(got) = local(&node, &i.key).await else {
                ctx.violation("call-not-answered", String::new());
                return;
            };
            let want = i.right && i.reachable;
            let name = format!("{}, header {}", if i.right { "right" } else { "wrong" }, i.place);
            ctx.event(&name);
            if want {
                // with something wrong beside it in the same transfer a peer may be turned away altogether
                let alone = looked_up || items.iter().all(|i| i.right && i.reachable);
                if !ctx.check(got.as_ref() == Some(&i.sent) || (!alone && got.is_none()), "proven-content-not-kept", || j!({"items": told(&items), "key": hex(&i.key)})) {
                    return;
                }
                if !alone && got.is_some() {
                    ctx.event("kept beside something wrong");
                }
            } else if !ctx.check(got.is_none(), "unproven-content-kept", || j!({"items": told(&items), "key": hex(&i.key), "kept": got.as_ref().map(|g| hex(g))})) {
                return;
            }
            if got.is_some() {
                held.insert(i.key.clone(), i.sent.clone());
            }
            let header = local(&node, &i.header).await.flatten();
            if !ctx.check(header.is_none() || header.as_ref() == Some(&i.truth), "false-header-kept", || j!({"items": told(&items), "kept": header.as_ref().map(|g| hex(g))})) {
                return;
            }
            if !ctx.check(header.is_some() || !held.contains_key(&i.header), "header-lost", || told(&items).to_string()) {
                return;
            }
            if header.is_some() {
                held.insert(i.header.clone(), i.truth.clone());
            }
        }
        // whatever is passed on is held
        for p in &peers {
            for l in p.log.lock().iter() {
                let Request::Offer(o) = &l.1 else { continue };
                for k in &o.content_keys {
                    let k = k.to_vec();
                    ctx.event("passed on");
                    if !ctx.check(held.get(&k).is_some_and(|v| truths.get(&k) == Some(v)), "unproven-content-passed-on", || j!({"items": told(&items), "key": hex(&k)})) {
                        return;
                    }
                }
            }
        }
        ctx.sample("step", || told(&items));
        // a failed transfer leaves its mark for a while
        clock::pass(Duration::from_secs(if items.iter().all(|i| i.right && i.reachable) { 1 } else { 70 })).await;
    }
}
pub fn headers(ctx: &mut Ctx) {
    ctx.level("random places of headers and orders of arrival");
    let mut rng = ctx.rng.fork("history headers");
    for _ in 0..ctx.n(80, 1500) {
        if ctx.saturated() {
            break;
        }
        let r = &mut rng;
        fresh(r);
        clock::simulate(world(ctx, r));
    }
    for p in ["stored", "known", "at a peer", "false ones at peers and a true one", "false ones at peers", "nowhere"] {
        ctx.require(&format!("right, header {p}"), 5);
        ctx.require(&format!("wrong, header {p}"), 2);
    }
    ctx.require("passed on", 20);
}
