//! Wire messages: exact SSZ union layout, lossless decode/encode, refusal of malformed messages.
use ethportal_api::{
    types::{
        enr::{Enr, SszEnr},
        ping_extensions::extension_types::PingExtensionType,
        portal_wire::{
            Accept, Content, CustomPayload, FindContent, FindNodes, Message, Nodes, Offer, Ping, Pong, Request,
            Response, MAX_PORTAL_CONTENT_PAYLOAD_SIZE, MAX_PORTAL_NODES_ENRS_SIZE,
        },
    },
    RawContentKey, RawContentValue,
};
use alloy::primitives::Bytes;
use oracle::ssz::{container, split_container, split_var_list, var_list, Part};
use vcommon::{hex, json, Ctx, Rng};

fn enrs(r: &mut Rng, n: usize) -> Vec<(Enr, Vec<u8>)> {
    (0..n)
        .map(|_| {
            let key = discv5::enr::CombinedKey::generate_secp256k1();
            let mut b = discv5::enr::Enr::builder();
            b.seq(r.edgy_u64().min(u64::MAX - 4));
            if r.bool() {
                b.ip4(std::net::Ipv4Addr::from(r.u32()));
                b.udp4(r.u32() as u16);
            }
            let e: Enr = b.build(&key).expect("enr");
            let bytes = alloy_rlp::encode(&e);
            (e, bytes)
        })
        .collect()
}

/// A message and the bytes the specification prescribes for it.
fn make(r: &mut Rng, pool: &[(Enr, Vec<u8>)]) -> (Message, Vec<u8>, &'static str) {
    let f = |v: Vec<u8>| Part::Fixed(v);
    match r.below(10) {
        k @ (0 | 1) => {
            let seq = r.edgy_u64();
            let ty = *r.pick(&[0u16, 1, 2, 3, 255, 256, 65534, 65535]);
            let n = *r.pick(&[0usize, 1, 32, 34, 1099, 1100]);
            let payload = r.bytes(n);
            let body = container(&[f(seq.to_le_bytes().to_vec()), f(ty.to_le_bytes().to_vec()), Part::Var(payload.clone())]);
            let t = PingExtensionType::from(ty);
            let p = CustomPayload::from(payload);
            if k == 0 {
                (Message::Ping(Ping { enr_seq: seq, payload_type: t, payload: p }), [vec![0], body].concat(), "ping")
            } else {
                (Message::Pong(Pong { enr_seq: seq, payload_type: t, payload: p }), [vec![1], body].concat(), "pong")
            }
        }
        2 => {
            let n = r.usize_in(0, 20);
            let d: Vec<u16> = (0..n).map(|_| *r.pick(&[0u16, 1, 255, 256, 257, 65535])).collect();
            let bytes = d.iter().flat_map(|x| x.to_le_bytes()).collect();
            (Message::FindNodes(FindNodes { distances: d }), [vec![2], container(&[Part::Var(bytes)])].concat(), "find nodes")
        }
        3 => {
            let n = r.usize_in(0, 5);
            let es: Vec<_> = (0..n).map(|_| r.pick(pool).clone()).collect();
            let total = r.u8();
            let list = var_list(&es.iter().map(|e| e.1.clone()).collect::<Vec<_>>());
            (
                Message::Nodes(Nodes { total, enrs: es.into_iter().map(|e| SszEnr(e.0)).collect() }),
                [vec![3], container(&[f(vec![total]), Part::Var(list)])].concat(),
                "nodes",
            )
        }
        4 => {
            let n = *r.pick(&[0usize, 1, 9, 33, 34, 200]);
            let k = r.bytes(n);
            (
                Message::FindContent(FindContent { content_key: RawContentKey::from(k.clone()) }),
                [vec![4], container(&[Part::Var(k)])].concat(),
                "find content",
            )
        }
        5 => {
            let id = r.u32() as u16;
            (Message::Content(Content::ConnectionId(id)), [vec![5, 0], id.to_le_bytes().to_vec()].concat(), "content id")
        }
        6 => {
            let n = *r.pick(&[0usize, 1, 100, 1164, 1165]);
            let v = r.bytes(n);
            (
                Message::Content(Content::Content(RawContentValue::from(v.clone()))),
                [vec![5, 1], v].concat(),
                "content value",
            )
        }
        7 => {
            let n = r.usize_in(0, 5);
            let es: Vec<_> = (0..n).map(|_| r.pick(pool).clone()).collect();
            let list = var_list(&es.iter().map(|e| e.1.clone()).collect::<Vec<_>>());
            (
                Message::Content(Content::Enrs(es.into_iter().map(|e| SszEnr(e.0)).collect())),
                [vec![5, 2], list].concat(),
                "content enrs",
            )
        }
        8 => {
            let n = *r.pick(&[0usize, 1, 2, 8, 64]);
            let keys: Vec<Vec<u8>> = (0..n)
                .map(|_| {
                    let l = r.usize_in(0, 40);
                    r.bytes(l)
                })
                .collect();
            (
                Message::Offer(Offer { content_keys: keys.iter().cloned().map(RawContentKey::from).collect() }),
                [vec![6], container(&[Part::Var(var_list(&keys))])].concat(),
                "offer",
            )
        }
        _ => {
            let id = r.u32() as u16;
            let n = r.usize_in(0, 64);
            let codes = r.bytes(n);
            (
                Message::Accept(Accept { connection_id: id, content_keys: Bytes::from(codes.clone()) }),
                [vec![7], container(&[f(id.to_le_bytes().to_vec()), Part::Var(codes)])].concat(),
                "accept",
            )
        }
    }
}

/// Is this a well-formed message? ENR contents are left to the code (None = depends on ENRs).
fn well_formed(b: &[u8]) -> Option<bool> {
    let Some((&sel, r)) = b.split_first() else { return Some(false) };
    let var = |f: &[Option<usize>]| split_container(r, f);
    Some(match sel {
        0 | 1 => var(&[Some(8), Some(2), None]).is_some(),
        2 => var(&[None]).is_some_and(|f| f[0].len() % 2 == 0),
        3 => match var(&[Some(1), None]) {
            None => false,
            Some(f) => match split_var_list(&f[1], 1 << 20) {
                None => false,
                Some(l) if l.is_empty() => true,
                Some(_) => return None,
            },
        },
        4 => var(&[None]).is_some(),
        5 => match r.split_first() {
            Some((0, r)) => r.len() == 2,
            Some((1, _)) => true,
            Some((2, r)) => match split_var_list(r, 1 << 20) {
                None => false,
                Some(l) if l.is_empty() => true,
                Some(_) => return None,
            },
            _ => false,
        },
        6 => var(&[None]).is_some_and(|f| split_var_list(&f[0], 1 << 20).is_some()),
        7 => var(&[Some(2), None]).is_some(),
        _ => false,
    })
}

fn arbitrary(c: &mut Ctx, b: &[u8]) {
    let wf = well_formed(b);
    c.eval(match wf { Some(true) => "arbitrary accepted", Some(false) => "arbitrary refused", None => "arbitrary with records" }, b);
    let Some(got) = c.no_panic("message-decode-panics", || hex(b), || Message::try_from(b.to_vec())) else { return };
    if let Some(w) = wf {
        c.check(got.is_ok() == w, if w { "well-formed-message-refused" } else { "malformed-message-accepted" }, || hex(b));
    }
    let Ok(m) = got else { return };
    let Some(enc) = c.no_panic("message-encode-panics", || hex(b), || -> Vec<u8> { m.clone().into() }) else { return };
    // payloads beyond the limit are cut and record lists may be re-encoded; everything else is canonical
    let long_payload = matches!(b[0], 0 | 1) && b.len() > 1 + 14 + 1100;
    if wf.is_some() && !long_payload {
        c.check(enc == b, "message-not-canonical", || format!("{} became {}", hex(b), hex(&enc)));
    }
    let again = vcommon::guard(|| Message::try_from(enc.clone()));
    c.check(matches!(&again, Ok(Ok(a)) if *a == m), "message-unstable", || hex(b));
    let req = Request::try_from(m.clone());
    let resp = Response::try_from(m.clone());
    let is_req = matches!(b[0], 0 | 2 | 4 | 6);
    c.check(req.is_ok() == is_req && resp.is_ok() != is_req, "request-response-split", || hex(b));
    if let Ok(q) = req {
        c.check(Message::from(q) == m, "request-changes-message", || hex(b));
    }
    if let Ok(q) = resp {
        c.check(Message::from(q) == m, "response-changes-message", || hex(b));
    }
}

pub fn messages(c: &mut Ctx) {
    c.rule("messages built from parts must have the exact prescribed bytes and decode back to themselves; arbitrary bytes are accepted exactly when the layout allows it and re-encode to the same bytes");
    c.assume("node records inside messages are judged by the record library, not by the layout oracle; ping payloads over 1100 bytes are outside the protocol");
    let mut r = c.rng.fork("wire");
    let pool = enrs(&mut r, 24);
    for sel in 0..=255u8 {
        arbitrary(c, &[sel]);
        for x in 0..=8u8 {
            arbitrary(c, &[sel, x]);
            arbitrary(c, &[sel, x, 0, 0]);
            arbitrary(c, &[sel, x, 0, 0, 0]);
            arbitrary(c, &[sel, 0, x, 0, 0, 0]);
        }
    }
    arbitrary(c, &[]);
    for _ in 0..c.n(100_000, 2_000_000) {
        if c.saturated() {
            break;
        }
        let (m, want, kind) = make(&mut r, &pool);
        c.eval(kind, &want);
        c.sample(kind, || json!(hex(&want[..want.len().min(80)])));
        let Some(got) = c.no_panic("message-encode-panics", || kind.into(), || -> Vec<u8> { m.clone().into() }) else { continue };
        c.check(got == want, "message-bytes", || format!("{kind}: {} instead of {}", hex(&got), hex(&want)));
        match vcommon::guard(|| Message::try_from(want.clone())) {
            Ok(Ok(back)) => {
                c.check(back == m, "message-lost-content", || format!("{kind} {}", hex(&want)));
            }
            Ok(Err(e)) => c.violation("built-message-refused", format!("{kind} {}: {e}", hex(&want))),
            Err(p) => c.violation("message-decode-panics", format!("{kind} {}: {p}", hex(&want))),
        }
        let mu = crate::keys::mutate(&mut r, &want);
        arbitrary(c, &mu);
        if want.len() > 5 {
            // attack the offsets in particular
            let mut o = want.clone();
            let i = r.index(o.len().min(16));
            o[i] = r.u8();
            arbitrary(c, &o);
        }
    }
    // A response of maximal size fits a packet, one byte more would not: budget of the transport.
    let packet = |m: Message| -> usize { let b: Vec<u8> = m.into(); b.len() + 16 + 23 + 32 + 16 + 8 + 8 + 6 };
    let full = packet(Message::Content(Content::Content(RawContentValue::from(vec![0u8; MAX_PORTAL_CONTENT_PAYLOAD_SIZE]))));
    c.check(full <= 1280 && full >= 1276, "content-size-limit", || format!("largest direct content makes a packet of {full} bytes"));
    let nodes = container(&[Part::Fixed(vec![0]), Part::Var(vec![0u8; MAX_PORTAL_NODES_ENRS_SIZE])]).len() + 1 + 109;
    c.check(nodes == 1280, "nodes-size-limit", || format!("largest node list makes a packet of {nodes} bytes"));
    for k in ["ping", "pong", "find nodes", "nodes", "find content", "content id", "content value", "content enrs", "offer", "accept", "arbitrary accepted", "arbitrary refused", "arbitrary with records"] {
        c.require(k, 50);
    }
}
