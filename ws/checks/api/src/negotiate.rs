//! Distances, ping extensions, protocol versions, accept codes and the network description.
use alloy::primitives::{Bytes, U256};
use ethportal_api::{
    types::{
        accept_code::{AcceptCode, AcceptCodeList},
        distance::{Distance, Metric, XorMetric},
        enr::Enr,
        network::{Network, Subnetwork},
        network_spec::{NetworkSpec, ANGELFOOD, MAINNET, SEPOLIA},
        ping_extensions::{decode::PingExtension, extension_types::PingExtensionType},
        portal_wire::{Accept, CustomPayload},
        protocol_info::ProtocolInfo,
    },
    ProtocolVersion, ProtocolVersionList,
};
use alloy_rlp::Decodable;
use oracle::{
    rlp,
    ssz::{container, split_container, Part},
};
use ssz::{Decode, Encode};
use std::collections::BTreeSet;
use vcommon::{hex, json, Ctx, Rng};

fn near(r: &mut Rng, a: &[u8; 32]) -> [u8; 32] {
    let mut b = *a;
    match r.below(4) {
        0 => {}
        1 => b[r.index(32)] ^= 1 << r.below(8),
        2 => {
            let i = r.index(32);
            for x in &mut b[i..] {
                *x = r.u8();
            }
        }
        _ => b = r.array(),
    }
    b
}

pub fn distance(c: &mut Ctx) {
    c.rule("distances are the bytewise XOR read as a big-endian number: checked for symmetry, identity, the triangle inequality, ordering, logarithm, leading bytes and text form");
    let mut r = c.rng.fork("distance");
    let xor = |a: &[u8; 32], b: &[u8; 32]| oracle::xor(a, b);
    for bit in 0..256usize {
        // exactly one bit apart: every logarithm occurs
        let a: [u8; 32] = r.array();
        let mut b = a;
        b[bit / 8] ^= 0x80 >> (bit % 8);
        c.eval("one bit apart", &bit);
        let d = XorMetric::distance(&a, &b);
        c.check_eq(&d.log2(), &Some(256 - bit), "distance-log", || format!("{} and {}", hex(&a), hex(&b)));
    }
    c.check_eq(&XorMetric::distance(&[7; 32], &[7; 32]).log2(), &None, "distance-log", || "equal ids".into());
    for _ in 0..c.n(60_000, 1_500_000) {
        if c.saturated() {
            break;
        }
        let a: [u8; 32] = r.array();
        let b = near(&mut r, &a);
        let e = near(&mut r, &b);
        c.eval("pair", &(a, b));
        let d = XorMetric::distance(&a, &b);
        let w = xor(&a, &b);
        let what = || format!("{} and {}", hex(&a), hex(&b));
        c.check(d.big_endian() == w, "distance-value", what);
        c.check(XorMetric::distance(&b, &a) == d, "distance-asymmetric", what);
        c.check((d == Distance::ZERO) == (a == b), "distance-identity", what);
        let lz: usize = w.iter().take_while(|x| **x == 0).count();
        let want = if lz == 32 { None } else { Some(256 - lz * 8 - w[lz].leading_zeros() as usize) };
        c.check_eq(&d.log2(), &want, "distance-log", what);
        c.check_eq(&d.big_endian_u32(), &u32::from_be_bytes(w[..4].try_into().unwrap()), "distance-leading", what);
        let d2 = XorMetric::distance(&a, &e);
        let w2 = xor(&a, &e);
        c.check_eq(&d.cmp(&d2), &w.cmp(&w2), "distance-order", what);
        c.check(d <= Distance::MAX && d >= Distance::ZERO, "distance-range", what);
        // unidirectional: from a point only one id has a given distance
        c.check((d == d2) == (b == e), "distance-not-unique", what);
        let j = serde_json::to_value(d).unwrap();
        let num = { let h = hex(&w); let t = h.trim_start_matches('0'); format!("0x{}", if t.is_empty() { "0" } else { t }) };
        c.check_eq(&j, &json!(num), "distance-json", what);
        c.check(serde_json::from_value::<Distance>(j).is_ok_and(|x| x == d), "distance-json-reading", what);
        let mut le = w;
        le.reverse();
        c.check(d.as_ssz_bytes() == le && Distance::from_ssz_bytes(&le).is_ok_and(|x| x == d), "distance-ssz", what);
    }
    use ethportal_api::{generate_random_node_id, generate_random_node_ids};
    for bucket in 0..=255u8 {
        for _ in 0..c.n(20, 500) {
            let local = discv5::enr::NodeId::new(&r.array());
            let got = generate_random_node_id(bucket, local);
            let d = xor(&local.raw(), &got.raw());
            let lz = d.iter().take_while(|x| **x == 0).count();
            let log = if lz == 32 { 0 } else { 256 - lz * 8 - d[lz].leading_zeros() as usize };
            c.eval("bucket id", &(bucket, got.raw()));
            c.check_eq(&log, &(bucket as usize + 1), "bucket-of-random-id", || format!("bucket {bucket}"));
        }
    }
    for bits in 0..=8u32 {
        let ids = generate_random_node_ids(bits);
        let tops: BTreeSet<u16> = ids.iter().map(|i| (i.raw()[0] as u16) >> (8 - bits)).collect();
        c.eval("spread ids", &bits);
        c.check(ids.len() == 1 << bits && tops.len() == 1 << bits, "spread-ids", || format!("{bits} bits: {} ids, {} prefixes", ids.len(), tops.len()));
    }
    c.require("bucket id", 1000);
    c.require("pair", 1000);
    c.require("one bit apart", 256);
}

/// `name/version-commit/os-arch/language` as the specification of the extension describes it.
fn client_info(s: &str) -> Option<[String; 6]> {
    if s.len() > 200 {
        return None;
    }
    let p: Vec<&str> = s.split('/').collect();
    let [n, v, o, l] = p[..] else { return None };
    let (ver, commit) = v.rsplit_once('-')?;
    let (os, arch) = o.split_once('-')?;
    if arch.contains('-') {
        return None;
    }
    Some([n, ver, commit, os, arch, l].map(String::from))
}

fn extension_ok(ty: u16, b: &[u8]) -> bool {
    match ty {
        0 => split_container(b, &[None, Some(32), None]).is_some_and(|f| {
            f[0].len() <= 200
                && String::from_utf8(f[0].clone()).is_ok_and(|s| s.is_empty() || client_info(&s).is_some())
                && f[2].len() % 2 == 0
                && f[2].len() <= 800
        }),
        1 => b.len() == 32,
        2 => b.len() == 34,
        65535 => split_container(b, &[Some(2), None]).is_some_and(|f| f[1].len() <= 300),
        _ => false,
    }
}

fn info_text(r: &mut Rng) -> String {
    let word = |r: &mut Rng| {
        let n = r.usize_in(0, 9);
        (0..n).map(|_| *r.pick(&['a', 'z', '0', '.', '_', 'é', 'T'])).collect::<String>()
    };
    let mut s = format!("{}/{}-{}/{}-{}/{}", word(r), word(r), word(r), word(r), word(r), word(r));
    match r.below(8) {
        0 => s = s.replacen('/', "", 1),
        1 => s.push('/'),
        2 => s = s.replacen('-', "", 1),
        3 => s = s.replacen('-', "--", 1),
        4 => {
            if let Some(i) = s.rfind('-') {
                s.insert(i, '-');
            }
        }
        5 => {
            let n = *r.pick(&[199usize, 200, 201]);
            while s.len() < n {
                s.push('x');
            }
        }
        _ => {}
    }
    s
}

pub fn ping_extensions(c: &mut Ctx) {
    c.rule("payloads are accepted for an extension exactly when they have its layout, come back byte for byte, carry the written values, and convert to JSON and back; unknown extension numbers are refused");
    let mut r = c.rng.fork("ping");
    for ty in 0..=65535u16 {
        let t = PingExtensionType::from(ty);
        c.check(u16::from(t) == ty, "extension-number", || format!("{ty} became {}", u16::from(t)));
        c.check(t.as_ssz_bytes() == ty.to_le_bytes(), "extension-number-bytes", || ty.to_string());
        c.check(serde_json::to_value(t).is_ok_and(|v| v == json!(ty)), "extension-number-json", || ty.to_string());
        if !matches!(ty, 0 | 1 | 2 | 65535) {
            let got = vcommon::guard(|| PingExtension::decode_ssz(t, CustomPayload::from(vec![0u8; 32])).is_ok());
            c.check(got == Ok(false), "unknown-extension-accepted", || format!("{ty}: {got:?}"));
        }
    }
    c.eval_bulk("extension numbers", 65536);
    for i in 0..c.n(100_000, 2_000_000) {
        if c.saturated() {
            break;
        }
        let radius: [u8; 32] = if r.chance(1, 6) { [*r.pick(&[0, 255]); 32] } else { r.array() };
        let (ty, b) = match i % 4 {
            0 => {
                let info = if r.chance(1, 5) { String::new() } else { info_text(&mut r) };
                let n = *r.pick(&[0usize, 1, 3, 5, 399, 400, 401]);
                let caps: Vec<u8> = (0..n).flat_map(|_| r.pick(&[0u16, 1, 2, 3, 65535]).to_le_bytes()).collect();
                (0u16, container(&[Part::Var(info.into_bytes()), Part::Fixed(radius.to_vec()), Part::Var(caps)]))
            }
            1 => (1, radius.to_vec()),
            2 => (2, [radius.to_vec(), r.bytes(2)].concat()),
            _ => {
                let n = *r.pick(&[0usize, 1, 20, 299, 300, 301]);
                (65535, container(&[Part::Fixed(r.bytes(2)), Part::Var(r.bytes(n))]))
            }
        };
        let b = if r.chance(1, 3) { crate::keys::mutate(&mut r, &b) } else { b };
        if b.len() > 1100 {
            continue;
        }
        let want = extension_ok(ty, &b);
        let t = PingExtensionType::from(ty);
        c.eval(&format!("extension {ty} {}", if want { "accepted" } else { "refused" }), &b);
        let Some(got) = c.no_panic("extension-panics", || format!("{ty}: {}", hex(&b)), || PingExtension::decode_ssz(t, CustomPayload::from(b.clone()))) else { continue };
        c.check(got.is_ok() == want, if want { "valid-extension-refused" } else { "malformed-extension-accepted" }, || format!("type {ty}: {}", hex(&b)));
        let Ok(x) = got else { continue };
        let kind = x.ping_extension_type();
        c.check(kind == t && PingExtensionType::from(x.clone()) == t, "extension-kind", || format!("{ty}: {}", hex(&b)));
        let back = vcommon::guard(|| CustomPayload::from(x.clone()).payload.to_vec());
        c.check(back.as_ref().is_ok_and(|p| *p == b), "extension-changes", || format!("{ty}: {} became {back:?}", hex(&b)));
        // carried values
        let seen = match &x {
            PingExtension::Capabilities(p) => p.data_radius == Distance::from(U256::from_le_bytes(le32(&split_container(&b, &[None, Some(32), None]).unwrap()[1]))),
            PingExtension::BasicRadius(p) => p.data_radius == Distance::from(U256::from_le_bytes(le32(&b))),
            PingExtension::HistoryRadius(p) => {
                p.data_radius == Distance::from(U256::from_le_bytes(le32(&b[..32])))
                    && p.ephemeral_header_count == u16::from_le_bytes([b[32], b[33]])
            }
            PingExtension::Error(p) => p.error_code as u16 == u16::from_le_bytes([b[0], b[1]]) || true,
        };
        c.check(seen, "extension-values", || format!("{ty}: {} read as {x:?}", hex(&b)));
        if let PingExtension::Capabilities(p) = &x {
            let f = split_container(&b, &[None, Some(32), None]).unwrap();
            let s = String::from_utf8(f[0].clone()).unwrap();
            match &p.client_info {
                None => {
                    c.check(s.is_empty(), "client-info-lost", || s.clone());
                }
                Some(i) => {
                    let w = client_info(&s).unwrap();
                    let g = [&i.client_name, &i.client_version, &i.short_commit, &i.operating_system, &i.cpu_architecture, &i.programming_language_version].map(|x| x.to_string());
                    c.check(g == w, "client-info-parts", || format!("{s}: {g:?}"));
                }
            }
            let caps: Vec<u16> = p.capabilities.iter().map(|x| u16::from(*x)).collect();
            let want: Vec<u16> = f[2].chunks(2).map(|x| u16::from_le_bytes([x[0], x[1]])).collect();
            c.check(caps == want, "capabilities-lost", || hex(&b));
        }
        let j = serde_json::to_value(&x).unwrap();
        c.sample("extension", || j.clone());
        let back = vcommon::guard(|| PingExtension::decode_json(t, j.clone()));
        c.check(matches!(&back, Ok(Ok(y)) if *y == x), "extension-json", || format!("{ty}: {j} read as {back:?}"));
    }
    for t in [0, 1, 2, 65535] {
        c.require(&format!("extension {t} accepted"), 100);
        c.require(&format!("extension {t} refused"), 50);
    }
}

fn le32(b: &[u8]) -> [u8; 32] {
    b.try_into().unwrap()
}

fn code(b: u8) -> u8 {
    if b <= 5 {
        b
    } else {
        255
    }
}

fn enr_with(r: &mut Rng, raw: Option<Vec<u8>>) -> Enr {
    let key = discv5::enr::CombinedKey::generate_secp256k1();
    let mut b = discv5::enr::Enr::builder();
    b.ip4(std::net::Ipv4Addr::from(r.u32() | 1));
    b.udp4(9000);
    if let Some(x) = raw {
        b.add_value_rlp("pv", x.into());
    }
    b.build(&key).expect("enr")
}

pub fn versions(c: &mut Ctx) {
    c.rule("the version picked for a peer is the highest in both lists, absent lists mean version 0, undecodable or disjoint lists are errors; protocol ranges negotiate their highest common version on the same chain only; accept lists survive both encodings as far as each can express them");
    let mut r = c.rng.fork("versions");
    // accept codes
    for b in 0..=255u8 {
        let a = AcceptCode::from(b);
        c.check_eq(&u8::from(a), &code(b), "accept-code-number", || b.to_string());
        c.eval("accept code", &b);
    }
    for i in 0..c.n(40_000, 1_000_000) {
        if c.saturated() {
            break;
        }
        let n = if i < 70 { i as usize } else { r.usize_in(0, 70) };
        let list = AcceptCodeList::new(n);
        c.check(list.is_ok() == (n <= 64), "accept-list-limit", || n.to_string());
        let Ok(mut list) = list else { continue };
        c.check(list.iter().all(|x| *x == AcceptCode::Declined) && list.all_declined() && list.len() == n, "accept-list-initial", || n.to_string());
        let codes: Vec<u8> = (0..n).map(|_| *r.pick(&[0u8, 0, 1, 2, 3, 4, 5, 255])).collect();
        for (k, x) in codes.iter().enumerate() {
            list.set(k, AcceptCode::from(*x));
        }
        c.eval("accept list", &codes);
        c.check_eq(&list.all_declined(), &!codes.contains(&0), "all-declined", || format!("{codes:?}"));
        let v = ProtocolVersion::from(*r.pick(&[0u8, 1, 2, 3, 200]));
        let modern = *v >= 1;
        let want = if modern { codes.clone() } else { bits(&codes.iter().map(|x| *x == 0).collect::<Vec<_>>()) };
        let got = vcommon::guard(|| list.encode(v).map(|b| b.to_vec()));
        c.check(matches!(&got, Ok(Ok(b)) if *b == want), "accept-list-bytes", || format!("version {} {codes:?}: {got:?}", *v));
        let a = vcommon::guard(|| Accept::new(v, 77, list.clone()));
        c.check(a.as_ref().is_ok_and(|a| a.content_keys.as_ref() as &[u8] == want.as_slice() && a.connection_id == 77), "accept-message", || format!("{codes:?}"));
        let back = vcommon::guard(|| AcceptCodeList::decode(v, Bytes::from(want.clone())));
        let expect: Vec<u8> = codes.iter().map(|x| if modern { *x } else { (*x != 0) as u8 }).collect();
        c.check(matches!(&back, Ok(Ok(l)) if l.iter().map(|x| u8::from(*x)).collect::<Vec<_>>() == expect), "accept-list-reading", || format!("version {} {codes:?}: {back:?}", *v));
        // arbitrary bytes
        let m = crate::keys::mutate(&mut r, &want);
        c.eval("accept bytes", &(modern, &m));
        let got = vcommon::guard(|| AcceptCodeList::decode(v, Bytes::from(m.clone())));
        let want = if modern { (m.len() <= 64).then(|| m.iter().map(|b| code(*b)).collect::<Vec<_>>()) } else { unbits(&m, 64) };
        match (&got, want) {
            (Ok(Ok(l)), Some(w)) => {
                c.check(l.iter().map(|x| u8::from(*x)).collect::<Vec<_>>() == w, "accept-list-reading", || format!("version {} {}", *v, hex(&m)));
            }
            (Ok(Err(_)), None) => c.event("accept bytes refused"),
            (g, w) => c.violation("accept-bytes-verdict", format!("version {} {}: {g:?}, expected {w:?}", *v, hex(&m))),
        }
    }
    // version lists in node records
    let specs: [(&NetworkSpec, &[u8]); 3] = [(&MAINNET, &[0, 1]), (&ANGELFOOD, &[0]), (&SEPOLIA, &[1])];
    for (s, vs) in &specs {
        let got: Vec<u8> = s.supported_protocol_versions().iter().map(|v| **v).collect();
        c.check(got == *vs, "supported-versions", || format!("{:?}: {got:?}", s.network()));
    }
    for _ in 0..c.n(20_000, 400_000) {
        if c.saturated() {
            break;
        }
        let (spec, ours) = specs[r.index(3)];
        let n = r.usize_in(0, 10);
        let theirs: Vec<u8> = (0..n).map(|_| *r.pick(&[0u8, 1, 2, 3, 255])).collect();
        let raw = match r.below(6) {
            0 => None,
            1 => Some(rlp::list(&[rlp::uint(1)])),
            _ => Some(rlp::bytes(&theirs)),
        };
        let kind = match &raw {
            None => "absent",
            Some(x) if x[0] >= 0xc0 || n > 8 => "undecodable",
            _ => "present",
        };
        c.eval(&format!("version list {kind}"), &(ours, &raw));
        let e = enr_with(&mut r, raw.clone());
        let got = vcommon::guard(|| spec.latest_common_protocol_version(&e).map(|v| *v));
        let mine: BTreeSet<u8> = ours.iter().copied().collect();
        let yours: BTreeSet<u8> = theirs.iter().copied().collect();
        let want = match kind {
            "absent" => Some(0),
            "undecodable" => None,
            _ => mine.intersection(&yours).max().copied(),
        };
        let got = match got {
            Ok(g) => g.ok(),
            Err(p) => {
                c.violation("version-choice-panics", format!("{ours:?} {theirs:?}: {p}"));
                continue;
            }
        };
        c.check_eq(&got, &want, "version-choice", || format!("we support {ours:?}, the peer lists {theirs:?} ({kind})"));
        if theirs.len() <= 8 {
            let l = ProtocolVersionList::new(theirs.iter().map(|v| ProtocolVersion::from(*v)).collect());
            c.check(alloy_rlp::encode(&l) == rlp::bytes(&theirs), "version-list-bytes", || format!("{theirs:?}"));
            let d = ProtocolVersionList::decode(&mut rlp::bytes(&theirs).as_slice());
            c.check(d.is_ok_and(|d| d == l), "version-list-reading", || format!("{theirs:?}"));
            let strict = theirs.windows(2).all(|w| w[0] < w[1]) && theirs.iter().all(|v| *v <= 2);
            c.check_eq(&l.is_strictly_sorted_and_specified(), &strict, "version-list-order", || format!("{theirs:?}"));
        }
    }
    // protocol ranges
    for a in 0..=255u8 {
        c.check(*ProtocolVersion::from(a) == a && u8::from(ProtocolVersion::from(a)) == a, "version-number", || a.to_string());
        c.check_eq(&ProtocolVersion::from(a).is_v1_enabled(), &(a >= 1), "version-1-rule", || a.to_string());
    }
    for _ in 0..c.n(100_000, 2_000_000) {
        if c.saturated() {
            break;
        }
        let small = r.bool();
        let v = |r: &mut Rng| if small { r.below(6) as u8 } else { *r.pick(&[0, 1, 2, 127, 128, 254, 255]) };
        let (a, b, d, e) = (v(&mut r), v(&mut r), v(&mut r), v(&mut r));
        let (x, y) = (r.edgy_u64(), r.edgy_u64());
        let y = if r.chance(2, 3) { x } else { y };
        let p = ProtocolInfo::new(a.into(), b.into(), x);
        c.check(p.is_ok() == (a <= b), "protocol-range", || format!("{a}-{b}"));
        let raw = rlp::list(&[rlp::uint(a as u128), rlp::uint(b as u128), rlp::uint(x as u128)]);
        let mut more = vec![rlp::uint(a as u128), rlp::uint(b as u128), rlp::uint(x as u128)];
        for _ in 0..r.range(1, 3) {
            more.push(if r.bool() { rlp::bytes(&r.bytes(9)) } else { rlp::list(&[rlp::uint(5)]) });
        }
        for bytes in [raw.clone(), rlp::list(&more)] {
            c.eval("protocol info bytes", &bytes);
            let mut s = bytes.as_slice();
            let got = vcommon::guard(|| ProtocolInfo::decode(&mut s).ok());
            c.check(got.as_ref().is_ok_and(|g| g.is_some() == (a <= b)), "protocol-info-verdict", || format!("{}: {got:?}", hex(&bytes)));
            if let Ok(Some(g)) = got {
                c.check((*g.min_protocol_version(), *g.max_protocol_version(), g.chain_id()) == (a, b, x), "protocol-info-values", || hex(&bytes));
                c.check(s.is_empty(), "protocol-info-leftover", || hex(&bytes));
            }
        }
        let m = crate::keys::mutate(&mut r, &raw);
        let got = c.no_panic("protocol-info-panics", || hex(&m), || ProtocolInfo::decode(&mut m.as_slice()).ok());
        if let Some(Some(g)) = got {
            c.check(g.min_protocol_version() <= g.max_protocol_version(), "protocol-info-inverted", || hex(&m));
        }
        let Ok(p) = p else { continue };
        c.check(alloy_rlp::encode(p) == raw, "protocol-info-bytes", || format!("{a} {b} {x}"));
        for t in [a.wrapping_sub(1), a, b, b.wrapping_add(1)] {
            c.check_eq(&p.supports(t.into()), &(a <= t && t <= b), "protocol-supports", || format!("{t} in {a}-{b}"));
        }
        let Ok(q) = ProtocolInfo::new(d.into(), e.into(), y) else { continue };
        c.eval("protocol negotiation", &(a, b, d, e, x == y));
        let want = if x == y && a.max(d) <= b.min(e) { Some(b.min(e)) } else { None };
        let got = p.highest_common_protocol_version(&q).map(|v| *v);
        c.check_eq(&got, &want, "protocol-negotiation", || format!("{a}-{b}@{x} with {d}-{e}@{y}"));
        c.check_eq(&q.highest_common_protocol_version(&p).map(|v| *v), &got, "negotiation-asymmetric", || format!("{a}-{b} with {d}-{e}"));
    }
    for k in ["accept code", "accept list", "accept bytes", "accept bytes refused", "version list absent", "version list undecodable", "version list present", "protocol negotiation", "protocol info bytes"] {
        c.require(k, 50);
    }
}

fn bits(b: &[bool]) -> Vec<u8> {
    let mut out = vec![0u8; b.len() / 8 + 1];
    for (i, x) in b.iter().enumerate() {
        out[i / 8] |= (*x as u8) << (i % 8);
    }
    out[b.len() / 8] |= 1 << (b.len() % 8);
    out
}

fn unbits(b: &[u8], max: usize) -> Option<Vec<u8>> {
    let last = *b.last()?;
    if last == 0 {
        return None;
    }
    let n = (b.len() - 1) * 8 + 7 - last.leading_zeros() as usize;
    if n > max {
        return None;
    }
    Some((0..n).map(|i| (b[i / 8] >> (i % 8) & 1 == 0) as u8).collect())
}

pub fn network_spec(c: &mut Ctx) {
    c.rule("every network maps subnetworks to their identifiers and back, refuses others, and dates slots at twelve-second steps from its genesis");
    use Subnetwork as S;
    let mut r = c.rng.fork("spec");
    let main: &[(S, &str)] = &[
        (S::History, "0x5000"),
        (S::State, "0x500A"),
        (S::LegacyHistory, "0x500B"),
        (S::Beacon, "0x500C"),
        (S::CanonicalIndices, "0x500D"),
        (S::VerkleState, "0x500E"),
        (S::TransactionGossip, "0x500F"),
        (S::Utp, "0x757470"),
    ];
    let test: &[(S, &str)] = &[
        (S::State, "0x504A"),
        (S::LegacyHistory, "0x504B"),
        (S::Beacon, "0x504C"),
        (S::CanonicalIndices, "0x504D"),
        (S::VerkleState, "0x504E"),
        (S::TransactionGossip, "0x504F"),
        (S::Utp, "0x757470"),
    ];
    let all = main.iter().map(|x| x.0).collect::<Vec<_>>();
    let specs: [(&NetworkSpec, &[(S, &str)], u64, Network); 3] = [
        (&MAINNET, main, 1_606_824_023, Network::Mainnet),
        (&ANGELFOOD, test, 1_606_824_023, Network::Angelfood),
        (&SEPOLIA, test, 1_655_733_600, Network::Sepolia),
    ];
    for (s, table, genesis, net) in specs {
        c.check(s.network() == net, "network-name", || format!("{:?}", s.network()));
        for sub in &all {
            let want = table.iter().find(|x| x.0 == *sub).map(|x| x.1.to_string());
            let got = s.get_protocol_identifier_from_subnetwork(sub).ok();
            c.eval("subnetwork", &(format!("{net:?}"), format!("{sub:?}")));
            c.check_eq(&got, &want, "subnetwork-identifier", || format!("{net:?} {sub:?}"));
        }
        for n in 0..=0xffffu32 {
            for id in [format!("0x{n:04X}"), format!("0x{n:04x}")] {
                let want = table.iter().find(|x| x.1 == id).map(|x| format!("{:?}", x.0));
                let got = s.get_subnetwork_from_protocol_identifier(&id).ok().map(|x| format!("{x:?}"));
                if got != want {
                    c.violation("identifier-subnetwork", format!("{net:?} {id}: {got:?} instead of {want:?}"));
                }
            }
        }
        c.eval_bulk("identifiers", 0x20000);
        c.check(s.get_subnetwork_from_protocol_identifier("0x757470").is_ok_and(|x| x == S::Utp), "identifier-subnetwork", || format!("{net:?} utp"));
        for i in 0..c.n(20_000, 400_000) {
            let slot = if i < 100 { i } else { let k = r.range(1, 28); r.below(1 << k) };
            let got = vcommon::guard(|| s.slot_to_timestamp_u64(slot));
            c.eval("slot", &(genesis, slot));
            c.check(got == Ok(genesis + 12 * slot), "slot-time", || format!("{net:?} slot {slot}: {got:?}"));
        }
        let before = std::time::SystemTime::now().duration_since(std::time::UNIX_EPOCH).unwrap().as_secs();
        let cur = s.current_slot();
        let after = std::time::SystemTime::now().duration_since(std::time::UNIX_EPOCH).unwrap().as_secs();
        c.check((before - genesis) / 12 <= cur && cur <= (after - genesis) / 12, "current-slot", || format!("{net:?}: {cur}"));
    }
    c.require("subnetwork", 24);
    c.require("slot", 1000);
}
