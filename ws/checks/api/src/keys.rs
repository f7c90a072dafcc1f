//! Content keys of all networks: canonical bytes, identifiers, radius rule, text forms.
use ethportal_api::{
    types::{
        content_key::{
            beacon::{HistoricalSummariesWithProofKey, LightClientFinalityUpdateKey, LightClientOptimisticUpdateKey},
            state::{AccountTrieNodeKey, ContractBytecodeKey, ContractStorageTrieNodeKey},
        },
        state_trie::nibbles::Nibbles,
    },
    BeaconContentKey, HistoryContentKey, IdentityContentKey, LegacyHistoryContentKey,
    LightClientBootstrapKey, LightClientUpdatesByRangeKey, OverlayContentKey, StateContentKey,
};
use oracle::{
    sha256,
    ssz::{container, split_container, Part},
};
use serde::{de::DeserializeOwned, Serialize};
use vcommon::{hash_of, hex, json, Ctx, Rng};

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
enum Net {
    History,
    Legacy,
    Beacon,
    State,
    Identity,
}

/// What a key is expected to say.
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
struct Expect {
    kind: u8,
    id: [u8; 32],
    radius: bool,
    /// The shown form.
    shown: Option<String>,
}

pub fn range_id(number: u64, ty: u8) -> [u8; 32] {
    let mut id = [0u8; 32];
    let low = (number & 0xffff) as u16;
    id[..2].copy_from_slice(&low.to_be_bytes());
    for i in 0..48 {
        // bit i above the low sixteen ends up at position i of the next 48 bits, from the top
        if number >> (16 + i) & 1 == 1 {
            id[2 + i / 8] |= 0x80 >> (i % 8);
        }
    }
    id[31] = ty;
    id
}

pub fn pack_nibbles(n: &[u8]) -> Vec<u8> {
    let mut out = vec![];
    let rest = if n.len() % 2 == 1 {
        out.push(0x10 | n[0]);
        &n[1..]
    } else {
        out.push(0);
        n
    };
    out.extend(rest.chunks(2).map(|c| c[0] << 4 | c[1]));
    out
}

pub fn unpack_nibbles(b: &[u8]) -> Option<Vec<u8>> {
    let (&first, rest) = b.split_first()?;
    let mut out = vec![];
    match first >> 4 {
        0 if first & 15 == 0 => {}
        1 => out.push(first & 15),
        _ => return None,
    }
    for x in rest {
        out.push(x >> 4);
        out.push(x & 15);
    }
    (out.len() <= 64).then_some(out)
}

fn short(b: &[u8]) -> String {
    if b.len() <= 8 {
        return format!("0x{}", hex(b));
    }
    format!("0x{}..{}", hex(&b[..2]), hex(&b[b.len() - 2..]))
}

fn u64le(b: &[u8]) -> u64 {
    u64::from_le_bytes(b.try_into().unwrap())
}

fn expect(net: Net, b: &[u8]) -> Option<Expect> {
    if net == Net::Identity {
        let id: [u8; 32] = b.try_into().ok()?;
        return Some(Expect { kind: 0, id, radius: true, shown: Some(format!("Identity {{ value: {} }}", short(b))) });
    }
    let (&kind, r) = b.split_first()?;
    let (radius, shown) = match (net, kind) {
        (Net::History, 0 | 1) if r.len() == 8 => {
            let n = u64le(r);
            let name = if kind == 0 { "BlockBody" } else { "BlockReceipts" };
            return Some(Expect { kind, id: range_id(n, kind), radius: true, shown: Some(format!("{name}({n})")) });
        }
        (Net::Legacy, 0..=2 | 5) if r.len() == 32 => (kind != 5, None),
        (Net::Legacy, 3) if r.len() == 8 => (true, None),
        (Net::Legacy, 4) if r.len() == 33 => (false, None),
        (Net::Beacon, 0x10) if r.len() == 32 => {
            (false, Some(format!("LightClientBootstrap {{ block_hash: {} }}", short(r))))
        }
        (Net::Beacon, 0x11) if r.len() == 16 => (
            false,
            Some(format!(
                "LightClientUpdatesByRange {{ start_period: {}, count: {} }}",
                u64le(&r[..8]),
                u64le(&r[8..])
            )),
        ),
        (Net::Beacon, 0x12) if r.len() == 8 => {
            (false, Some(format!("LightClientFinalityUpdate {{ finalized_slot: {} }}", u64le(r))))
        }
        (Net::Beacon, 0x13) if r.len() == 8 => {
            (false, Some(format!("LightClientOptimisticUpdate {{ signature_slot: {} }}", u64le(r))))
        }
        (Net::Beacon, 0x14) if r.len() == 8 => {
            (false, Some(format!("HistoricalSummariesWithProof {{ epoch: {} }}", u64le(r))))
        }
        (Net::State, 0x20) => {
            let f = split_container(r, &[None, Some(32)])?;
            unpack_nibbles(&f[0])?;
            (true, None)
        }
        (Net::State, 0x21) => {
            let f = split_container(r, &[Some(32), None, Some(32)])?;
            unpack_nibbles(&f[1])?;
            (true, None)
        }
        (Net::State, 0x22) if r.len() == 64 => (true, None),
        _ => return None,
    };
    Some(Expect { kind, id: sha256(b), radius, shown })
}

/// Bytes of a random valid key.
fn valid(net: Net, r: &mut Rng) -> Vec<u8> {
    let nib = |r: &mut Rng| {
        let n = *r.pick(&[0usize, 1, 2, 3, 7, 31, 32, 62, 63, 64]);
        pack_nibbles(&(0..n).map(|_| r.u8() & 15).collect::<Vec<_>>())
    };
    match net {
        Net::Identity => r.bytes(32),
        Net::History => [vec![r.below(2) as u8], r.edgy_u64().to_le_bytes().to_vec()].concat(),
        Net::Legacy => {
            let k = r.below(6) as u8;
            let n = match k {
                3 => 8,
                4 => 33,
                _ => 32,
            };
            [vec![k], if n == 8 { r.edgy_u64().to_le_bytes().to_vec() } else { r.bytes(n) }].concat()
        }
        Net::Beacon => {
            let k = 0x10 + r.below(5) as u8;
            let body = match k {
                0x10 => r.bytes(32),
                0x11 => [r.edgy_u64().to_le_bytes(), r.edgy_u64().to_le_bytes()].concat(),
                _ => r.edgy_u64().to_le_bytes().to_vec(),
            };
            [vec![k], body].concat()
        }
        Net::State => match r.below(3) {
            0 => [vec![0x20], container(&[Part::Var(nib(r)), Part::Fixed(r.bytes(32))])].concat(),
            1 => [
                vec![0x21],
                container(&[Part::Fixed(r.bytes(32)), Part::Var(nib(r)), Part::Fixed(r.bytes(32))]),
            ]
            .concat(),
            _ => [vec![0x22], r.bytes(64)].concat(),
        },
    }
}

pub fn mutate(r: &mut Rng, b: &[u8]) -> Vec<u8> {
    let mut v = b.to_vec();
    for _ in 0..r.range(1, 3) {
        match r.below(8) {
            0 if !v.is_empty() => {
                v.pop();
            }
            1 => v.push(r.u8()),
            2 if !v.is_empty() => {
                let i = r.index(v.len());
                v[i] ^= 1 << r.below(8);
            }
            3 if !v.is_empty() => {
                let i = r.index(v.len().min(8));
                v[i] = *r.pick(&[0, 1, 2, 4, 0x0f, 0x10, 0x20, 0x7f, 0x80, 0xff]);
            }
            4 => {
                let n = r.usize_in(0, v.len());
                v.truncate(n);
            }
            5 if !v.is_empty() => {
                let i = r.index(v.len());
                v.insert(i, r.u8());
            }
            6 if !v.is_empty() => {
                let i = r.index(v.len());
                v.remove(i);
            }
            7 if !v.is_empty() => v[0] = r.u8() & 0x3f,
            _ => v = { let n = r.usize_in(0, 70); r.bytes(n) },
        }
    }
    v
}

fn one<K: OverlayContentKey>(c: &mut Ctx, net: Net, b: &[u8]) -> Option<K> {
    let want = expect(net, b);
    c.eval(&format!("{net:?} {}", if want.is_some() { "accepted" } else { "refused" }), b);
    let got = c.no_panic("key-decode-panics", || format!("{net:?} key {}", hex(b)), || K::try_from_bytes(b))?;
    let (got, want) = match (got, want) {
        (Ok(g), Some(w)) => (g, w),
        (Err(_), None) => return None,
        (Ok(_), None) => {
            c.violation("malformed-key-accepted", format!("{net:?} key {}", hex(b)));
            return None;
        }
        (Err(e), Some(_)) => {
            c.violation("valid-key-refused", format!("{net:?} key {}: {e}", hex(b)));
            return None;
        }
    };
    let r = c.no_panic("key-use-panics", || format!("{net:?} key {}", hex(b)), || {
        (got.to_bytes().to_vec(), got.content_id(), got.affected_by_radius(), got.to_hex(), got.to_string())
    })?;
    c.check_eq(&r.0.as_slice(), &b, "key-bytes-change", || format!("{net:?} re-encoded"));
    c.check_eq(&hex(&r.1), &hex(&want.id), "content-id", || format!("{net:?} key {}", hex(b)));
    c.check_eq(&r.2, &want.radius, "radius-rule", || format!("{net:?} key {}", hex(b)));
    let text = format!("0x{}", hex(b));
    c.check_eq(&r.3, &text, "key-hex-text", || format!("{net:?}"));
    if let Some(s) = want.shown {
        c.check_eq(&r.4, &s, "key-shown", || format!("{net:?} key {}", hex(b)));
    }
    let back = K::try_from_hex(&text);
    c.check(back.as_ref().is_ok_and(|x| *x == got), "key-hex-reading", || format!("{net:?} {text}"));
    Some(got)
}

fn json_forms<K: OverlayContentKey + Serialize + DeserializeOwned>(c: &mut Ctx, net: Net, b: &[u8], k: &K) {
    let text = format!("0x{}", hex(b));
    let j = vcommon::guard(|| serde_json::to_value(k).unwrap());
    c.check(j.as_ref().is_ok_and(|j| *j == json!(text)), "key-json", || format!("{net:?} {text}: {j:?}"));
    let r = serde_json::from_value::<K>(json!(text));
    c.check(r.as_ref().is_ok_and(|x| x == k), "key-json-reading", || format!("{net:?} {text}"));
}

fn fields(c: &mut Ctx, r: &mut Rng) {
    // Keys built from their parts have the bytes the specification gives.
    let n = r.edgy_u64();
    let m = r.edgy_u64();
    let h: [u8; 32] = r.array();
    let g: [u8; 32] = r.array();
    let a = r.u8();
    let nn = *r.pick(&[0usize, 1, 2, 5, 16, 33, 63, 64]);
    let nibs: Vec<u8> = (0..nn).map(|_| r.u8() & 15).collect();
    let path = Nibbles::try_from_unpacked_nibbles(&nibs).expect("valid path refused");
    let le = |x: u64| x.to_le_bytes().to_vec();
    macro_rules! built {
        ($k:expr, $want:expr, $name:expr) => {{
            let want: Vec<u8> = $want;
            c.eval(concat!("built ", $name), &want);
            match vcommon::guard(|| $k.to_bytes().to_vec()) {
                Ok(got) => {
                    c.check_eq(&hex(&got), &hex(&want), "built-key-bytes", || $name.to_string());
                }
                Err(p) => c.violation("built-key-panics", format!("{}: {p}", $name)),
            }
        }};
    }
    built!(HistoryContentKey::new_block_body(n), [vec![0], le(n)].concat(), "history body");
    built!(HistoryContentKey::new_block_receipts(n), [vec![1], le(n)].concat(), "history receipts");
    built!(LegacyHistoryContentKey::new_block_header_by_hash(h), [vec![0], h.to_vec()].concat(), "header by hash");
    built!(LegacyHistoryContentKey::new_block_body(h), [vec![1], h.to_vec()].concat(), "body");
    built!(LegacyHistoryContentKey::new_block_receipts(h), [vec![2], h.to_vec()].concat(), "receipts");
    built!(LegacyHistoryContentKey::new_block_header_by_number(n), [vec![3], le(n)].concat(), "header by number");
    built!(
        LegacyHistoryContentKey::new_ephemeral_headers_find_content(h, a),
        [vec![4], h.to_vec(), vec![a]].concat(),
        "ephemeral find content"
    );
    built!(LegacyHistoryContentKey::new_ephemeral_header_offer(h), [vec![5], h.to_vec()].concat(), "ephemeral offer");
    built!(
        BeaconContentKey::LightClientBootstrap(LightClientBootstrapKey { block_hash: h }),
        [vec![0x10], h.to_vec()].concat(),
        "bootstrap"
    );
    built!(
        BeaconContentKey::LightClientUpdatesByRange(LightClientUpdatesByRangeKey { start_period: n, count: m }),
        [vec![0x11], le(n), le(m)].concat(),
        "updates by range"
    );
    built!(
        BeaconContentKey::LightClientFinalityUpdate(LightClientFinalityUpdateKey { finalized_slot: n }),
        [vec![0x12], le(n)].concat(),
        "finality update"
    );
    built!(
        BeaconContentKey::LightClientOptimisticUpdate(LightClientOptimisticUpdateKey { signature_slot: n }),
        [vec![0x13], le(n)].concat(),
        "optimistic update"
    );
    built!(
        BeaconContentKey::HistoricalSummariesWithProof(HistoricalSummariesWithProofKey { epoch: n }),
        [vec![0x14], le(n)].concat(),
        "historical summaries"
    );
    built!(
        StateContentKey::AccountTrieNode(AccountTrieNodeKey { path: path.clone(), node_hash: h.into() }),
        [vec![0x20], container(&[Part::Var(pack_nibbles(&nibs)), Part::Fixed(h.to_vec())])].concat(),
        "account trie node"
    );
    built!(
        StateContentKey::ContractStorageTrieNode(ContractStorageTrieNodeKey {
            address_hash: g.into(),
            path,
            node_hash: h.into()
        }),
        [
            vec![0x21],
            container(&[Part::Fixed(g.to_vec()), Part::Var(pack_nibbles(&nibs)), Part::Fixed(h.to_vec())])
        ]
        .concat(),
        "storage trie node"
    );
    built!(
        StateContentKey::ContractBytecode(ContractBytecodeKey { address_hash: g.into(), code_hash: h.into() }),
        [vec![0x22], g.to_vec(), h.to_vec()].concat(),
        "bytecode"
    );
    built!(IdentityContentKey::new(h), h.to_vec(), "identity");
}

pub fn content_keys(c: &mut Ctx) {
    c.rule("every byte string is read as a key of each network and judged against the key table of the network specifications; accepted keys must give back their bytes, identifier, radius rule and text forms");
    c.assume("SHA-256 and SSZ offsets are recomputed by the checker");
    let mut r = c.rng.fork("keys");
    // every one-byte and two-byte string, and every selector with every plausible length
    let nets = [Net::History, Net::Legacy, Net::Beacon, Net::State, Net::Identity];
    let go = |c: &mut Ctx, net: Net, b: &[u8]| match net {
        Net::History => {
            if let Some(k) = one::<HistoryContentKey>(c, net, b) {
                json_forms(c, net, b, &k);
            }
        }
        Net::Legacy => {
            if let Some(k) = one::<LegacyHistoryContentKey>(c, net, b) {
                json_forms(c, net, b, &k);
            }
        }
        Net::Beacon => {
            if let Some(k) = one::<BeaconContentKey>(c, net, b) {
                json_forms(c, net, b, &k);
            }
        }
        Net::State => {
            if let Some(k) = one::<StateContentKey>(c, net, b) {
                json_forms(c, net, b, &k);
            }
        }
        Net::Identity => {
            one::<IdentityContentKey>(c, net, b);
        }
    };
    for net in nets {
        go(c, net, &[]);
        for s in 0..=255u8 {
            for len in [0usize, 1, 4, 7, 8, 9, 15, 16, 17, 31, 32, 33, 34, 63, 64, 65] {
                let b = [vec![s], r.bytes(len)].concat();
                go(c, net, &b);
            }
        }
    }
    let n = c.n(60_000, 1_000_000);
    let mut pool: Vec<(Net, Vec<u8>)> = vec![];
    for i in 0..n {
        if c.saturated() {
            break;
        }
        let net = nets[(i % 5) as usize];
        let b = valid(net, &mut r);
        go(c, net, &b);
        c.sample("valid key", || json!({"network": format!("{net:?}"), "key": hex(&b)}));
        let m = mutate(&mut r, &b);
        go(c, net, &m);
        pool.push((net, b));
        if i % 8 == 0 {
            fields(c, &mut r);
        }
    }
    // different keys stay different and equal keys hash alike
    let mut legacy: std::collections::HashMap<LegacyHistoryContentKey, Vec<u8>> = Default::default();
    for (net, b) in &pool {
        if *net == Net::Legacy {
            if let Ok(k) = LegacyHistoryContentKey::try_from_bytes(b) {
                let again = LegacyHistoryContentKey::try_from_bytes(b).unwrap();
                c.check_eq(&hash_of(&k), &hash_of(&again), "equal-keys-hash-differently", || hex(b));
                if let Some(old) = legacy.insert(k, b.clone()) {
                    c.check(old == *b, "different-keys-equal", || format!("{} and {}", hex(&old), hex(b)));
                }
                c.event("key used as map key");
            }
        }
    }
    // range identifiers: neighbouring block numbers spread over the id space, and ids are unique
    let mut ids = std::collections::HashMap::new();
    for i in 0..c.n(70_000, 1_000_000) {
        let number = if i < 66_000 { i } else { r.edgy_u64() };
        for (ty, k) in [
            (0u8, HistoryContentKey::new_block_body(number)),
            (1, HistoryContentKey::new_block_receipts(number)),
        ] {
            let id = k.content_id();
            c.check_eq(&id, &range_id(number, ty), "range-id", || format!("block {number} type {ty}"));
            if let Some((on, ot)) = ids.insert(id, (number, ty)) {
                c.check(on == number && ot == ty, "range-id-collision", || format!("{on}/{ot} and {number}/{ty}"));
            }
        }
    }
    c.eval_bulk("range identifiers", ids.len() as u64);
    for net in nets {
        c.require(&format!("{net:?} accepted"), 100);
        c.require(&format!("{net:?} refused"), 100);
    }
    c.require("built bytecode", 100);
    c.require("key used as map key", 100);
}
