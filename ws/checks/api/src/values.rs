//! Content values of all networks: exact layout, lossless round trips, refusal without crashing.
use ethportal_api::{
    types::{
        content_key::beacon::{HistoricalSummariesWithProofKey, LightClientFinalityUpdateKey, LightClientOptimisticUpdateKey},
        content_key::state::{AccountTrieNodeKey, ContractBytecodeKey, ContractStorageTrieNodeKey},
        execution::header_with_proof::BlockHeaderProof,
        state_trie::nibbles::Nibbles,
    },
    BeaconContentKey, BeaconContentValue, ContentValue, HistoryContentKey, HistoryContentValue,
    LegacyHistoryContentKey, LegacyHistoryContentValue, LightClientBootstrapKey,
    LightClientUpdatesByRangeKey, OverlayContentKey, StateContentKey, StateContentValue,
};
use oracle::{
    exec::{self, Block, Era, Hdr, ERAS},
    schema::{self, Fork, FORKS},
    ssz::{container, split_container, split_var_list, var_list, Part},
};
use vcommon::{hex, json, Ctx, Rng};

fn clip(b: &[u8]) -> String {
    if b.len() <= 300 {
        return hex(b);
    }
    format!("{}…({} bytes, hash {})", hex(&b[..120]), b.len(), hex(&oracle::sha256(b)[..4]))
}

/// Reads the value; accepted values must be stable under writing and reading again.
/// Returns what was written for an accepted value.
fn read<V: ContentValue>(c: &mut Ctx, key: &V::TContentKey, b: &[u8], what: &str) -> Option<(V, Vec<u8>)> {
    let (r, peak, _) = {
        let mut out = None;
        let (_, peak, largest) = vcommon::measure_alloc(|| out = Some(vcommon::guard(|| V::decode(key, b))));
        (out.unwrap(), peak, largest)
    };
    // the error text quotes the input in hex, which costs a few times its length
    c.check(peak <= 4_000_000 + 400 * b.len(), "value-decode-memory", || {
        format!("{what}: {} bytes of content made the decoder use {peak} bytes", b.len())
    });
    match r {
        Err(p) => {
            c.violation("value-decode-panics", format!("{what}: {} panics: {p}", clip(b)));
            None
        }
        Ok(Err(_)) => None,
        Ok(Ok(v)) => {
            let enc = match vcommon::guard(|| v.encode().to_vec()) {
                Ok(e) => e,
                Err(p) => {
                    c.violation("value-encode-panics", format!("{what}: {} panics: {p}", clip(b)));
                    return None;
                }
            };
            match vcommon::guard(|| V::decode(key, &enc).map(|v| v.encode().to_vec())) {
                Ok(Ok(again)) => {
                    c.check(again == enc, "value-unstable", || format!("{what}: {} written as {} then as {}", clip(b), clip(&enc), clip(&again)));
                }
                other => c.violation("written-value-unreadable", format!("{what}: {} written as {}: {other:?}", clip(b), clip(&enc))),
            }
            let text = format!("0x{}", hex(b));
            c.check(v.to_hex() == format!("0x{}", hex(&enc)), "value-hex", || what.to_string());
            c.check(V::from_hex(key, &text).is_ok(), "value-hex-reading", || what.to_string());
            Some((v, enc))
        }
    }
}

fn exact<V: ContentValue>(c: &mut Ctx, key: &V::TContentKey, b: &[u8], what: &str) -> Option<V> {
    c.eval(what, b);
    c.sample(what, || json!(clip(b)));
    match read::<V>(c, key, b, what) {
        Some((v, enc)) => {
            c.check(enc == b, "value-changes", || format!("{what}: {} written as {}", clip(b), clip(&enc)));
            Some(v)
        }
        None => {
            if !c.violated() {
                c.violation("valid-value-refused", format!("{what}: {}", clip(b)));
            }
            None
        }
    }
}

/// A damaged value: `want` says whether it must be refused (Some(false)), accepted, or is unspecified.
fn hostile<V: ContentValue>(c: &mut Ctx, key: &V::TContentKey, b: &[u8], what: &str, want: Option<bool>) {
    c.eval(&format!("damaged {what}"), b);
    let got = read::<V>(c, key, b, what);
    if let Some(w) = want {
        if w != got.is_some() {
            c.violation(if w { "valid-value-refused" } else { "malformed-value-accepted" }, format!("{what}: {}", clip(b)));
        } else if let Some((_, enc)) = got {
            c.check(enc == b, "value-changes", || format!("{what}: {} written as {}", clip(b), clip(&enc)));
        }
    }
}

fn damage(r: &mut Rng, b: &[u8]) -> Vec<u8> {
    if b.len() < 200 || r.bool() {
        return crate::keys::mutate(r, b);
    }
    // keep most of a large value, disturb one region
    let mut v = b.to_vec();
    match r.below(4) {
        0 => {
            let n = r.usize_in(0, v.len());
            v.truncate(n);
        }
        1 => {
            let i = r.index(v.len().min(64));
            v[i] = r.u8();
        }
        2 => {
            let i = r.index(v.len());
            v[i] ^= 1 << r.below(8);
        }
        _ => v.push(r.u8()),
    }
    v
}

/// Proof bytes as prescribed for a header at this time and number.
fn proof_len(h: &Hdr) -> (usize, &'static str) {
    if h.timestamp >= exec::CANCUN_TIME {
        (13 * 32 + 32 + 12 * 32 + 8, "Deneb")
    } else if h.timestamp >= exec::SHANGHAI_TIME {
        (13 * 32 + 32 + 11 * 32 + 8, "Capella")
    } else if h.number >= exec::PARIS_BLOCK {
        (14 * 32 + 32 + 11 * 32 + 8, "Roots")
    } else {
        (15 * 32, "Hashes")
    }
}

fn legacy(c: &mut Ctx, r: &mut Rng, era: Era) {
    use LegacyHistoryContentKey as K;
    use LegacyHistoryContentValue as V;
    let b = Block::random(r, era, 6);
    let h = b.header.clone();
    let by_hash = if r.bool() { K::new_block_header_by_hash(h.hash()) } else { K::new_block_header_by_number(h.number) };
    // fork boundaries decide the proof kind
    let mut hp = h.clone();
    match r.below(7) {
        0 => hp.timestamp = exec::CANCUN_TIME - 1,
        1 => hp.timestamp = exec::CANCUN_TIME,
        2 => hp.timestamp = exec::SHANGHAI_TIME - 1,
        3 => hp.timestamp = exec::SHANGHAI_TIME,
        4 => {
            hp.number = exec::PARIS_BLOCK - 1;
            hp.timestamp = 1_663_224_000
        }
        5 => {
            hp.number = exec::PARIS_BLOCK;
            hp.timestamp = 1_663_224_179
        }
        _ => {}
    }
    let (len, kind) = proof_len(&hp);
    let value = container(&[Part::Var(hp.rlp()), Part::Var(r.bytes(len))]);
    if let Some(v) = exact::<V>(c, &by_hash, &value, "header with proof") {
        let got = match &v {
            V::BlockHeaderWithProof(p) => match p.proof {
                BlockHeaderProof::HistoricalHashes(_) => "Hashes",
                BlockHeaderProof::HistoricalRoots(_) => "Roots",
                BlockHeaderProof::HistoricalSummariesCapella(_) => "Capella",
                BlockHeaderProof::HistoricalSummariesDeneb(_) => "Deneb",
            },
            _ => "another kind of value",
        };
        c.check_eq(&got, &kind, "proof-kind", || format!("header {} at {}", hp.number, hp.timestamp));
        c.event(&format!("proof kind {kind}"));
    }
    // a proof of any other length is refused
    let other = *r.pick(&[0usize, 1, len - 1, len + 1, len + 32, len - 32, 480, 840, 808, 1024, 1025]);
    let wrong = container(&[Part::Var(hp.rlp()), Part::Var(r.bytes(other))]);
    hostile::<V>(c, &by_hash, &wrong, "header with proof", (other != len).then_some(false));
    let d = damage(r, &value);
    hostile::<V>(c, &by_hash, &d, "header with proof", None);

    let key = K::new_block_body(h.hash());
    let body = b.body_ssz();
    exact::<V>(c, &key, &body, "legacy body");
    let d = damage(r, &body);
    hostile::<V>(c, &key, &d, "legacy body", None);
    if era < Era::Paris {
        // withdrawals together with uncles do not exist
        let w = container(&[
            Part::Var(var_list(&b.txs)),
            Part::Var(oracle::rlp::list(&[h.rlp()])),
            Part::Var(var_list(&[])),
        ]);
        hostile::<V>(c, &key, &w, "legacy body", Some(false));
    }
    let key = K::new_block_receipts(h.hash());
    let rec = b.receipts_ssz();
    exact::<V>(c, &key, &rec, "legacy receipts");
    let d = damage(r, &rec);
    hostile::<V>(c, &key, &d, "legacy receipts", None);

    let key = K::new_ephemeral_headers_find_content(h.hash(), 3);
    let n = r.usize_in(0, 4);
    let hs: Vec<Vec<u8>> = (0..n).map(|_| Hdr::random(r, era).rlp()).collect();
    let eph = var_list(&hs);
    exact::<V>(c, &key, &eph, "ephemeral headers");
    let d = damage(r, &eph);
    hostile::<V>(c, &key, &d, "ephemeral headers", None);
    if r.chance(1, 30) {
        let many = |n| var_list(&vec![h.rlp(); n]);
        hostile::<V>(c, &key, &many(256), "ephemeral headers", Some(true));
        hostile::<V>(c, &key, &many(257), "ephemeral headers", Some(false));
        c.event("ephemeral header limit");
    }
    let key = K::new_ephemeral_header_offer(h.hash());
    let off = container(&[Part::Var(h.rlp())]);
    exact::<V>(c, &key, &off, "ephemeral offer");
    let d = damage(r, &off);
    hostile::<V>(c, &key, &d, "ephemeral offer", None);
}

fn history(c: &mut Ctx, r: &mut Rng, era: Era) {
    let b = Block::random(r, era, 6);
    for (key, value, what) in [
        (HistoryContentKey::new_block_body(b.header.number), b.body_rlp(), "body"),
        (HistoryContentKey::new_block_receipts(b.header.number), b.receipts_rlp7642(), "receipts"),
    ] {
        exact::<HistoryContentValue>(c, &key, &value, what);
        let d = damage(r, &value);
        hostile::<HistoryContentValue>(c, &key, &d, what, None);
        let mut t = value.clone();
        t.push(r.u8());
        hostile::<HistoryContentValue>(c, &key, &t, what, Some(false));
        let mut t = value;
        t.pop();
        hostile::<HistoryContentValue>(c, &key, &t, what, Some(false));
    }
}

fn trie_proof_ok(b: &[u8]) -> bool {
    split_var_list(b, 65).is_some_and(|l| l.iter().all(|n| n.len() <= 1024))
}

fn state_ok(key: &StateContentKey, b: &[u8]) -> bool {
    match key {
        StateContentKey::AccountTrieNode(_) => {
            split_container(b, &[None, Some(32)]).is_some_and(|f| trie_proof_ok(&f[0]))
                || split_container(b, &[None]).is_some_and(|f| f[0].len() <= 1024)
        }
        StateContentKey::ContractStorageTrieNode(_) => {
            split_container(b, &[None, None, Some(32)]).is_some_and(|f| trie_proof_ok(&f[0]) && trie_proof_ok(&f[1]))
                || split_container(b, &[None]).is_some_and(|f| f[0].len() <= 1024)
        }
        StateContentKey::ContractBytecode(_) => {
            split_container(b, &[None, None, Some(32)]).is_some_and(|f| f[0].len() <= 32768 && trie_proof_ok(&f[1]))
                || split_container(b, &[None]).is_some_and(|f| f[0].len() <= 32768)
        }
    }
}

fn state(c: &mut Ctx, r: &mut Rng) {
    use StateContentValue as V;
    let path = Nibbles::try_from_unpacked_nibbles(&[1, 2, 3]).unwrap();
    let h = r.array::<32>().into();
    let node = |r: &mut Rng| {
        let n = *r.pick(&[0usize, 1, 33, 532, 1023, 1024]);
        r.bytes(n)
    };
    let proof = |r: &mut Rng| {
        let n = *r.pick(&[0usize, 1, 2, 9, 64, 65]);
        var_list(&(0..n).map(|_| { let n = r.usize_in(0, 60); r.bytes(n) }).collect::<Vec<_>>())
    };
    let acc = StateContentKey::AccountTrieNode(AccountTrieNodeKey { path: path.clone(), node_hash: h });
    let sto = StateContentKey::ContractStorageTrieNode(ContractStorageTrieNodeKey { address_hash: h, path, node_hash: h });
    let cod = StateContentKey::ContractBytecode(ContractBytecodeKey { address_hash: h, code_hash: h });
    let code = |r: &mut Rng| {
        let n = *r.pick(&[0usize, 1, 100, 24576, 32767, 32768]);
        r.bytes(n)
    };
    let cases: Vec<(StateContentKey, Vec<u8>, &'static str)> = vec![
        (acc.clone(), container(&[Part::Var(node(r))]), "account trie node"),
        (acc, container(&[Part::Var(proof(r)), Part::Fixed(r.bytes(32))]), "account trie node with proof"),
        (sto.clone(), container(&[Part::Var(node(r))]), "storage trie node"),
        (
            sto,
            container(&[Part::Var(proof(r)), Part::Var(proof(r)), Part::Fixed(r.bytes(32))]),
            "storage trie node with proof",
        ),
        (cod.clone(), container(&[Part::Var(code(r))]), "bytecode"),
        (
            cod,
            container(&[Part::Var(code(r)), Part::Var(proof(r)), Part::Fixed(r.bytes(32))]),
            "bytecode with proof",
        ),
    ];
    for (key, b, what) in cases {
        if let Some(v) = exact::<V>(c, &key, &b, what) {
            let got = match &v {
                V::TrieNode(_) => "node",
                V::AccountTrieNodeWithProof(_) => "account trie node with proof",
                V::ContractStorageTrieNodeWithProof(_) => "storage trie node with proof",
                V::ContractBytecode(_) => "bytecode",
                V::ContractBytecodeWithProof(_) => "bytecode with proof",
            };
            c.check(got == what || (got == "node" && !what.contains("proof") && what.contains("node")), "state-value-kind", || {
                format!("{what} read as {got}")
            });
        }
        for _ in 0..2 {
            let d = damage(r, &b);
            let ok = state_ok(&key, &d);
            hostile::<V>(c, &key, &d, what, Some(ok));
        }
    }
    // limits
    let big = container(&[Part::Var(r.bytes(1025))]);
    let key = StateContentKey::AccountTrieNode(AccountTrieNodeKey { path: Nibbles::try_from_unpacked_nibbles(&[]).unwrap(), node_hash: h });
    hostile::<V>(c, &key, &big, "account trie node", Some(false));
    let long = container(&[Part::Var(var_list(&vec![vec![0u8; 3]; 66])), Part::Fixed(r.bytes(32))]);
    hostile::<V>(c, &key, &long, "account trie node with proof", Some(false));
}

fn beacon(c: &mut Ctx, r: &mut Rng, fork: Fork) {
    use BeaconContentKey as K;
    use BeaconContentValue as V;
    let boot = K::LightClientBootstrap(LightClientBootstrapKey { block_hash: r.array() });
    let ups = K::LightClientUpdatesByRange(LightClientUpdatesByRangeKey { start_period: 3, count: 2 });
    let fin = K::LightClientFinalityUpdate(LightClientFinalityUpdateKey { finalized_slot: 7 });
    let opt = K::LightClientOptimisticUpdate(LightClientOptimisticUpdateKey { signature_slot: 7 });
    let sum = K::HistoricalSummariesWithProof(HistoricalSummariesWithProofKey { epoch: 4 });
    let v = |r: &mut Rng, t: schema::T, f: Fork| [f.digest().to_vec(), t.ser(&t.gen(r, 3))].concat();
    let n = r.usize_in(0, 3);
    let list: Vec<Vec<u8>> = (0..n)
        .map(|_| {
            let f = *r.pick(&FORKS);
            v(r, schema::lc_update(f), f)
        })
        .collect();
    let cases = [
        (boot, v(r, schema::lc_bootstrap(fork), fork), "bootstrap"),
        (ups, var_list(&list), "updates by range"),
        (fin, v(r, schema::lc_finality_update(fork), fork), "finality update"),
        (opt, v(r, schema::lc_optimistic_update(fork), fork), "optimistic update"),
        (sum, v(r, schema::historical_summaries_with_proof(), fork), "historical summaries"),
    ];
    for (key, b, what) in &cases {
        exact::<V>(c, key, b, what);
        // every truncation around the fork digest, and unknown digests
        for n in 0..8.min(b.len()) {
            if *what != "updates by range" || n % 4 != 0 || n > 0 {
                hostile::<V>(c, key, &b[..n], what, (!(n == 0 && *what == "updates by range")).then_some(false));
            }
        }
        if *what != "updates by range" {
            let mut d = b.clone();
            d[r.index(4)] ^= 1 << r.below(8);
            hostile::<V>(c, key, &d, what, Some(false));
            let mut d = b.clone();
            d.push(0);
            if *what != "historical summaries" {
                // the last field of these types is of fixed length, or ends a list of 64-byte items
                let fixed_tail = b.len() > 4;
                hostile::<V>(c, key, &d, what, fixed_tail.then_some(false).filter(|_| fork == Fork::Bellatrix));
            }
        }
        let d = damage(r, b);
        hostile::<V>(c, key, &d, what, None);
    }
    if !list.is_empty() {
        // short elements inside the list
        for cut in 0..6 {
            let mut l = list.clone();
            let i = r.index(l.len());
            l[i].truncate(cut);
            hostile::<V>(c, &cases[1].0, &var_list(&l), "updates by range", Some(false));
        }
    }
    // a value offered under the key of another type is refused (their sizes and layouts differ)
    let (i, j) = (r.index(5), r.index(5));
    if i != j && i != 1 && j != 1 && fork != Fork::Bellatrix {
        c.event("value under foreign key");
        let got = vcommon::guard(|| V::decode(&cases[i].0, &cases[j].1).is_ok());
        c.check(got == Ok(false), "foreign-value-accepted", || format!("{} read as {}: {got:?}", cases[j].2, cases[i].2));
    }
    if r.chance(1, 10) {
        let one = v(r, schema::lc_update(Fork::Electra), Fork::Electra);
        hostile::<V>(c, &cases[1].0, &var_list(&vec![one.clone(); 128]), "updates by range", Some(true));
        hostile::<V>(c, &cases[1].0, &var_list(&vec![one; 129]), "updates by range", Some(false));
        c.event("updates limit");
    }
}

pub fn content_values(c: &mut Ctx) {
    c.rule("values written by the checker in the prescribed layout must be read and written back byte for byte; damaged values must be refused or be stable, never crash, and never cost memory out of proportion");
    c.assume("transaction, receipt and header objects come from a stand-in for the external library; bytes after a complete header or transaction inside its field are not judged");
    let mut r = c.rng.fork("values");
    let n = c.n(1200, 20_000);
    for i in 0..n {
        if c.saturated() {
            break;
        }
        let era = ERAS[(i % 6) as usize];
        legacy(c, &mut r, era);
        history(c, &mut r, era);
        if i % 2 == 0 {
            state(c, &mut r);
        }
        if i % 4 == 0 {
            beacon(c, &mut r, FORKS[(i / 4 % 4) as usize]);
        }
    }
    // random bytes under random keys
    for _ in 0..c.n(15_000, 300_000) {
        if c.saturated() {
            break;
        }
        let n = r.usize_in(0, 120);
        let mut b = r.bytes(n);
        if r.bool() {
            for x in b.iter_mut().take(8) {
                *x = *r.pick(&[0, 0, 0, 4, 8, 12, 36]);
            }
        }
        c.eval("random bytes", &b);
        let kb: Vec<u8> = match r.below(16) {
            k @ 0..=2 => [vec![k as u8], r.bytes(32)].concat(),
            3 => [vec![3], r.bytes(8)].concat(),
            4 => [vec![4], r.bytes(33)].concat(),
            _ => [vec![5], r.bytes(32)].concat(),
        };
        let k = LegacyHistoryContentKey::try_from_bytes(&kb).unwrap();
        read::<LegacyHistoryContentValue>(c, &k, &b, "random bytes");
        let bk = match r.below(5) {
            0 => [vec![0x10], r.bytes(32)].concat(),
            1 => [vec![0x11], r.bytes(16)].concat(),
            k => [vec![0x10 + k as u8], r.bytes(8)].concat(),
        };
        let k = BeaconContentKey::try_from_bytes(&bk).unwrap();
        if r.bool() && b.len() >= 4 {
            b[..4].copy_from_slice(&FORKS[r.index(4)].digest());
        }
        read::<BeaconContentValue>(c, &k, &b, "random bytes");
        let k = HistoryContentKey::try_from_bytes([vec![r.below(2) as u8], r.bytes(8)].concat()).unwrap();
        read::<HistoryContentValue>(c, &k, &b, "random bytes");
    }
    for k in ["header with proof", "legacy body", "legacy receipts", "ephemeral headers", "ephemeral offer", "body", "receipts", "account trie node", "storage trie node with proof", "bytecode with proof", "bootstrap", "updates by range", "finality update", "optimistic update", "historical summaries", "damaged bootstrap", "proof kind Hashes", "proof kind Roots", "proof kind Capella", "proof kind Deneb", "updates limit", "ephemeral header limit", "value under foreign key"] {
        c.require(k, 1);
    }
}
