//! Consensus-layer types: SSZ form, hash tree roots and inclusion proofs, against a schema written
//! from the consensus specifications.
use alloy::primitives::B256;
use ethportal_api::{
    consensus::{
        beacon_block::{BeaconBlock, SignedBeaconBlock},
        beacon_state::{BeaconState, HistoricalBatch, RootsPerHistoricalRoot},
        body::{BeaconBlockBody, SyncAggregate},
        execution_payload::{ExecutionPayload, ExecutionPayloadHeader},
        execution_requests::ExecutionRequests,
        fork::ForkName,
        header::BeaconBlockHeader,
        historical_summaries::{historical_summary_index, HistoricalSummaries},
        kzg_commitment::KzgCommitment,
        proof::build_merkle_proof_for_index,
        pubkey::PubKey,
        signature::BlsSignature,
        sync_committee::SyncCommittee,
    },
    light_client::{
        bootstrap::LightClientBootstrap, finality_update::LightClientFinalityUpdate,
        header::LightClientHeader, optimistic_update::LightClientOptimisticUpdate,
        update::LightClientUpdate,
    },
    types::execution::header_with_proof::{
        build_capella_historical_summaries_proof, build_deneb_historical_summaries_proof,
        build_electra_historical_summaries_proof, build_historical_roots_proof,
    },
};
use oracle::{
    schema::{self, Fork, FORKS, T, V},
    sha256, ssz as o, H,
};
use serde::{de::DeserializeOwned, Serialize};
use ssz::{Decode, Encode};
use tree_hash::TreeHash;
use vcommon::{hex, json, Ctx, Rng};

fn name(f: Fork) -> ForkName {
    match f {
        Fork::Bellatrix => ForkName::Bellatrix,
        Fork::Capella => ForkName::Capella,
        Fork::Deneb => ForkName::Deneb,
        Fork::Electra => ForkName::Electra,
    }
}

fn hs(v: &[B256]) -> Vec<H> {
    v.iter().map(|x| x.0).collect()
}

/// Reads, writes, damages. Returns the object for the undamaged form.
fn bytes<X: Encode>(c: &mut Ctx, r: &mut Rng, what: &str, b: &[u8], damage: usize, read: impl Fn(&[u8]) -> Option<X>) -> Option<X> {
    c.eval(what, b);
    c.sample(what, || json!({"bytes": b.len(), "hash": hex(&sha256(b)[..6])}));
    let got = match vcommon::guard(|| read(b)) {
        Ok(Some(x)) => x,
        other => {
            c.violation("valid-object-refused", format!("{what} of {} bytes: {}", b.len(), other.err().unwrap_or("refused".into())));
            return None;
        }
    };
    let again = got.as_ssz_bytes();
    c.check(again == b, "object-changed", || format!("{what}: {} bytes written as {} bytes", b.len(), again.len()));
    c.check(got.ssz_bytes_len() == b.len() || what.contains("range"), "object-length", || format!("{what}: announced {} of {}", got.ssz_bytes_len(), b.len()));
    for _ in 0..if b.is_empty() { 0 } else { damage } {
        let mut m = b.to_vec();
        match r.below(4) {
            0 => m.truncate(r.usize_in(0, b.len())),
            1 => m.push(r.u8()),
            2 => {
                let i = r.index(m.len().min(600));
                m[i] ^= 1 << r.below(8);
            }
            _ => {
                let i = r.index(m.len());
                m[i] = r.u8();
            }
        }
        c.eval(&format!("damaged {what}"), &m);
        if let Some(Some(x)) = c.no_panic("damaged-object-panics", || format!("{what}: {} bytes, hash {}", m.len(), hex(&sha256(&m)[..6])), || read(&m)) {
            // what is accepted is canonical
            let w = x.as_ssz_bytes();
            c.check(w == m, "damaged-object-accepted", || format!("{what}: {} bytes accepted but written as {}", m.len(), w.len()));
        }
    }
    Some(got)
}

fn root<X: TreeHash>(c: &mut Ctx, what: &str, x: &X, want: H) {
    c.event("hash tree root");
    let got = x.tree_hash_root();
    c.check(got.0 == want, "hash-tree-root", || format!("{what}: {} instead of {}", hex(&got.0), hex(&want)));
}

fn json_form<X: Serialize + DeserializeOwned + Encode>(c: &mut Ctx, what: &str, x: &X) {
    let b = x.as_ssz_bytes();
    let v = match vcommon::guard(|| serde_json::to_value(x).map_err(|e| e.to_string())) {
        Ok(Ok(v)) => v,
        e => {
            c.violation("json-writing", format!("{what}: {e:?}"));
            return;
        }
    };
    c.event("json form");
    let back = vcommon::guard(|| serde_json::from_value::<X>(v.clone()).map(|y| y.as_ssz_bytes()).map_err(|e| e.to_string()));
    c.check(matches!(&back, Ok(Ok(y)) if *y == b), "json-round-trip", || format!("{what}: {}", match back { Ok(Ok(_)) => "different".into(), Ok(Err(e)) => e, Err(e) => e }));
}

fn verify(leaf: H, proof: &[H], index: usize, root: H) -> bool {
    let mut h = leaf;
    for (i, p) in proof.iter().enumerate() {
        h = if index >> i & 1 == 1 { oracle::sha2(p, &h) } else { oracle::sha2(&h, p) };
    }
    h == root
}

fn sub<'a>(t: &'a T, v: &'a V, f: &str) -> (&'a T, &'a V) {
    (t.ty(f), v.item(t.field(f)))
}

macro_rules! forked {
    ($c:expr, $r:expr, $what:expr, $f:expr, $t:expr, $v:expr, $X:ty, $dmg:expr) => {{
        let b = $t.ser(&$v);
        let x = bytes::<$X>($c, $r, $what, &b, $dmg, |b| <$X>::from_ssz_bytes(b, name($f)).ok());
        x
    }};
}

fn blocks(c: &mut Ctx, r: &mut Rng, f: Fork) {
    let t = schema::signed_beacon_block(f);
    let v = t.gen(r, 2);
    let Some(sb) = forked!(c, r, "signed block", f, t, v, SignedBeaconBlock, 4) else { return };
    root(c, "signed block", &sb, t.root(&v));
    let (bt, bv) = sub(&t, &v, "message");
    let num = |t: &T, v: &V| u64::from_le_bytes(t.ser(v).try_into().unwrap());
    let (st, sv) = sub(bt, bv, "slot");
    c.check_eq(&sb.slot(), &num(st, sv), "block-slot", String::new);
    let (dt, dv) = sub(bt, bv, "body");
    let (pt, pv) = sub(dt, dv, "execution_payload");
    let (nt, nv) = sub(pt, pv, "block_number");
    c.check_eq(&sb.execution_block_number(), &num(nt, nv), "block-number", String::new);
    let Some(block) = forked!(c, r, "block", f, bt, bv.clone(), BeaconBlock, 2) else { return };
    root(c, "block", &block, bt.root(bv));
    let Some(body) = forked!(c, r, "body", f, dt, dv.clone(), BeaconBlockBody, 2) else { return };
    let body_root = match &body {
        BeaconBlockBody::Bellatrix(b) => b.tree_hash_root(),
        BeaconBlockBody::Capella(b) => b.tree_hash_root(),
        BeaconBlockBody::Deneb(b) => b.tree_hash_root(),
        BeaconBlockBody::Electra(b) => b.tree_hash_root(),
    };
    c.check(body_root.0 == dt.root(dv), "hash-tree-root", || format!("body {f:?}"));
    let Some(payload) = forked!(c, r, "payload", f, pt, pv.clone(), ExecutionPayload, 2) else { return };
    root(c, "payload", &payload, pt.root(pv));
    // proofs
    let want_body = bt.field_proof(bv, "body");
    let want_payload = dt.field_proof(dv, "execution_payload");
    let want_hash = pt.field_proof(pv, "block_hash");
    let all: Vec<H> = [want_hash.clone(), want_payload.clone(), want_body.clone()].concat();
    let got = match &block {
        BeaconBlock::Bellatrix(b) => (b.build_body_root_proof(), b.body.build_execution_payload_proof(), b.body.execution_payload.build_block_hash_proof(), b.build_execution_block_hash_proof()),
        BeaconBlock::Capella(b) => (b.build_body_root_proof(), b.body.build_execution_payload_proof(), b.body.execution_payload.build_block_hash_proof(), b.build_execution_block_hash_proof()),
        BeaconBlock::Deneb(b) => (b.build_body_root_proof(), b.body.build_execution_payload_proof(), b.body.execution_payload.build_block_hash_proof(), b.build_execution_block_hash_proof()),
        BeaconBlock::Electra(b) => (b.build_body_root_proof(), b.body.build_execution_payload_proof(), b.body.execution_payload.build_block_hash_proof(), b.build_execution_block_hash_proof()),
    };
    c.event("block proofs");
    let what = || format!("{f:?}");
    c.check(hs(&got.0) == want_body, "body-proof", what);
    c.check(hs(&got.1) == want_payload, "payload-proof", what);
    c.check(hs(&got.2) == want_hash, "block-hash-proof", what);
    c.check(hs(&got.3) == all, "execution-block-proof", what);
    // full proof of the execution block inside a period of 8192 slots
    let (ht, hv) = sub(pt, pv, "block_hash");
    let leaf = ht.root(hv);
    let slot = r.below(20_000_000);
    let mut roots: Vec<B256> = (0..8192).map(|_| B256::from(r.array::<32>())).collect();
    let idx = (slot % 8192) as usize;
    roots[idx] = B256::from(bt.root(bv));
    let hroots = hs(&roots);
    let list = RootsPerHistoricalRoot::new(roots).unwrap();
    let root_of = o::merkleize(&hroots, 13);
    let (bp, br, ep, s) = match &block {
        BeaconBlock::Bellatrix(b) => {
            let state: Vec<B256> = (0..8192).map(|i| B256::from(sha256(&[i as u8, 1]))).collect();
            let sroot = o::merkleize(&hs(&state), 13);
            let batch = HistoricalBatch { block_roots: list, state_roots: RootsPerHistoricalRoot::new(state).unwrap() };
            root(c, "historical batch", &batch, oracle::sha2(&root_of, &sroot));
            let p = build_historical_roots_proof(slot, &batch, b);
            c.check(p.beacon_block_proof.len() == 14 && verify(p.beacon_block_root.0, &hs(&p.beacon_block_proof), idx, oracle::sha2(&root_of, &sroot)), "period-proof", what);
            (None, p.beacon_block_root, hs(&p.execution_block_proof), p.slot)
        }
        BeaconBlock::Capella(b) => {
            let p = build_capella_historical_summaries_proof(slot, &list, b);
            (Some(hs(&p.beacon_block_proof)), p.beacon_block_root, hs(&p.execution_block_proof), p.slot)
        }
        BeaconBlock::Deneb(b) => {
            let p = build_deneb_historical_summaries_proof(slot, &list, b);
            (Some(hs(&p.beacon_block_proof)), p.beacon_block_root, hs(&p.execution_block_proof), p.slot)
        }
        BeaconBlock::Electra(b) => {
            let p = build_electra_historical_summaries_proof(slot, &list, b);
            (Some(hs(&p.beacon_block_proof)), p.beacon_block_root, hs(&p.execution_block_proof), p.slot)
        }
    };
    c.check(br.0 == bt.root(bv) && s == slot, "period-proof-block", what);
    c.check(ep == all, "period-proof-execution", what);
    if let Some(bp) = bp {
        c.check(bp == o::merkle_proof(&hroots, 13, idx) && verify(br.0, &bp, idx, root_of), "period-proof", what);
    }
    let gindex = { let d = want_hash.len(); let e = want_payload.len(); 12 | 9 << d | 4 << (d + e) };
    c.check(verify(leaf, &ep, gindex, br.0), "execution-proof-unverifiable", what);
}

fn states(c: &mut Ctx, r: &mut Rng, f: Fork) {
    let t = schema::beacon_state(f);
    let v = t.gen(r, 1);
    let Some(s) = forked!(c, r, "state", f, t, v, BeaconState, 1) else { return };
    root(c, "state", &s, t.root(&v));
    let got = match &s {
        BeaconState::Deneb(s) => hs(&s.build_historical_summaries_proof()),
        BeaconState::Electra(s) => hs(&s.build_historical_summaries_proof()),
        _ => return,
    };
    c.event("summaries proof");
    c.check(got == t.field_proof(&v, "historical_summaries"), "summaries-proof", || format!("{f:?}"));
}

fn light(c: &mut Ctx, r: &mut Rng, f: Fork) {
    macro_rules! lc {
        ($what:expr, $t:expr, $X:ty) => {{
            let t = $t;
            let v = t.gen(r, 3);
            if let Some(x) = forked!(c, r, $what, f, t, v, $X, 4) {
                json_form_forked(c, $what, &x, |v| serde_json::from_value::<$X>(v).map(|y| y.as_ssz_bytes()).map_err(|e| e.to_string()), &t.ser(&v), false);
            }
        }};
    }
    lc!("light client header", schema::lc_header(f), LightClientHeader);
    lc!("bootstrap", schema::lc_bootstrap(f), LightClientBootstrap);
    lc!("update", schema::lc_update(f), LightClientUpdate);
    lc!("finality update", schema::lc_finality_update(f), LightClientFinalityUpdate);
    lc!("optimistic update", schema::lc_optimistic_update(f), LightClientOptimisticUpdate);
    let t = schema::execution_payload_header(f);
    let v = t.gen(r, 3);
    if let Some(x) = forked!(c, r, "payload header", f, t, v, ExecutionPayloadHeader, 3) {
        root(c, "payload header", &x, t.root(&v));
    }
}

/// The untagged fork enums may pick an earlier fork for the same JSON; only writing must succeed,
/// and reading must not fail.
fn json_form_forked<X: Serialize>(c: &mut Ctx, what: &str, x: &X, read: impl Fn(vcommon::Value) -> Result<Vec<u8>, String>, _b: &[u8], _same: bool) {
    let v = match vcommon::guard(|| serde_json::to_value(x).map_err(|e| e.to_string())) {
        Ok(Ok(v)) => v,
        e => {
            c.violation("json-writing", format!("{what}: {e:?}"));
            return;
        }
    };
    c.event("json form");
    let back = vcommon::guard(|| read(v.clone()));
    c.check(matches!(&back, Ok(Ok(_))), "json-round-trip", || format!("{what}: {back:?}"));
}

fn plain(c: &mut Ctx, r: &mut Rng) {
    macro_rules! p {
        ($what:expr, $t:expr, $X:ty) => {{
            let t = $t;
            let v = t.gen(r, 3);
            let b = t.ser(&v);
            if let Some(x) = bytes::<$X>(c, r, $what, &b, 3, |b| <$X>::from_ssz_bytes(b).ok()) {
                root(c, $what, &x, t.root(&v));
                json_form(c, $what, &x);
                Some(x)
            } else {
                None
            }
        }};
    }
    p!("block header", schema::beacon_block_header(), BeaconBlockHeader);
    p!("sync aggregate", schema::sync_aggregate(), SyncAggregate);
    p!("historical summaries", schema::historical_summaries(), HistoricalSummaries);
    if r.chance(1, 4) {
        p!("sync committee", schema::sync_committee(), SyncCommittee);
    }
    let t = schema::execution_requests();
    let v = t.gen(r, 2);
    let b = t.ser(&v);
    if let Some(x) = bytes::<ExecutionRequests>(c, r, "execution requests", &b, 3, |b| ExecutionRequests::from_ssz_bytes(b).ok()) {
        root(c, "execution requests", &x, t.root(&v));
        let mut acc = vec![];
        for (i, f) in ["deposits", "withdrawals", "consolidations"].iter().enumerate() {
            let (ft, fv) = sub(&t, &v, f);
            let s = ft.ser(fv);
            if !s.is_empty() {
                acc.extend(sha256(&[vec![i as u8], s].concat()));
            }
        }
        c.check(x.requests_hash().0 == sha256(&acc), "requests-hash", || hex(&b));
    }
    let k: Vec<u8> = r.bytes(48);
    let mut want = sha256(&k);
    want[0] = 1;
    let kz = KzgCommitment(k.clone().try_into().unwrap());
    c.check(kz.calculate_versioned_hash().0 == want, "versioned-hash", || hex(&k));
    // JSON forms of the wrong length are refused
    let n = *r.pick(&[0usize, 1, 47, 48, 49, 95, 96, 97, 200]);
    let text = json!(format!("0x{}", hex(&r.bytes(n))));
    c.eval("key and signature text", &text.to_string());
    let p = vcommon::guard(|| serde_json::from_value::<PubKey>(text.clone()).is_ok());
    c.check(p == Ok(n == 48), "pubkey-json", || format!("{text}: {p:?}"));
    let s = vcommon::guard(|| serde_json::from_value::<BlsSignature>(text.clone()).is_ok());
    c.check(s == Ok(n == 96), "signature-json", || format!("{text}: {s:?}"));
    let kz = vcommon::guard(|| serde_json::from_value::<KzgCommitment>(text.clone()).is_ok());
    c.check(kz == Ok(n == 48), "commitment-json", || format!("{text}: {kz:?}"));
    // merkle proofs over arbitrary leaf counts
    let n = r.usize_in(1, 70);
    let leaves: Vec<H> = (0..n).map(|_| r.array()).collect();
    let i = r.index(n);
    let got = vcommon::guard(|| hs(&build_merkle_proof_for_index(leaves.clone(), i)));
    c.eval("merkle proof", &(n, i));
    c.check(got.is_ok_and(|g| g == o::merkle_proof(&leaves, o::depth_of(n), i)), "merkle-proof", || format!("leaf {i} of {n}"));
    let slot = r.below(40_000_000);
    let want = slot.checked_sub(194_048 * 32).map(|s| (s / 8192) as usize);
    c.check_eq(&historical_summary_index(slot), &want, "summary-index", || slot.to_string());
}

pub fn types(c: &mut Ctx) {
    c.rule("objects generated from an independent schema of the consensus specification must be read, written back byte for byte and hashed to the schema's root; proofs must equal the schema's and verify; damaged bytes are refused or canonical");
    c.assume("serialization and hashing primitives are stand-ins for the external libraries; the field lists, limits and proof positions judged are the repository's");
    let mut r = c.rng.fork("consensus");
    for (f, d) in FORKS.iter().map(|f| (*f, f.digest())) {
        c.check(name(f).as_fork_digest() == d, "fork-digest", || format!("{f:?}"));
        c.check(ForkName::try_from(d).is_ok_and(|x| x == name(f)), "fork-digest-reading", || format!("{f:?}"));
    }
    for _ in 0..c.n(20_000, 200_000) {
        let d: [u8; 4] = if r.bool() { r.array() } else { let mut d = FORKS[r.index(4)].digest(); d[r.index(4)] ^= 1 << r.below(8); d };
        c.eval("foreign digest", &d);
        if ForkName::try_from(d).is_ok() && !FORKS.iter().any(|f| f.digest() == d) {
            c.violation("foreign-digest-accepted", hex(&d));
        }
    }
    for s in [0u64, 194_048 * 32 - 1, 194_048 * 32, 194_048 * 32 + 8191, 194_048 * 32 + 8192] {
        let want = s.checked_sub(194_048 * 32).map(|x| (x / 8192) as usize);
        c.check_eq(&historical_summary_index(s), &want, "summary-index", || s.to_string());
    }
    for i in 0..c.n(160, 4_000) {
        if c.saturated() {
            break;
        }
        let f = FORKS[(i % 4) as usize];
        blocks(c, &mut r, f);
        light(c, &mut r, f);
        for _ in 0..8 {
            plain(c, &mut r);
        }
        if i < 4 || i % 8 == 0 {
            states(c, &mut r, f);
        }
    }
    for k in ["signed block", "block", "body", "payload", "state", "bootstrap", "update", "finality update", "optimistic update", "light client header", "payload header", "block header", "sync committee", "execution requests", "hash tree root", "block proofs", "summaries proof", "merkle proof", "key and signature text"] {
        c.require(k, 2);
    }
}
