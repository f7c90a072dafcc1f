//! Files of beacon blocks with a state.
use e2store::era::{get_beacon_fork, Era};
use ethportal_api::consensus::fork::ForkName;
use oracle::schema::{self, Fork, V};
use ssz::Encode;
use vcommon::{json, Ctx, Rng};

use crate::{entry, frame, split, unframe};

const STARTS: [(Fork, u64, u64); 4] = [
    (Fork::Bellatrix, 4_636_672, 6_209_536),
    (Fork::Capella, 6_209_536, 8_626_176),
    (Fork::Deneb, 8_626_176, 11_649_024),
    (Fork::Electra, 11_649_024, 1 << 40),
];

fn fork_of(slot: u64) -> Fork {
    STARTS.iter().find(|(_, a, b)| (*a..*b).contains(&slot)).expect("supported slot").0
}

fn name(f: Fork) -> ForkName {
    match f {
        Fork::Bellatrix => ForkName::Bellatrix,
        Fork::Capella => ForkName::Capella,
        Fork::Deneb => ForkName::Deneb,
        Fork::Electra => ForkName::Electra,
    }
}

struct Made {
    bytes: Vec<u8>,
    blocks: Vec<(u64, Vec<u8>, u64)>,
    state: Vec<u8>,
    start: u64,
}

fn set(v: &mut V, path: &[usize], raw: Vec<u8>) {
    match v {
        V::Items(f) if path.len() == 1 => f[path[0]] = V::Raw(raw),
        V::Items(f) => set(&mut f[path[0]], &path[1..], raw),
        _ => panic!("not a container"),
    }
}

fn make(r: &mut Rng, start: u64, pool: &[(Fork, V, V)]) -> Made {
    let mut bytes = entry(0x6532, &[]);
    let mut at = vec![None; 8192];
    let mut blocks = vec![];
    // Skipped slots anywhere, including the first and last.
    let n = r.index(60);
    let mut slots: Vec<u64> = (0..n).map(|_| r.below(8192)).collect();
    if r.bool() {
        slots.push(0);
    }
    if r.bool() {
        slots.push(8191);
    }
    slots.sort_unstable();
    slots.dedup();
    let mut number = r.range(15_537_394, 22_000_000);
    for s in slots {
        let f = fork_of(start + s);
        let t = schema::signed_beacon_block(f);
        let mut v = pool.iter().find(|p| p.0 == f).expect("one of each fork").1.clone();
        let block = schema::beacon_block(f);
        let body = schema::beacon_block_body(f);
        let payload = schema::execution_payload(f);
        number += 1;
        set(&mut v, &[0, block.field("slot")], (start + s).to_le_bytes().to_vec());
        set(
            &mut v,
            &[0, block.field("body"), body.field("execution_payload"), payload.field("block_number")],
            number.to_le_bytes().to_vec(),
        );
        let raw = t.ser(&v);
        at[s as usize] = Some(bytes.len() as i64);
        bytes.extend(entry(0x0100, &frame(&raw, 65536)));
        blocks.push((start + s, raw, number));
    }
    // The state is the one at the end of the period.
    let state_slot = start + 8192;
    let f = fork_of(state_slot);
    let t = schema::beacon_state(f);
    let v = &pool.iter().find(|p| p.0 == f).expect("one of each fork").2;
    let state = t.ser(v);
    let state_at = bytes.len() as i64;
    bytes.extend(entry(0x0200, &frame(&state, 65536)));
    let index_at = bytes.len() as i64;
    let mut ix = start.to_le_bytes().to_vec();
    for a in &at {
        ix.extend_from_slice(&(a.unwrap_or(0) - index_at).to_le_bytes());
    }
    ix.extend_from_slice(&8192u64.to_le_bytes());
    bytes.extend(entry(0x6932, &ix));
    let sx_at = bytes.len() as i64;
    let mut sx = state_slot.to_le_bytes().to_vec();
    sx.extend_from_slice(&(state_at - sx_at).to_le_bytes());
    sx.extend_from_slice(&1u64.to_le_bytes());
    bytes.extend(entry(0x6932, &sx));
    Made { bytes, blocks, state, start }
}

fn opened(b: &[u8]) -> Option<Vec<(u16, Vec<u8>)>> {
    split(b)?
        .into_iter()
        .map(|(t, v)| if t < 0x0300 { unframe(v).map(|x| (t, x)) } else { Some((t, v.to_vec())) })
        .collect()
}

fn judge(c: &mut Ctx, r: &mut Rng, m: &Made, i: u64) {
    let what = || format!("file {i} from slot {} with {} blocks", m.start, m.blocks.len());
    let Some(got) = c.no_panic("era-panic", what, || Era::deserialize(&m.bytes)) else { return };
    c.eval("era file", &(i, m.start, m.blocks.len()));
    let e = match got {
        Ok(e) => e,
        Err(e) => return c.violation("era-refused", format!("{}: {e}", what())),
    };
    c.event("era file read");
    c.check_eq(&e.blocks.len(), &m.blocks.len(), "era-block-count", what);
    for (b, (slot, raw, _)) in e.blocks.iter().zip(&m.blocks) {
        c.event("era block");
        c.check(b.block.as_ssz_bytes() == *raw && b.block.slot() == *slot, "era-block", || format!("{}: slot {slot}", what()));
    }
    c.check(e.era_state.state.as_ssz_bytes() == m.state, "era-state", what);
    c.check_eq(&e.epoch_index(), &(m.start / 8192 + 1), "era-epoch", what);
    match Era::deserialize_to_beacon_state(&m.bytes) {
        Ok(s) => {
            c.check(s.as_ssz_bytes() == m.state, "era-state-alone", what);
        }
        Err(e) => c.violation("era-state-refused", format!("{}: {e}", what())),
    }
    match e.write() {
        Ok(w) => {
            let mut a = opened(&w);
            let mut b = opened(&m.bytes);
            c.check(a == b, "era-written", what);
            let _ = (a.take(), b.take());
        }
        Err(e) => c.violation("era-not-written", format!("{}: {e}", what())),
    }
    // which execution blocks are inside
    match (m.blocks.first(), m.blocks.last()) {
        (Some(f), Some(l)) => {
            for n in [f.2, l.2, f.2 - 1, l.2 + 1, 0, u64::MAX, r.range(f.2, l.2)] {
                c.eval("contains", &(i, n));
                c.check_eq(&e.contains(n), &(f.2 <= n && n <= l.2), "contains", || format!("{}: {n} of {}..={}", what(), f.2, l.2));
            }
        }
        _ => {
            c.check(!e.contains(r.u64()), "contains", what);
        }
    }
    // damaged structure
    let es = split(&m.bytes).expect("own file");
    let join = |es: &[(u16, &[u8])]| es.iter().flat_map(|(t, v)| entry(*t, v)).collect::<Vec<u8>>();
    let mut cases: Vec<(&str, Vec<u8>)> = vec![("empty", vec![]), ("version only", entry(0x6532, &[]))];
    for n in 1..4 {
        cases.push(("last entries only", join(&es[es.len() - n..])));
        cases.push(("last entries missing", join(&es[..es.len() - n])));
    }
    if es.len() > 4 {
        let k = 1 + r.index(es.len() - 4);
        let mut x = es.clone();
        x.remove(k);
        cases.push(("block removed", join(&x)));
        let mut x = es.clone();
        x[k].0 = 0x0200;
        cases.push(("block of another type", join(&x)));
        let mut v = x[k].1.to_vec();
        let p = 18 + r.index(v.len() - 18);
        v[p] ^= 1;
        x[k] = (0x0100, &v);
        cases.push(("block bit", join(&x)));
    }
    let mut x = es.clone();
    let n = x.len();
    x.insert(n - 3, (0x0100, es.get(1).map_or(&[][..], |e| e.1)));
    cases.push(("block added", join(&x)));
    cases.push(("truncated", m.bytes[..m.bytes.len() - 1 - r.index(40_000)].to_vec()));
    for (what, b) in cases {
        c.eval("damaged era", &(what.to_string(), vcommon::hash_of(&b)));
        let desc = || format!("{what}, file {i}");
        if let Some(ok) = c.no_panic("damaged-era-panic", desc, || Era::deserialize(&b).is_ok()) {
            c.event("damaged era refused");
            c.check(!ok, "damaged-era-accepted", desc);
        }
        let _ = c.no_panic("damaged-era-panic", desc, || Era::deserialize_to_beacon_state(&b).is_ok());
    }
}

pub fn beacon_files(c: &mut Ctx) {
    c.rule("beacon block files are read into exactly the blocks and state they hold, slot by slot with the fork of the slot, and written back with the same parts");
    for (k, f) in [
        (4_636_672, Fork::Bellatrix),
        (6_209_535, Fork::Bellatrix),
        (6_209_536, Fork::Capella),
        (8_626_175, Fork::Capella),
        (8_626_176, Fork::Deneb),
        (11_649_023, Fork::Deneb),
        (11_649_024, Fork::Electra),
        (u64::MAX, Fork::Electra),
    ] {
        c.eval("fork of slot", &k);
        c.check_eq(&get_beacon_fork(k), &name(f), "fork-of-slot", || format!("{k}"));
    }
    let mut r = c.rng.fork("pool");
    let rounds = c.n(3, 30);
    for round in 0..rounds {
        let pool: Vec<(Fork, V, V)> = STARTS
            .iter()
            .map(|(f, ..)| (*f, schema::signed_beacon_block(*f).gen(&mut r, 2), schema::beacon_state(*f).gen(&mut r, 1)))
            .collect();
        for k in 0..4 {
            let (_, a, b) = STARTS[k];
            let periods = (b.min(14_000_000) - a) / 8192;
            // The last period of a fork ends with the state of the next one.
            let p = if round % 3 == 0 { periods - 1 } else { r.below(periods) };
            let m = make(&mut r, a + p * 8192, &pool);
            let mut rr = r.fork("judge");
            judge(c, &mut rr, &m, round * 4 + k as u64);
        }
        if c.saturated() {
            break;
        }
    }
    c.sample("files", || json!({"rounds": rounds}));
    c.require("era file read", 8);
    c.require("era block", 50);
    c.require("damaged era refused", 50);
}
