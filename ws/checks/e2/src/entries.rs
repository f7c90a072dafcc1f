//! Files as sequences of typed entries.
use std::io::{BufReader, BufWriter, Cursor};

use e2store::e2store::{
    memory::E2StoreMemory,
    stream::{E2StoreStreamReader, E2StoreStreamWriter},
    types::{Entry, VersionEntry},
};
use vcommon::{hex, json, measure_alloc, Ctx, Rng};

use crate::{entry, split};

fn parts(r: &mut Rng) -> Vec<(u16, Vec<u8>)> {
    let types = [0x0100u16, 0x0200, 0x0300, 0x0301, 0x0400, 0x0500, 0x0600, 0x0700, 0x6532, 0x6632, 0x6932, 0, 0xffff, 0x00ff];
    (0..r.index(12))
        .map(|_| {
            let ty = if r.chance(1, 4) { r.u32() as u16 } else { *r.pick(&types) };
            let n = match r.below(8) {
                0 => 0,
                1 => r.usize_in(250, 260),
                2 => r.usize_in(65_530, 65_540),
                _ => r.index(60),
            };
            (ty, r.bytes(n))
        })
        .collect()
}

fn streamed(bytes: &[u8]) -> (Vec<Entry>, bool) {
    let mut rd = E2StoreStreamReader::new(BufReader::new(Cursor::new(bytes))).expect("reader");
    let mut out = vec![];
    loop {
        match rd.next_entry() {
            Ok(e) => out.push(e),
            Err(e) => {
                let eof = e2store::utils::underlying_io_error_kind(&e) == Some(std::io::ErrorKind::UnexpectedEof);
                return (out, eof);
            }
        }
    }
}

fn same(e: &Entry, w: &(u16, &[u8])) -> bool {
    e.header.type_ == w.0 && e.value == w.1 && e.header.length as usize == w.1.len() && e.header.reserved == 0
}

fn judge(c: &mut Ctx, bytes: &[u8], what: &str) {
    let want = split(bytes);
    let desc = || format!("{what}: {} bytes {}", bytes.len(), hex(&bytes[..bytes.len().min(80)]));
    c.eval("file", &(what.to_string(), vcommon::hash_of(&bytes)));
    let Some((got, peak, _)) = c.no_panic("read-panic", desc, || measure_alloc(|| E2StoreMemory::deserialize(bytes))) else { return };
    c.check(peak <= bytes.len() * 40 + 65_536, "memory-out-of-proportion", || format!("{peak} for {}", desc()));
    match (&got, &want) {
        (Ok(g), Some(w)) => {
            c.event("read");
            c.check(g.entries.len() == w.len() && g.entries.iter().zip(w).all(|(e, w)| same(e, w)), "entries", desc);
            c.check_eq(&g.length(), &bytes.len(), "length", desc);
        }
        (Err(_), None) => c.event("refused"),
        (Ok(_), None) => c.violation("malformed-accepted", desc()),
        (Err(e), Some(_)) => c.violation("wellformed-refused", format!("{}: {e}", desc())),
    }
    if let Ok(g) = got {
        let back = Vec::<u8>::try_from(g);
        c.check(back.as_ref().is_ok_and(|b| b == bytes), "written-back", desc);
    }
    // A single entry is read exactly from its own bytes.
    let single = c.no_panic("entry-panic", desc, || Entry::deserialize(bytes));
    if let Some(s) = single {
        c.check_eq(&s.is_ok(), &want.as_ref().is_some_and(|w| w.len() == 1), "single-entry", desc);
    }
}

/// Streams give the same entries up to the damage.
fn judge_stream(c: &mut Ctx, bytes: &[u8], what: &str) {
    // Lengths beyond the input would only make the reader reserve memory.
    let mut at = 0;
    let mut want: Vec<(u16, &[u8])> = vec![];
    let mut clean = true;
    while at < bytes.len() {
        let Some(h) = bytes.get(at..at + 8) else { break };
        let n = u32::from_le_bytes(h[2..6].try_into().unwrap()) as usize;
        if n > 1 << 24 {
            return;
        }
        if h[6..] != [0, 0] {
            clean = false;
            break;
        }
        let Some(v) = bytes.get(at + 8..at + 8 + n) else { break };
        want.push((u16::from_be_bytes([h[0], h[1]]), v));
        at += 8 + n;
    }
    let desc = || format!("{what}: {} bytes {}", bytes.len(), hex(&bytes[..bytes.len().min(80)]));
    c.eval("stream", &(what.to_string(), vcommon::hash_of(&bytes)));
    let Some((got, eof)) = c.no_panic("stream-panic", desc, || streamed(bytes)) else { return };
    c.check(got.len() == want.len() && got.iter().zip(&want).all(|(e, w)| same(e, w)), "streamed-entries", desc);
    c.check_eq(&eof, &clean, "stream-end", desc);
}

pub fn containers(c: &mut Ctx) {
    c.rule("files are read into exactly the entries an independent splitter finds, written back byte for byte, and refused otherwise");
    for i in 0..c.n(1500, 40_000) {
        let mut r = c.rng.fork(&format!("file{i}"));
        let ps = parts(&mut r);
        let bytes: Vec<u8> = ps.iter().flat_map(|(t, v)| entry(*t, v)).collect();
        judge(c, &bytes, "true");
        judge_stream(c, &bytes, "true");
        // written from entries
        let entries: Vec<Entry> = ps.iter().map(|(t, v)| Entry::new(*t, v.clone())).collect();
        let mut sink = vec![];
        {
            let mut w = E2StoreStreamWriter::new(BufWriter::new(&mut sink)).expect("writer");
            for e in &entries {
                c.check(w.append_entry(e).is_ok(), "append", || format!("{i}"));
            }
            c.check(w.flush().is_ok(), "flush", || format!("{i}"));
        }
        c.eval("written", &vcommon::hash_of(&bytes));
        c.check(sink == bytes, "streamed-bytes", || format!("{} entries", ps.len()));
        let m = E2StoreMemory { entries: entries.clone() };
        let mut buf = vec![0xaa; m.length()];
        c.check(m.write(&mut buf).is_ok() && buf == bytes, "memory-bytes", || format!("{} entries", ps.len()));
        for (e, (t, v)) in entries.iter().zip(&ps) {
            c.check(e.serialize().is_ok_and(|b| b == entry(*t, v)), "entry-bytes", || format!("{t:#x} {}", v.len()));
            c.check_eq(&VersionEntry::try_from(e).is_ok(), &(*t == 0x6532 && v.is_empty()), "version-entry", || format!("{t:#x} {}", v.len()));
            let mut short = vec![0; e.length() + 1];
            c.check(e.write(&mut short).is_err() && e.write(&mut short[..e.length() - 1]).is_err(), "wrong-buffer", || format!("{}", v.len()));
        }
        // damaged
        if bytes.is_empty() {
            continue;
        }
        if i < 3 {
            c.sample("file", || json!({"entries": ps.iter().map(|(t, v)| json!([t, v.len()])).collect::<Vec<_>>()}));
        }
        for _ in 0..6 {
            let mut m = bytes.clone();
            let what = match r.below(6) {
                0 => {
                    m.truncate(r.index(m.len()));
                    "truncated"
                }
                1 => {
                    let n = 1 + r.index(9);
                    m.extend(r.bytes(n));
                    "extended"
                }
                2 | 3 => {
                    // headers only
                    let mut at = 0;
                    let k = r.index(ps.len());
                    for (_, v) in &ps[..k] {
                        at += 8 + v.len();
                    }
                    m[at + r.index(8)] ^= 1 << r.below(8);
                    "header bit"
                }
                4 => {
                    let mut at = 0;
                    let k = r.index(ps.len());
                    for (_, v) in &ps[..k] {
                        at += 8 + v.len();
                    }
                    let n = *r.pick(&[u32::MAX, u32::MAX - 7, u32::MAX - 8, 1 << 31, m.len() as u32, (m.len() - at) as u32 - 8]);
                    m[at + 2..at + 6].copy_from_slice(&n.to_le_bytes());
                    "length"
                }
                _ => {
                    let n = r.index(40);
                    m = r.bytes(n);
                    "random"
                }
            };
            judge(c, &m, what);
            judge_stream(c, &m, what);
        }
        if c.saturated() {
            break;
        }
    }
    c.require("read", 500);
    c.require("refused", 500);
    c.require("stream", 500);
}
