//! Files with a flat copy of the state.
use std::path::Path;

use alloy::primitives::{B256, U256};
use alloy_rlp::Decodable;
use e2store::e2ss::{AccountEntry, AccountOrStorageEntry, E2SSReader, E2SSWriter, StorageEntry, StorageItem};
use ethportal_api::types::state_trie::account_state::AccountState;
use oracle::{exec::Hdr, rlp};
use vcommon::{hex, json, Ctx, Rng};

use crate::{entry, frame, scratch, split, unframe};

type Account = ([u8; 32], u64, [u8; 32], [u8; 32], [u8; 32], Vec<u8>, u32);

fn account(r: &mut Rng, storage: u32) -> (Account, AccountOrStorageEntry, Vec<u8>) {
    let n = match r.below(6) {
        0 => 0,
        1 => r.usize_in(54, 58),
        2 => 24_576,
        3 => 1,
        _ => r.index(400),
    };
    let mut bal = [0u8; 32];
    let k = r.index(33);
    r.fill(&mut bal[32 - k..]);
    let a: Account = (r.array(), r.edgy_u64(), bal, r.array(), r.array(), r.bytes(n), storage);
    let e = AccountOrStorageEntry::Account(AccountEntry {
        address_hash: B256::from(a.0),
        account_state: AccountState {
            nonce: a.1,
            balance: U256::from_be_bytes(a.2),
            storage_root: B256::from(a.3),
            code_hash: B256::from(a.4),
        },
        bytecode: a.5.clone(),
        storage_count: storage,
    });
    // The code is a list of single-byte numbers.
    let code = rlp::list(&a.5.iter().map(|b| rlp::uint(*b as u128)).collect::<Vec<_>>());
    let raw = rlp::list(&[
        rlp::bytes(&a.0),
        rlp::list(&[rlp::uint(a.1 as u128), rlp::uint_be(&a.2), rlp::bytes(&a.3), rlp::bytes(&a.4)]),
        code,
        rlp::uint(storage as u128),
    ]);
    (a, e, raw)
}

fn storage(r: &mut Rng) -> (AccountOrStorageEntry, Vec<u8>) {
    let n = match r.below(4) {
        0 => 0,
        1 => r.usize_in(1, 3),
        _ => r.index(60),
    };
    let items: Vec<([u8; 32], [u8; 32])> = (0..n)
        .map(|_| {
            let mut v = [0u8; 32];
            let k = r.index(33);
            r.fill(&mut v[32 - k..]);
            (r.array(), v)
        })
        .collect();
    let e = AccountOrStorageEntry::Storage(StorageEntry(
        items.iter().map(|(k, v)| StorageItem { storage_index_hash: B256::from(*k), value: U256::from_be_bytes(*v) }).collect(),
    ));
    let raw = rlp::list(&items.iter().map(|(k, v)| rlp::list(&[rlp::bytes(k), rlp::uint_be(v)])).collect::<Vec<_>>());
    (e, raw)
}

fn read(p: &Path) -> Result<(alloy::consensus::Header, Vec<AccountOrStorageEntry>), String> {
    let rd = E2SSReader::open(p).map_err(|e| e.to_string())?;
    Ok((rd.header.header.clone(), rd.collect()))
}

fn one(c: &mut Ctx, i: u64) {
    let mut r = c.rng.fork(&format!("state{i}"));
    let dir = scratch();
    let era = *r.pick(&oracle::exec::ERAS);
    let h = Hdr::random(&mut r, era);
    let header = alloy::consensus::Header::decode(&mut h.rlp().as_slice()).expect("header of the checker is readable");
    let mut w = match E2SSWriter::create(&dir.path().join("x").join("y"), header.clone()) {
        Ok(w) => w,
        Err(e) => return c.violation("create-refused", e.to_string()),
    };
    let path = w.path().to_path_buf();
    let name = format!("mainnet-{:010}-{}.e2ss", h.number, &hex(&h.state_root).trim_start_matches("0x")[..8]);
    c.check_eq(&path.file_name().map(|n| n.to_string_lossy().to_string()), &Some(name), "file-name", String::new);
    c.check(E2SSWriter::create(&dir.path().join("x").join("y"), header.clone()).is_err(), "existing-file-overwritten", String::new);
    let mut plain = entry(0x6532, &[]);
    plain.extend(entry(0x0300, &frame(&h.rlp(), 65536)));
    let mut want = vec![];
    let mut pending = 0u32;
    for step in 0..r.index(40) {
        let what = || format!("file {i} step {step} with {pending} storage entries due");
        let acct = r.chance(if pending > 0 { 1 } else { 5 }, 6);
        let (e, raw, ty, ok) = if acct {
            let n = match r.below(6) {
                0..=2 => 0,
                3 => 2,
                _ => 1,
            };
            let (_, e, raw) = account(&mut r, n);
            (e, raw, 0x0800, pending == 0)
        } else {
            let (e, raw) = storage(&mut r);
            // Only the last of an account's storage entries may be short.
            (e, raw, 0x0900, pending == 1)
        };
        let got = w.append_entry(&e);
        c.eval("append", &(i, step, acct, pending));
        c.check_eq(&got.is_ok(), &ok, if acct { "account-order" } else { "storage-order" }, what);
        if got.is_ok() {
            pending = match &e {
                AccountOrStorageEntry::Account(a) => a.storage_count,
                _ => pending.saturating_sub(1),
            };
            plain.extend(entry(ty, &frame(&raw, 65536)));
            want.push(e);
        } else {
            c.event("refused entry");
        }
        if pending == 2 {
            // A second storage entry would only be accepted after ten million items: end here.
            break;
        }
    }
    c.check(w.flush().is_ok(), "flush", String::new);
    drop(w);
    let bytes = std::fs::read(&path).unwrap_or_default();
    let open = |b: &[u8]| -> Option<Vec<(u16, Vec<u8>)>> {
        split(b)?.into_iter().map(|(t, v)| if v.is_empty() { Some((t, vec![])) } else { unframe(v).map(|x| (t, x)) }).collect()
    };
    c.eval("state file", &i);
    c.check(open(&bytes).is_some() && open(&bytes) == open(&plain), "written-parts", || format!("file {i}"));
    // An account waiting for storage that never comes is reported by a stop of the reader.
    if pending == 0 {
        for (b, kind) in [(&bytes, "written"), (&plain, "independent")] {
            let p = dir.path().join(kind);
            std::fs::write(&p, b).expect("scratch file");
            let what = || format!("{kind} file {i}");
            match c.no_panic("reader-panic", what, || read(&p)) {
                Some(Ok((hd, es))) => {
                    c.event("read back");
                    c.check(hd == header, "header", what);
                    c.check(es == want, "entries", || format!("{}: {} instead of {}", what(), es.len(), want.len()));
                }
                Some(Err(e)) => c.violation("reader-refused", format!("{}: {e}", what())),
                None => {}
            }
        }
        // A file must start with version and header.
        let es = split(&bytes).expect("checked");
        for k in 0..2 {
            let mut x = es.clone();
            x.remove(k);
            let p = dir.path().join("damaged");
            std::fs::write(&p, x.iter().flat_map(|(t, v)| entry(*t, v)).collect::<Vec<u8>>()).expect("scratch file");
            let what = || format!("file {i} without part {k}");
            if let Some(r) = c.no_panic("open-panic", what, || E2SSReader::open(&p).is_ok()) {
                c.eval("damaged state file", &(i, k));
                c.check(!r, "damaged-file-opened", what);
            }
        }
    } else {
        c.event("unfinished account");
        let p = dir.path().join("unfinished");
        std::fs::write(&p, &bytes).expect("scratch file");
        // The reader must not present it as complete.
        let r = vcommon::guard(|| read(&p));
        c.check(r.is_err() || r.is_ok_and(|x| x.is_err()), "unfinished-file-accepted", || format!("file {i}"));
    }
}

pub fn state_files(c: &mut Ctx) {
    c.rule("state files hold exactly the accounts and storage appended, in the prescribed order only, and are read back identically");
    for i in 0..c.n(300, 6000) {
        one(c, i);
        if c.saturated() {
            break;
        }
    }
    c.sample("files", || json!("see events"));
    c.require("state file", 100);
    c.require("read back", 100);
    c.require("refused entry", 50);
}
