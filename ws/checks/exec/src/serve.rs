//! An archive of blocks as it is found on the web.
use std::{
    collections::BTreeMap,
    sync::{Arc, Mutex},
};

use alloy::consensus::Header;
use oracle::{rlp, ssz as ossz};
use trin_execution::e2hs::types::ProcessedBlock;

use super::{chain::time, world::*};

pub const PER_FILE: u64 = 8192;

pub fn entry(ty: u16, v: &[u8]) -> Vec<u8> {
    let mut b = ty.to_be_bytes().to_vec();
    b.extend((v.len() as u32).to_le_bytes());
    b.extend([0, 0]);
    b.extend(v);
    b
}
pub fn frame(b: &[u8]) -> Vec<u8> {
    use std::io::Write;
    let mut e = snap::write::FrameEncoder::new(vec![]);
    e.write_all(b).expect("memory");
    e.into_inner().expect("memory")
}
fn three(header: &Header, body: &[u8]) -> Vec<u8> {
    let n = header.number;
    let proof = if n >= CANCUN {
        13 * 32 + 32 + 12 * 32 + 8
    } else if n >= SHANGHAI {
        13 * 32 + 32 + 11 * 32 + 8
    } else if n >= PARIS {
        14 * 32 + 32 + 11 * 32 + 8
    } else {
        15 * 32
    };
    let mut out = entry(0x0301, &frame(&ossz::var_list(&[alloy_rlp::encode(header), vec![7; proof]])));
    out.extend(entry(0x0400, &frame(body)));
    out.extend(entry(0x0500, &frame(&rlp::list(&[]))));
    out
}
pub fn block(b: &ProcessedBlock) -> Vec<u8> {
    let txs: Vec<Vec<u8>> = b
        .transactions
        .iter()
        .map(|t| {
            let raw = alloy::eips::eip2718::Encodable2718::encoded_2718(&t.transaction);
            if raw[0] >= 0xc0 {
                raw
            } else {
                rlp::bytes(&raw)
            }
        })
        .collect();
    let uncles: Vec<Vec<u8>> = b.uncles.iter().flatten().map(alloy_rlp::encode).collect();
    let mut parts = vec![rlp::list(&txs), rlp::list(&uncles)];
    if let Some(w) = &b.withdrawals {
        parts.push(rlp::list(&w.iter().map(alloy_rlp::encode).collect::<Vec<_>>()));
    }
    three(&b.header, &rlp::list(&parts))
}
/// A block nobody asks for.
fn filler(n: u64) -> Vec<u8> {
    let h = Header {
        number: n,
        timestamp: time(n),
        base_fee_per_gas: (n >= LONDON).then_some(7),
        withdrawals_root: (n >= SHANGHAI).then_some(alloy::consensus::EMPTY_ROOT_HASH),
        blob_gas_used: (n >= CANCUN).then_some(0),
        excess_blob_gas: (n >= CANCUN).then_some(0),
        parent_beacon_block_root: (n >= CANCUN).then_some(Default::default()),
        ..Default::default()
    };
    let mut parts = vec![rlp::list(&[]), rlp::list(&[])];
    if n >= SHANGHAI {
        parts.push(rlp::list(&[]));
    }
    three(&h, &rlp::list(&parts))
}
#[derive(Default)]
pub struct Archive {
    files: BTreeMap<u64, Vec<u8>>,
    blocks: BTreeMap<u64, Vec<u8>>,
    last: u64,
}
/// What becomes of a request.
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Fault {
    NoConnection,
    BreaksOff,
    ServerError,
    Cut,
    Garbled,
    Empty,
}
#[derive(Clone)]
pub struct Site {
    pub archive: Arc<Archive>,
    /// Faults to come, by what is asked for: the list of files or the number of one.
    pub faults: Arc<Mutex<BTreeMap<Option<u64>, Vec<Fault>>>>,
    pub asked: Arc<Mutex<Vec<Option<u64>>>>,
}
impl Archive {
    pub fn put(&mut self, b: &ProcessedBlock) {
        self.put_raw(b.header.number, block(b));
    }
    pub fn put_raw(&mut self, n: u64, raw: Vec<u8>) {
        self.blocks.insert(n, raw);
        self.last = self.last.max(n);
    }
    /// Everything is known: the files can be written.
    pub fn done(mut self) -> Site {
        let first = self.blocks.keys().next().copied().unwrap_or(0) / PER_FILE;
        for index in first..=self.last / PER_FILE {
            let start = index * PER_FILE;
            let spare = filler(start);
            let mut f = entry(0x6532, &[]);
            let mut offsets = vec![];
            for n in start..start + PER_FILE {
                offsets.push(f.len() as u64);
                f.extend(self.blocks.get(&n).unwrap_or(&spare));
            }
            let mut ix = start.to_le_bytes().to_vec();
            for o in &offsets {
                ix.extend(o.to_le_bytes());
            }
            ix.extend((offsets.len() as u64).to_le_bytes());
            f.extend(entry(0x6632, &ix));
            self.files.insert(index, f);
        }
        self.blocks.clear();
        Site { archive: Arc::new(self), faults: Default::default(), asked: Default::default() }
    }
}
impl Site {
    /// From now on requests are answered from this archive.
    pub fn open(&self) {
        let me = self.clone();
        reqwest::answered_by(Some(Arc::new(move |_: &str, url: &str, _: &[u8]| me.answer(url))));
    }
    pub fn fault(&self, of: Option<u64>, f: &[Fault]) {
        self.faults.lock().unwrap().insert(of, f.to_vec());
    }
    pub fn answer(&self, url: &str) -> Option<(u16, Vec<u8>)> {
        let what = url.split("mainnet-").nth(1).and_then(|x| x.split('-').next()).and_then(|x| x.parse().ok());
        self.asked.lock().unwrap().push(what);
        let body = match what {
            None => (0..=self.archive.last / PER_FILE)
                .map(|i| format!("<li><a href=\"mainnet-{i:05}-{:08x}.e2hs\">x</a></li>\n", i * 77))
                .collect::<String>()
                .into_bytes(),
            Some(n) => self.archive.files.get(&n)?.clone(),
        };
        let fault = self.faults.lock().unwrap().get_mut(&what).filter(|f| !f.is_empty()).map(|f| f.remove(0));
        match fault {
            None => Some((200, body)),
            Some(Fault::NoConnection) => None,
            Some(Fault::BreaksOff) => Some((0, body)),
            Some(Fault::ServerError) => Some((500, b"Internal Server Error".to_vec())),
            Some(Fault::Cut) => Some((200, body[..body.len() * 2 / 3].to_vec())),
            Some(Fault::Garbled) => {
                let mut b = body;
                let at = b.len() / 3;
                let to = b.len().min(at + 40);
                for x in &mut b[at..to] {
                    *x ^= 0x5a;
                }
                Some((200, b))
            }
            Some(Fault::Empty) => Some((200, vec![])),
        }
    }
}
