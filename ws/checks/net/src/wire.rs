//! Framing of the content items in one transfer.
use bytes::Bytes as RawBytes;
use portalnet::utils::portal_wire::{decode_content_payload, decode_single_content_payload, encode_content_payload};
use vcommon::{hex, Ctx, Rng};

type Bytes = alloy::primitives::Bytes;

fn varint(mut n: u64) -> Vec<u8> {
    let mut v = vec![];
    loop {
        let b = (n & 0x7f) as u8;
        n >>= 7;
        if n == 0 {
            v.push(b);
            return v;
        }
        v.push(b | 0x80);
    }
}
/// Reads one length: the value and the bytes used, or `None` if it doesn't end or is over 64 bits.
fn read(b: &[u8]) -> Option<(u64, usize)> {
    let mut v: u128 = 0;
    for (i, x) in b.iter().enumerate() {
        if i >= 10 {
            return None;
        }
        v |= u128::from(x & 0x7f) << (7 * i);
        if x & 0x80 == 0 {
            return u64::try_from(v).ok().map(|v| (v, i + 1));
        }
    }
    None
}
fn expected(mut b: &[u8]) -> Option<Vec<Vec<u8>>> {
    let mut out = vec![];
    while !b.is_empty() {
        let (n, used) = read(b)?;
        if n > u64::from(u32::MAX) || (b.len() - used) < n as usize {
            return None;
        }
        out.push(b[used..used + n as usize].to_vec());
        b = &b[used + n as usize..];
    }
    Some(out)
}
fn items(r: &mut Rng) -> Vec<Vec<u8>> {
    let n = match r.below(6) {
        0 => 0,
        1 => 1,
        2 => 64,
        _ => r.usize_in(1, 12),
    };
    (0..n)
        .map(|_| {
            let len = match r.below(10) {
                0 => 0,
                1 => 127,
                2 => 128,
                3 => *r.pick(&[16383, 16384, 16385]),
                4 => r.usize_in(0, 40_000),
                _ => r.usize_in(0, 300),
            };
            r.bytes(len)
        })
        .collect()
}

pub fn framing(ctx: &mut Ctx) {
    ctx.rule("a payload is the concatenation, per item, of its length as a LEB128 number and its bytes; reading gives back exactly these items, anything else is refused without reserving memory for it");
    let mut r = ctx.rng.fork("framing");
    for i in 0..ctx.n(1500, 30_000) {
        let its = items(&mut r);
        let want: Vec<u8> = its.iter().flat_map(|i| [varint(i.len() as u64), i.clone()].concat()).collect();
        let bytes: Vec<Bytes> = its.iter().map(|i| Bytes::from(i.clone())).collect();
        let Some(got) = ctx.no_panic("framing/encode", || format!("{} items", its.len()), || encode_content_payload(&bytes)) else { continue };
        ctx.eval("written payload", &want);
        let Ok(got) = got else {
            ctx.violation("framing/refused", j!({"items": its.len()}));
            continue;
        };
        ctx.check(got[..] == want[..], "framing/bytes", || j!({"lens": its.iter().map(|i| i.len()).collect::<Vec<_>>(), "got": got.len(), "want": want.len()}));
        let back = decode_content_payload(Bytes::from(want.clone()));
        let back = back.map(|v| v.iter().map(|b| b.to_vec()).collect::<Vec<_>>());
        ctx.check(back.as_ref().ok() == Some(&its), "framing/round-trip", || j!({"lens": its.iter().map(|i| i.len()).collect::<Vec<_>>()}));
        let one = decode_single_content_payload(Bytes::from(want.clone()));
        ctx.eval("single item", &want);
        ctx.check(
            match &one {
                Ok(b) => its.len() == 1 && b[..] == its[0][..],
                Err(_) => its.len() != 1,
            },
            "framing/single",
            || j!({"items": its.len(), "ok": one.is_ok()}),
        );
        // the same bytes, damaged
        let mut bad = want.clone();
        for _ in 0..r.usize_in(1, 3) {
            match r.below(5) {
                0 if !bad.is_empty() => bad.truncate(r.index(bad.len())),
                1 if !bad.is_empty() => {
                    let at = r.index(bad.len());
                    bad[at] = *r.pick(&[0, 1, 0x7f, 0x80, 0xff]);
                }
                2 => {
                    let n = r.usize_in(1, 12);
                    bad.extend(r.bytes(n));
                }
                3 => bad.splice(0..0, varint(r.edgy_u64())).for_each(drop),
                _ => bad.splice(0..0, [0xff, 0xff, 0xff, 0xff, *r.pick(&[0x00, 0x07, 0x0f, 0x1f, 0x7f])]).for_each(drop),
            }
        }
        hostile(ctx, &bad);
        if i % 4 == 0 {
            let n = r.usize_in(0, 30);
            let b = r.bytes(n);
            hostile(ctx, &b);
        }
    }
    for n in [0u64, 1, 127, 128, 1 << 20, 1 << 28, u32::MAX as u64, 1 << 32, u64::MAX] {
        for tail in [0usize, 1, 100] {
            hostile(ctx, &[varint(n), vec![7; tail]].concat());
        }
    }
    for b in [vec![0x80], vec![0x80; 9], vec![0x80; 40], vec![0x80, 0x00], vec![0x81, 0x00, 9], vec![0xff; 10], [vec![0xff; 9], vec![1]].concat()] {
        hostile(ctx, &b);
    }
    ctx.require("written payload", 1000);
    ctx.require("hostile payload", 1500);
    ctx.require("refused payload", 500);
    let _ = RawBytes::new();
}
fn hostile(ctx: &mut Ctx, b: &[u8]) {
    ctx.eval("hostile payload", &b.to_vec());
    let want = expected(b);
    let input = Bytes::from(b.to_vec());
    let Some((got, _, largest)) = ctx.no_panic("framing/panic", || hex(&b[..b.len().min(60)]), || vcommon::measure_alloc(|| decode_content_payload(input))) else { return };
    let got = got.ok().map(|v| v.iter().map(|x| x.to_vec()).collect::<Vec<_>>());
    // an overlong spelling of a length may be refused or read; nothing else is open
    let overlong = {
        let mut rest = b;
        let mut o = false;
        while let Some((n, used)) = read(rest) {
            o |= used > 1 && rest[used - 1] == 0;
            if (rest.len() - used) < n as usize {
                break;
            }
            rest = &rest[used + n as usize..];
            if rest.is_empty() {
                break;
            }
        }
        o
    };
    if want.is_none() {
        ctx.event("refused payload");
    }
    ctx.check(got == want || (overlong && got.is_none()), "framing/reading", || j!({"payload": hex(&b[..b.len().min(80)]), "len": b.len(), "read": got.as_ref().map(|v| v.len()), "expected": want.as_ref().map(|v| v.len())}));
    ctx.check(largest <= 4 * b.len() + 4096, "framing/memory", || j!({"payload": hex(&b[..b.len().min(40)]), "len": b.len(), "reserved": largest}));
    let one = decode_single_content_payload(Bytes::from(b.to_vec())).ok().map(|x| x.to_vec());
    let want_one = want.filter(|w| w.len() == 1).map(|w| w[0].clone());
    ctx.check(one == want_one || (overlong && one.is_none()), "framing/reading-single", || j!({"payload": hex(&b[..b.len().min(80)]), "read": one.as_ref().map(|v| v.len())}));
}
