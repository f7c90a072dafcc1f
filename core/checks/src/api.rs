use std::{
    collections::{BTreeSet, HashSet},
    str::FromStr,
};

use ethportal_api::{
    consensus::{
        constants::{
            CAPELLA_FORK_EPOCH, DENEB_FORK_EPOCH, ELECTRA_FORK_EPOCH, SECONDS_PER_SLOT,
            SLOTS_PER_EPOCH, SLOTS_PER_HISTORICAL_ROOT,
        },
        fork::ForkName,
    },
    types::{client_type::ClientType, jsonrpc::params::Params},
    utils::bytes::{
        hex_decode, hex_encode, hex_encode_compact, hex_encode_upper, random_32byte_array,
        ByteUtilsError,
    },
};
use hex::FromHexError;
use serde_json::{Map, Number};
use vcommon::{guard, json, Ctx, Rng, Value};

// -------------------------------------------------------------------------------------------
// A01 hexadecimal text

const LOWER: &[u8; 16] = b"0123456789abcdef";
const UPPER: &[u8; 16] = b"0123456789ABCDEF";

fn ref_encode(b: &[u8], digits: &[u8; 16]) -> String {
    let mut s = String::from("0x");
    for x in b {
        s.push(digits[(x >> 4) as usize] as char);
        s.push(digits[(x & 15) as usize] as char);
    }
    s
}

fn ref_compact(b: &[u8]) -> String {
    let full = ref_encode(b, LOWER);
    if b.len() <= 8 {
        full
    } else {
        format!("{}..{}", &full[..6], &full[full.len() - 4..])
    }
}

fn digit(c: u8) -> Option<u8> {
    match c {
        b'0'..=b'9' => Some(c - b'0'),
        b'a'..=b'f' => Some(c - b'a' + 10),
        b'A'..=b'F' => Some(c - b'A' + 10),
        _ => None,
    }
}

fn ref_decode(s: &str) -> Result<Vec<u8>, ByteUtilsError> {
    let b = s.as_bytes();
    if b.len() < 2 || !s.is_char_boundary(2) {
        return Err(ByteUtilsError::NoPrefix {
            data: s.to_string(),
        });
    }
    if !(b[0] == b'0' && (b[1] == b'x' || b[1] == b'X')) {
        return Err(ByteUtilsError::WrongPrefix {
            first_two: s[..2].to_string(),
        });
    }
    let err = |source| ByteUtilsError::HexDecode {
        source,
        data: s.to_string(),
    };
    let d = &b[2..];
    if d.len() % 2 == 1 {
        return Err(err(FromHexError::OddLength));
    }
    let mut out = vec![];
    let mut acc = 0;
    for (i, c) in d.iter().enumerate() {
        match digit(*c) {
            None => {
                return Err(err(FromHexError::InvalidHexCharacter {
                    c: *c as char,
                    index: i,
                }))
            }
            Some(v) if i % 2 == 0 => acc = v << 4,
            Some(v) => out.push(acc | v),
        }
    }
    Ok(out)
}

fn check_text(ctx: &mut Ctx, s: &str) {
    let want = ref_decode(s);
    let Some(got) = ctx.no_panic(
        "hex-decode-panic",
        || format!("decoding {s:?}"),
        || hex_decode(s),
    ) else {
        return;
    };
    ctx.eval(
        match &want {
            Ok(_) => "decode-accepted",
            Err(ByteUtilsError::NoPrefix { .. }) => "decode-no-prefix",
            Err(ByteUtilsError::WrongPrefix { .. }) => "decode-wrong-prefix",
            Err(ByteUtilsError::HexDecode { .. }) => "decode-bad-digits",
        },
        s,
    );
    match (&got, &want) {
        (Ok(a), Ok(b)) => {
            ctx.check(a == b, "hex-decode-value", || {
                format!("{s:?} decoded to {a:?}, expected {b:?}")
            });
        }
        (Err(a), Err(b)) => {
            ctx.check(a == b, "hex-decode-error-kind", || {
                format!("{s:?} refused with {a:?}, expected {b:?}")
            });
            let text = a.to_string();
            let names = match b {
                ByteUtilsError::WrongPrefix { first_two } => first_two.clone(),
                _ => s.to_string(),
            };
            ctx.check(text.contains(&names), "hex-decode-error-text", || {
                format!("error text {text:?} does not name {names:?}")
            });
        }
        (Ok(a), Err(b)) => ctx.violation(
            "hex-decode-accepts-invalid",
            format!("{s:?} accepted as {a:?}, expected {b:?}"),
        ),
        (Err(a), Ok(b)) => ctx.violation(
            "hex-decode-refuses-valid",
            format!("{s:?} refused with {a:?}, expected {b:?}"),
        ),
    }
    ctx.sample("text", || json!({ "input": s, "result": format!("{got:?}") }));
}

fn check_bytes(ctx: &mut Ctx, b: &[u8]) {
    let Some((lower, upper, compact)) = ctx.no_panic(
        "hex-encode-panic",
        || format!("encoding {} bytes", b.len()),
        || {
            (
                hex_encode(b),
                hex_encode_upper(b.to_vec()),
                hex_encode_compact(b),
            )
        },
    ) else {
        return;
    };
    ctx.eval("encode", b);
    ctx.check_eq(&lower, &ref_encode(b, LOWER), "hex-encode", || {
        format!("{b:?}")
    });
    ctx.check_eq(&upper, &ref_encode(b, UPPER), "hex-encode-upper", || {
        format!("{b:?}")
    });
    ctx.check_eq(&compact, &ref_compact(b), "hex-encode-compact", || {
        format!("{b:?}")
    });
    for t in [&lower, &upper] {
        match guard(|| hex_decode(t)) {
            Ok(Ok(back)) if back == b => {}
            other => ctx.violation("hex-round-trip", format!("{t} decoded to {other:?}")),
        }
    }
    ctx.sample("bytes", || json!({ "bytes": b.len(), "compact": compact }));
}

pub fn hex_text(ctx: &mut Ctx) {
    ctx.rule("byte strings: every string of length 0..=2, every length 0..=300 with extreme and random content, random lengths to 20000; texts: every text of up to 4 symbols over a hostile alphabet behind several prefixes, case-mixed encodings, and mutations of valid texts; a case is non-trivial when the whole text or byte string differs from earlier ones");
    check_bytes(ctx, &[]);
    for a in 0..=255u8 {
        check_bytes(ctx, &[a]);
        for b in 0..=255u8 {
            check_bytes(ctx, &[a, b]);
        }
    }
    for len in 0..=300usize {
        check_bytes(ctx, &vec![0u8; len]);
        check_bytes(ctx, &vec![0xff; len]);
        let v = ctx.rng.bytes(len);
        check_bytes(ctx, &v);
    }
    for _ in 0..ctx.n(300, 5000) {
        let len = ctx.rng.index(20000);
        let v = ctx.rng.bytes(len);
        check_bytes(ctx, &v);
    }
    // every short text over a hostile alphabet, bare and behind prefixes
    let alphabet = [
        "0", "x", "X", "9", "a", "f", "F", "g", "G", "-", " ", "é", "\u{0}", "/", ":", "@", "`",
        "٣", "😀", "+", "_", "\n",
    ];
    let mut level: Vec<String> = vec![String::new()];
    for depth in 0..=4 {
        for s in &level {
            check_text(ctx, s);
            for p in ["0x", "0X", "0xab", "1x", "x0", " 0x", "0"] {
                check_text(ctx, &format!("{p}{s}"));
            }
        }
        if depth == 4 || (ctx.quick() && depth == 3) {
            break;
        }
        let mut next = vec![];
        for s in &level {
            for a in alphabet {
                next.push(format!("{s}{a}"));
            }
        }
        level = next;
    }
    // every single byte-valued character, in either digit position
    for c in 0..=0x2ffu32 {
        if let Some(c) = char::from_u32(c) {
            for s in [
                format!("0x{c}0"),
                format!("0x0{c}"),
                format!("0x00{c}"),
                format!("0x000{c}"),
                format!("0{c}00"),
                format!("{c}x00"),
                format!("{c}"),
            ] {
                check_text(ctx, &s);
            }
        }
    }
    // mutations of valid texts
    for _ in 0..ctx.n(100_000, 2_000_000) {
        let len = ctx.rng.index(40);
        let bytes = ctx.rng.bytes(len);
        let mut t: Vec<char> = ref_encode(&bytes, LOWER)
            .chars()
            .map(|c| {
                if ctx.rng.bool() {
                    c.to_ascii_uppercase()
                } else {
                    c
                }
            })
            .collect();
        for _ in 0..ctx.rng.index(3) {
            let pos = ctx.rng.index(t.len());
            match ctx.rng.below(3) {
                0 => {
                    t[pos] = char::from_u32(ctx.rng.below(0x180) as u32).unwrap_or('x');
                }
                1 => {
                    t.remove(pos);
                }
                _ => t.insert(pos, *ctx.rng.pick(&['x', '0', 'f', 'é', ' '])),
            }
            if t.is_empty() {
                break;
            }
        }
        let s: String = t.into_iter().collect();
        check_text(ctx, &s);
    }
    for k in [
        "decode-accepted",
        "decode-no-prefix",
        "decode-wrong-prefix",
        "decode-bad-digits",
        "encode",
    ] {
        ctx.require(k, 20);
    }
}

// -------------------------------------------------------------------------------------------
// A02 random identifiers

fn leading_zeros(b: &[u8; 32]) -> u32 {
    let mut n = 0;
    for x in b {
        n += x.leading_zeros();
        if *x != 0 {
            break;
        }
    }
    n
}

pub fn random_ids(ctx: &mut Ctx) {
    ctx.rule("every requested prefix length 0..=255, many draws each; per prefix length the number of leading zero bits of every draw, and over the draws: every free bit takes both values, every value of the first non-zero byte occurs, no repeated identifiers while enough free bits exist");
    ctx.assume("the generator under test is seeded by the operating system; statistical conclusions are drawn only where the failure probability of a correct generator is below 2^-60");
    let draws = ctx.n(4000, 20000) as usize;
    for n in 0..=255u8 {
        let mut ones = [0usize; 256];
        let mut first = HashSet::new();
        let mut seen = HashSet::new();
        for i in 0..draws {
            let Some(v) = ctx.no_panic(
                "random-id-panic",
                || format!("{n} leading zeros"),
                || random_32byte_array(n),
            ) else {
                return;
            };
            ctx.eval("draw", &v);
            let lz = leading_zeros(&v);
            if !ctx.check(lz == n as u32, "random-id-leading-zeros", || {
                format!("asked for {n} leading zero bits, got {lz}: {}", vcommon::hex(&v))
            }) {
                break;
            }
            for (bit, c) in ones.iter_mut().enumerate() {
                if v[bit / 8] >> (7 - bit % 8) & 1 == 1 {
                    *c += 1;
                }
            }
            first.insert(v[(n / 8) as usize]);
            if n < 128 && !seen.insert(v) {
                ctx.violation(
                    "random-id-repeats",
                    format!("identifier {} drawn twice", vcommon::hex(&v)),
                );
            }
            if i == 0 {
                ctx.sample("draw", || json!({ "leading_zeros": n, "id": vcommon::hex(&v) }));
            }
        }
        if ctx.violated() {
            continue;
        }
        // free bits: 6-sigma-and-more bounds on the number of ones
        let bound = 8.5 * (draws as f64).sqrt() / 2.0;
        for (bit, c) in ones.iter().enumerate().skip(n as usize + 1) {
            let dev = (*c as f64 - draws as f64 / 2.0).abs();
            ctx.check(dev <= bound.max(1.0), "random-id-biased-bit", || {
                format!("{n} leading zeros: bit {bit} set in {c} of {draws} draws")
            });
        }
        let free = 7 - (n % 8);
        let expected = 1usize << free;
        ctx.check(first.len() == expected, "random-id-first-byte-range", || {
            format!(
                "{n} leading zeros: the first non-zero byte took {} of {expected} possible values over {draws} draws",
                first.len()
            )
        });
    }
    // draws from concurrent threads are independent
    let threads: Vec<_> = (0..8)
        .map(|_| std::thread::spawn(|| (0..2000).map(|_| random_32byte_array(3)).collect::<Vec<_>>()))
        .collect();
    let mut all = BTreeSet::new();
    let mut total = 0;
    for t in threads {
        if let Ok(v) = t.join() {
            for x in v {
                total += 1;
                ctx.eval("threaded-draw", &x);
                all.insert(x);
            }
        }
    }
    ctx.check(all.len() == total, "random-id-repeats", || {
        format!("{} distinct of {total} draws from 8 threads", all.len())
    });
    ctx.require("draw", 100_000);
}

// -------------------------------------------------------------------------------------------
// A03 client names

fn mixed_case(rng: &mut Rng, s: &str) -> String {
    s.chars()
        .map(|c| {
            if rng.bool() {
                c.to_ascii_uppercase()
            } else {
                c.to_ascii_lowercase()
            }
        })
        .collect()
}

pub fn client_names(ctx: &mut Ctx) {
    ctx.rule("every known client name in every capitalisation, names with amendments, prefixes, suffixes, typos and unrelated or non-ASCII text; a case is non-trivial when its text is new");
    let known = [
        ("fluffy", ClientType::Fluffy, "Fluffy"),
        ("trin", ClientType::Trin, "Trin"),
        ("trin-execution", ClientType::TrinExecution, "TrinExecution"),
        ("shisui", ClientType::Shisui, "Shisui"),
        ("ultralight", ClientType::Ultralight, "Ultralight"),
        ("samba", ClientType::Samba, "Samba"),
    ];
    let check = |ctx: &mut Ctx, s: &str| {
        let lower = s.to_lowercase();
        let want = known.iter().find(|(n, _, _)| *n == lower);
        let (want, shown) = match want {
            Some((_, c, d)) => (c.clone(), d.to_string()),
            None => (
                ClientType::Unknown(Some(lower.clone())),
                format!("Unknown({lower})"),
            ),
        };
        let Some(got) = ctx.no_panic("client-panic", || format!("{s:?}"), || ClientType::from(s))
        else {
            return;
        };
        ctx.eval(
            if matches!(want, ClientType::Unknown(_)) {
                "unknown-name"
            } else {
                "known-name"
            },
            s,
        );
        ctx.check_eq(&got, &want, "client-identified", || format!("{s:?}"));
        ctx.check_eq(&got.to_string(), &shown, "client-shown", || format!("{s:?}"));
        ctx.sample("name", || json!({ "name": s, "shown": got.to_string() }));
    };
    ctx.check_eq(
        &ClientType::Unknown(None).to_string(),
        &"Unknown".to_string(),
        "client-shown",
        || "a client that reported nothing".into(),
    );
    for (n, c, d) in &known {
        ctx.check_eq(&c.to_string(), &d.to_string(), "client-shown", || n.to_string());
        // every capitalisation (letters only)
        let chars: Vec<char> = n.chars().collect();
        for mask in 0..1u32 << chars.len() {
            let s: String = chars
                .iter()
                .enumerate()
                .map(|(i, c)| {
                    if mask >> i & 1 == 1 {
                        c.to_ascii_uppercase()
                    } else {
                        *c
                    }
                })
                .collect();
            check(ctx, &s);
        }
        // one edit away
        for i in 0..=chars.len() {
            for c in "abcdefghijklmnopqrstuvwxyz0123456789-_ ./TRINé\u{130}\u{212a}\n".chars() {
                let mut ins = chars.clone();
                ins.insert(i, c);
                check(ctx, &ins.iter().collect::<String>());
                if i < chars.len() {
                    let mut sub = chars.clone();
                    sub[i] = c;
                    check(ctx, &sub.iter().collect::<String>());
                }
            }
            if i < chars.len() {
                let mut del = chars.clone();
                del.remove(i);
                check(ctx, &del.iter().collect::<String>());
                check(ctx, &chars[..i].iter().collect::<String>());
                check(ctx, &chars[i..].iter().collect::<String>());
            }
        }
        for (m, _, _) in &known {
            for sep in ["", "-", " ", "/", "_", "\t"] {
                check(ctx, &format!("{n}{sep}{m}"));
                let s = format!("{n}{sep}{m}");
                let s = mixed_case(&mut ctx.rng, &s);
                check(ctx, &s);
            }
        }
        for v in ["/v0.1.0", "-v0.1.0", " ", "\0", "-execution", "execution", "-Execution"] {
            check(ctx, &format!("{n}{v}"));
        }
    }
    for _ in 0..ctx.n(20_000, 400_000) {
        let len = ctx.rng.index(24);
        let s: String = (0..len)
            .map(|_| {
                let r = ctx.rng.below(8);
                let hi = if r == 0 { 0x3000 } else { 0x7f };
                char::from_u32(ctx.rng.below(hi) as u32).unwrap_or('?')
            })
            .collect();
        check(ctx, &s);
    }
    ctx.require("known-name", 1000);
    ctx.require("unknown-name", 1000);
}

// -------------------------------------------------------------------------------------------
// A04 request parameters

fn gen_value(rng: &mut Rng, depth: u32) -> Value {
    let top = if depth == 0 { 6 } else { 8 };
    match rng.below(top) {
        0 => Value::Null,
        1 => Value::Bool(rng.bool()),
        2 => Value::from(rng.edgy_u64()),
        3 => Value::from(rng.edgy_u64() as i64),
        4 => {
            let f = f64::from_bits(rng.u64());
            Number::from_f64(if rng.bool() { f } else { rng.u32() as f64 / 16.0 })
                .map(Value::Number)
                .unwrap_or(Value::Null)
        }
        5 => Value::String(gen_string(rng)),
        6 => {
            let n = rng.index(5);
            Value::Array((0..n).map(|_| gen_value(rng, depth - 1)).collect())
        }
        _ => {
            let n = rng.index(5);
            Value::Object(
                (0..n)
                    .map(|_| (gen_string(rng), gen_value(rng, depth - 1)))
                    .collect(),
            )
        }
    }
}

fn gen_string(rng: &mut Rng) -> String {
    const WORDS: [&str; 14] = [
        "", "0x", "None", "Array", "Map", "null", "jsonrpc", "params", "0x00ff", "é\u{0}\"\\", "[]",
        "{}", "id", "\u{1F600}",
    ];
    if rng.bool() {
        WORDS[rng.index(WORDS.len())].to_string()
    } else {
        let n = rng.index(12);
        (0..n)
            .map(|_| char::from_u32(rng.below(0x250) as u32).unwrap_or('?'))
            .collect()
    }
}

fn params_of(v: &Value) -> Option<Params> {
    match v {
        Value::Null => Some(Params::None),
        Value::Array(a) => Some(Params::Array(a.clone())),
        Value::Object(m) => Some(Params::Map(m.clone())),
        _ => None,
    }
}

fn check_params(ctx: &mut Ctx, text: &str) {
    // the reference reading of the same text: the plain JSON value
    let plain: Result<Value, _> = serde_json::from_str(text);
    let Some(got) = ctx.no_panic(
        "params-panic",
        || format!("reading {text}"),
        || serde_json::from_str::<Params>(text),
    ) else {
        return;
    };
    let want = plain.as_ref().ok().and_then(params_of);
    let kind = match (&plain, &want) {
        (Err(_), _) => "params-invalid-json",
        (_, None) => "params-scalar",
        (_, Some(Params::None)) => "params-absent",
        (_, Some(Params::Array(_))) => "params-positional",
        (_, Some(Params::Map(_))) => "params-named",
    };
    ctx.eval(kind, text);
    match (got, want) {
        (Err(_), None) => {}
        (Ok(p), None) => ctx.violation("params-accepts", format!("{text} accepted as {p:?}")),
        (Err(e), Some(w)) => ctx.violation(
            "params-refuses",
            format!("{text} refused ({e}), expected {w:?}"),
        ),
        (Ok(p), Some(w)) => {
            ctx.check_eq(&p, &w, "params-value", || text.to_string());
            // back to JSON, both ways
            let plain = plain.unwrap_or(Value::Null);
            let as_value: Value = p.clone().into();
            ctx.check_eq(&as_value, &plain, "params-into-value", || text.to_string());
            match serde_json::to_string(&p) {
                Ok(s) => {
                    let direct = serde_json::to_string(&plain).unwrap_or_default();
                    ctx.check_eq(&s, &direct, "params-written", || text.to_string());
                    match serde_json::from_str::<Params>(&s) {
                        Ok(back) => {
                            // reading a float back may differ in the last digit; the reference is
                            // the plain reading of the text that was written
                            let again = serde_json::from_str::<Value>(&s)
                                .ok()
                                .as_ref()
                                .and_then(params_of)
                                .unwrap_or(w.clone());
                            ctx.check_eq(&back, &again, "params-round-trip", || text.to_string());
                        }
                        Err(e) => ctx.violation("params-round-trip", format!("{s}: {e}")),
                    }
                }
                Err(e) => ctx.violation("params-written", format!("{text}: {e}")),
            }
            match serde_json::to_value(&p) {
                Ok(v) => {
                    ctx.check_eq(&v, &plain, "params-to-value", || text.to_string());
                    match serde_json::from_value::<Params>(v) {
                        Ok(back) => {
                            ctx.check_eq(&back, &w, "params-from-value", || text.to_string());
                        }
                        Err(e) => ctx.violation("params-from-value", format!("{text}: {e}")),
                    }
                }
                Err(e) => ctx.violation("params-to-value", format!("{text}: {e}")),
            }
        }
    }
    ctx.sample(kind, || json!(text.chars().take(120).collect::<String>()));
}

pub fn rpc_params(ctx: &mut Ctx) {
    ctx.rule("JSON texts: random nested values of every kind (extreme integers, floats, awkward strings), hand-picked scalars, deep nesting, and byte-level mutations; each is read as request parameters and compared with the plain reading of the same text, then written back through every path; non-trivial when the text is new");
    for t in [
        "null", " null ", "[]", "{}", "[null]", "{\"a\":null}", "true", "false", "0", "-1", "1.5",
        "\"\"", "\"None\"", "\"null\"", "\"[]\"", "", "[", "{", "nul", "[1,]", "{\"a\":1,}",
        "{\"a\":1,\"a\":2}", "[18446744073709551615,-9223372036854775808,18446744073709551616]",
        "[1e400]", "[1e-400]", "[0.1,-0.0,1e308]", "{\"Array\":[1]}", "{\"Map\":{}}",
        "{\"None\":null}", "[[[[[[]]]]]]", "{\"\":{\"\":{}}}", "[\"\\u0000\"]",
    ] {
        check_params(ctx, t);
    }
    for d in [1usize, 5, 50, 100, 120, 124, 125, 126, 127, 128, 129, 130, 200, 1000] {
        check_params(ctx, &format!("{}{}", "[".repeat(d), "]".repeat(d)));
        check_params(
            ctx,
            &format!("{}1{}", "{\"k\":".repeat(d), "}".repeat(d)),
        );
    }
    for n in [100usize, 1000, 20_000] {
        check_params(ctx, &serde_json::to_string(&(0..n).collect::<Vec<_>>()).unwrap_or_default());
        let m: Map<String, Value> = (0..n).map(|i| (format!("k{i}"), json!(i))).collect();
        check_params(ctx, &serde_json::to_string(&m).unwrap_or_default());
    }
    for i in 0..ctx.n(60_000, 800_000) {
        let mut rng = ctx.rng.fork("value");
        let v = gen_value(&mut rng, 4);
        let mut text = if rng.chance(1, 4) {
            serde_json::to_string_pretty(&v)
        } else {
            serde_json::to_string(&v)
        }
        .unwrap_or_default();
        if i % 3 == 0 {
            // mutate the text
            let mut chars: Vec<char> = text.chars().collect();
            for _ in 0..1 + rng.index(2) {
                if chars.is_empty() {
                    break;
                }
                let p = rng.index(chars.len());
                match rng.below(3) {
                    0 => {
                        chars.remove(p);
                    }
                    1 => chars[p] = *rng.pick(&['[', ']', '{', '}', ',', ':', '"', '1', '-', 'n']),
                    _ => chars.insert(p, *rng.pick(&['[', ']', '{', '}', ',', ' ', '"', '0'])),
                }
            }
            text = chars.into_iter().collect();
        }
        check_params(ctx, &text);
    }
    // values built in memory, written and converted
    for _ in 0..ctx.n(5_000, 50_000) {
        let mut rng = ctx.rng.fork("built");
        let v = gen_value(&mut rng, 3);
        if let Some(p) = params_of(&v) {
            ctx.eval("params-built", &v.to_string());
            let out: Value = p.clone().into();
            ctx.check_eq(&out, &v, "params-into-value", || v.to_string());
            ctx.check(p == p.clone(), "params-clone", || v.to_string());
        }
    }
    for k in [
        "params-scalar",
        "params-absent",
        "params-positional",
        "params-named",
        "params-invalid-json",
    ] {
        ctx.require(k, 5);
    }
}

// -------------------------------------------------------------------------------------------
// A05 consensus forks

pub fn fork_identity(ctx: &mut Ctx) {
    ctx.rule("fork digests: the four known ones, everything within two bit flips or one arbitrary byte of them, permutations, and random digests (thorough: also every digest sharing two bytes with a known one); fork names in every capitalisation and one edit away; slot, epoch and activation constants against mainnet activation times; non-trivial when the digest or name is new");
    let table: [(ForkName, [u8; 4], &str, &str); 4] = [
        (ForkName::Bellatrix, [0x4a, 0x26, 0xc5, 0x8b], "bellatrix", "Bellatrix"),
        (ForkName::Capella, [0xbb, 0xa4, 0xda, 0x96], "capella", "Capella"),
        (ForkName::Deneb, [0x6a, 0x95, 0xa1, 0xa9], "deneb", "Deneb"),
        (ForkName::Electra, [0xad, 0x53, 0x2c, 0xeb], "electra", "Electra"),
    ];
    // constants
    let genesis = 1_606_824_023u64;
    for (name, epoch, at) in [
        ("capella", CAPELLA_FORK_EPOCH, 1_681_338_455u64),
        ("deneb", DENEB_FORK_EPOCH, 1_710_338_135),
        ("electra", ELECTRA_FORK_EPOCH, 1_746_612_311),
    ] {
        ctx.eval("activation", name);
        let t = genesis as u128 + epoch as u128 * SLOTS_PER_EPOCH as u128 * SECONDS_PER_SLOT.as_secs() as u128;
        ctx.check_eq(&t, &(at as u128), "fork-activation-time", || name.to_string());
    }
    ctx.check_eq(&SLOTS_PER_EPOCH, &32, "slots-per-epoch", || "constant".into());
    ctx.check_eq(&SLOTS_PER_HISTORICAL_ROOT, &8192, "slots-per-historical-root", || "constant".into());
    ctx.check_eq(&SECONDS_PER_SLOT, &std::time::Duration::from_secs(12), "slot-duration", || "constant".into());

    let lookup = |d: [u8; 4]| table.iter().find(|t| t.1 == d).map(|t| t.0);
    let check_digest = |ctx: &mut Ctx, d: [u8; 4]| {
        let want = lookup(d);
        let Some(got) = ctx.no_panic("fork-panic", || format!("{d:02x?}"), || ForkName::try_from(d)) else {
            return;
        };
        ctx.eval(if want.is_some() { "known-digest" } else { "unknown-digest" }, &d);
        match (&got, want) {
            (Ok(a), Some(b)) if *a == b => {}
            (Err(e), None) => {
                let text = e.to_string();
                let shown = format!("0x{}", vcommon::hex(&d));
                ctx.check(text.contains(&shown), "fork-digest-error-text", || {
                    format!("error for {shown} reads {text:?}")
                });
            }
            _ => ctx.violation("fork-from-digest", format!("{d:02x?} gives {got:?}, expected {want:?}")),
        }
    };
    for (f, d, lower, cap) in &table {
        check_digest(ctx, *d);
        ctx.check_eq(&f.as_fork_digest(), d, "fork-to-digest", || lower.to_string());
        ctx.check_eq(&f.to_string(), &lower.to_string(), "fork-display", || lower.to_string());
        ctx.check_eq(&String::from(*f), &lower.to_string(), "fork-into-string", || lower.to_string());
        ctx.check_eq(&f.as_capitalized_str(), cap, "fork-capitalized", || lower.to_string());
        let bits = u32::from_be_bytes(*d);
        for i in 0..32 {
            check_digest(ctx, (bits ^ 1 << i).to_be_bytes());
            for j in 0..i {
                check_digest(ctx, (bits ^ 1 << i ^ 1 << j).to_be_bytes());
            }
        }
        for pos in 0..4 {
            for v in 0..=255u8 {
                let mut x = *d;
                x[pos] = v;
                check_digest(ctx, x);
            }
        }
        let mut r = *d;
        r.reverse();
        check_digest(ctx, r);
        for k in 1..4 {
            let mut x = *d;
            x.rotate_left(k);
            check_digest(ctx, x);
        }
        for (_, e, _, _) in &table {
            for cut in 1..4 {
                let mut x = *d;
                x[cut..].copy_from_slice(&e[cut..]);
                check_digest(ctx, x);
            }
        }
    }
    check_digest(ctx, [0; 4]);
    check_digest(ctx, [0xff; 4]);
    for _ in 0..ctx.n(1_000_000, 8_000_000) {
        let d = ctx.rng.array::<4>();
        check_digest(ctx, d);
    }
    if !ctx.quick() {
        // every digest that shares two bytes with a known one
        for (_, d, _, _) in &table {
            for i in 0..4 {
                for j in 0..i {
                    for v in 0..=0xffffu32 {
                        let mut x = *d;
                        x[i] = (v >> 8) as u8;
                        x[j] = v as u8;
                        check_digest(ctx, x);
                    }
                }
            }
        }
    }
    // names
    let check_name = |ctx: &mut Ctx, s: &str| {
        let l = s.to_lowercase();
        let want = table
            .iter()
            .find(|t| t.2 == l)
            .map(|t| t.0)
            .or((l == "merge").then_some(ForkName::Bellatrix));
        let Some((a, b)) = ctx.no_panic("fork-name-panic", || format!("{s:?}"), || {
            (ForkName::from_str(s), ForkName::try_from(s.to_string()))
        }) else {
            return;
        };
        ctx.eval(if want.is_some() { "known-name" } else { "unknown-name" }, s);
        ctx.check_eq(&a.clone().ok(), &want, "fork-from-name", || format!("{s:?}"));
        ctx.check_eq(&b.ok(), &want, "fork-from-owned-name", || format!("{s:?}"));
        if let (Err(e), None) = (&a, want) {
            ctx.check(e.contains(s), "fork-name-error-text", || format!("{s:?}: {e}"));
        }
    };
    for n in ["bellatrix", "merge", "capella", "deneb", "electra"] {
        let chars: Vec<char> = n.chars().collect();
        for mask in 0..1u32 << chars.len() {
            let s: String = chars
                .iter()
                .enumerate()
                .map(|(i, c)| if mask >> i & 1 == 1 { c.to_ascii_uppercase() } else { *c })
                .collect();
            check_name(ctx, &s);
        }
        for i in 0..=chars.len() {
            for c in "abcdefghijklmnopqrstuvwxyz ABXZ019-_\u{130}é".chars() {
                let mut ins = chars.clone();
                ins.insert(i, c);
                check_name(ctx, &ins.iter().collect::<String>());
                if i < chars.len() {
                    let mut sub = chars.clone();
                    sub[i] = c;
                    check_name(ctx, &sub.iter().collect::<String>());
                }
            }
            check_name(ctx, &chars[..i].iter().collect::<String>());
            check_name(ctx, &chars[i..].iter().collect::<String>());
        }
    }
    for s in [
        "phase0", "altair", "fulu", "gloas", "paris", "shanghai", "cancun", "prague", "dencun",
        "shapella", "pectra", "0x4a26c58b", "4a26c58b", "capella\0", "base", "genesis",
    ] {
        check_name(ctx, s);
    }
    ctx.sample("digest", || json!({ "digest": "4a26c58b", "fork": ForkName::try_from([0x4a, 0x26, 0xc5, 0x8b]).map(|f| f.to_string()).unwrap_or_default() }));
    ctx.require("known-digest", 4);
    ctx.require("unknown-digest", 1000);
    ctx.require("known-name", 500);
    ctx.require("unknown-name", 500);
}
