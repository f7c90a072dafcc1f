//! What the state network keeps of the content it is told to store.
use std::collections::BTreeMap;

use ethportal_api::{ContentValue, StateContentValue};
use oracle::keccak256;
use vcommon::{hex, json, Ctx, Rng};

use crate::{
    clock,
    judge::{read, spoil},
    serve::{start, Node},
    sub::{Call, Ground},
    tries::{some, verdict, Form, Name, Verdict, World},
    world::fresh,
};

/// Whether a value carries what its key names, with a proof of whatever worth.
fn named(name: &Name, form: &Form) -> bool {
    match (name, form) {
        (Name::Account { hash, .. }, Form::Proof(p)) | (Name::Storage { hash, .. }, Form::Both { storage: p, .. }) => p.last().is_some_and(|n| keccak256(n) == *hash),
        (Name::Code { hash, .. }, Form::CodeProof(c, _)) => keccak256(c) == *hash,
        _ => false,
    }
}
async fn history(ctx: &mut Ctx, r: &mut Rng) {
    let mut node: Node = start(Ground::new(r).await).await;
    let w = World::new(r);
    // by key, with the key in parts
    let mut kept: BTreeMap<Vec<u8>, (Name, Form)> = BTreeMap::new();
    let mut log: Vec<String> = vec![];
    for _ in 0..r.range(20, 60) {
        if ctx.saturated() {
            return;
        }
        if r.chance(1, 20) {
            log.push("restart".into());
            let (config, dir) = (node.ground.config.clone(), node.ground.dir.clone());
            drop(node);
            fresh(r);
            node = start(Ground::again(&config, dir).await).await;
            ctx.event("restarted");
        }
        let (mut name, mut form) = some(r, &w);
        let mut what = "as it is";
        if r.chance(1, 3) {
            what = spoil(r, &w, &mut name, &mut form);
        }
        let block = r.array();
        let bytes = form.bytes(&block);
        let key = name.key();
        // as read back, which may be another form than the one written
        let Some(form) = read(&key, &bytes) else { continue };
        let good = named(&name, &form);
        let value = StateContentValue::decode(&key, &bytes).expect("just read");
        log.push(what.into());
        ctx.eval("store", &(name.bytes(), &bytes));
        let got = node.call(Call::Store(key.clone(), value)).await;
        let detail = || j!({"what": what, "key": hex(&name.bytes()), "value": hex(&bytes), "history": log, "got": format!("{got:?}")});
        match got {
            Some(Ok(_)) if !good => {
                ctx.violation("wrong-content-stored", detail());
                return;
            }
            Some(Err(_)) if good => {
                ctx.violation("right-content-not-stored", detail());
                return;
            }
            None => {
                ctx.violation("call-not-answered", detail());
                return;
            }
            _ => ctx.event(if good { "stored" } else { "refused" }),
        }
        if good {
            kept.insert(name.bytes(), (name.clone(), form.kept()));
        }
        // this one and another
        let mut look = vec![name.clone()];
        if let Some((n, _)) = kept.values().nth(r.index(kept.len().max(1))) {
            look.push(n.clone());
        }
        for n in look {
            let got = node.call(Call::LocalContent(n.key())).await;
            let got = match &got {
                Some(Ok(v)) => v.as_str().map(|s| vcommon::unhex(s.trim_start_matches("0x"))),
                _ => None,
            };
            ctx.eval("read", &(n.bytes(), kept.contains_key(&n.bytes()), log.len()));
            let want = kept.get(&n.bytes()).map(|(_, f)| f.bytes(&[0; 32]));
            if !ctx.check(got == want, "kept-content-differs", || j!({"key": hex(&n.bytes()), "history": log, "got": got.as_ref().map(|b| hex(b)), "want": want.as_ref().map(|b| hex(b))})) {
                return;
            }
            if let Some(b) = &got {
                let f = read(&n.key(), b);
                ctx.check(f.as_ref().is_some_and(|f| verdict(&n, f) == Verdict::Matching), "kept-content-does-not-match-key", || j!({"key": hex(&n.bytes()), "kept": hex(b)}));
                ctx.event("read-back");
            }
        }
    }
    // everything is listed exactly once
    let mut seen = vec![];
    let mut at = 0;
    loop {
        let Some(Ok(v)) = node.call(Call::Paginate(at, 5)).await else {
            ctx.violation("paging-failed", j!({"history": log}));
            return;
        };
        let page: Vec<String> = v["contentKeys"].as_array().map(|a| a.iter().filter_map(|x| x.as_str().map(String::from)).collect()).unwrap_or_default();
        if page.is_empty() {
            break;
        }
        at += page.len() as u64;
        seen.extend(page);
    }
    seen.sort();
    let want: Vec<String> = kept.keys().map(|k| format!("0x{}", hex(k))).collect();
    ctx.check(seen == want, "listed-keys-wrong", || j!({"history": log, "got": seen, "want": want}));
    ctx.sample("history", || json!(log));
}
pub fn storage(ctx: &mut Ctx) {
    ctx.level("random histories of storing proven, unproven and mismatching content, with restarts");
    let mut rng = ctx.rng.fork("state storage");
    for _ in 0..ctx.n(40, 800) {
        if ctx.saturated() {
            break;
        }
        let r = &mut rng;
        fresh(r);
        clock::simulate(history(ctx, r));
    }
    for (e, n) in [("stored", 200), ("refused", 100), ("read-back", 300), ("restarted", 10)] {
        ctx.require(e, n);
    }
}
