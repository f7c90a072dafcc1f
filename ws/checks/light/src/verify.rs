//! L01: which updates are accepted.
use light_client::consensus::verify_generic_update;
use oracle::lc::{Store, PERIOD};
use vcommon::{json, Ctx};

use crate::make::{self, Net};

pub fn updates(ctx: &mut Ctx) {
    ctx.rule("an update is accepted exactly when the sync protocol's rules accept it for the store at hand");
    let mut r = ctx.rng.fork("updates");
    let worlds = ctx.n(12, 60);
    for w in 0..worlds {
        let net = if r.bool() { Net::Mainnet } else { Net::Sepolia };
        let edge = net.electra_slot() / PERIOD;
        let first = edge - 1 + r.below(2) * r.below(900);
        let chain = make::chain(&mut r, net, first, 5);
        for _ in 0..ctx.n(120, 300) {
            let here = first + 1;
            let b = { let s = make::slot_in(&mut r, here); chain.boot(&mut r, s) };
            let mut store = Store::boot(&b);
            if r.bool() {
                store.next = Some(chain.committee(here + 1));
            }
            if r.bool() {
                let s = store.finalized.slot + r.below(40);
                store.optimistic = oracle::lc::Head::new(&mut r, s, [1; 32]);
            }
            store.current_max = r.below(513);
            // attested around the store's finalized slot or in the neighbouring periods
            let attested = match r.below(5) {
                0 => store.finalized.slot.saturating_add(r.below(4)).saturating_sub(1),
                1 => make::slot_in(&mut r, here + 1),
                2 => {
                    let p = here - 1 + r.below(4);
                    make::slot_in(&mut r, p)
                }
                _ => make::slot_in(&mut r, here),
            };
            let kind = r.below(3);
            let finalized = (kind > 0).then(|| match r.below(4) {
                0 => attested,
                1 => attested.saturating_sub(PERIOD),
                _ => attested.saturating_sub(r.below(200)),
            });
            let signed = attested + *r.pick(&[1, 1, 1, 2, 3, 40]);
            let take = make::participants(&mut r);
            let mut u = chain.update(&mut r, attested, finalized, signed, kind == 2, take);
            let spoilt = r.chance(2, 3);
            if spoilt {
                let how = r.index(make::SPOILS);
                make::spoil(&mut r, &chain, &mut u, how);
                ctx.event(&format!("spoil-{how}"));
            }
            let now = match r.below(6) {
                0 => u.signature_slot,
                1 => u.signature_slot.saturating_sub(1),
                _ => u.signature_slot.saturating_add(r.below(100_000)),
            };
            let want = store.refuses(&chain.rules, &u, now);
            let (cs, cu) = (make::store(&store), make::generic(&u));
            let genesis = alloy::primitives::B256::from(chain.rules.genesis);
            let version = make::version(chain.rules.version_at(u.signature_slot));
            ctx.eval("update", &(w, u.ssz(), now));
            ctx.event(want.unwrap_or("accepted"));
            let what = || j!({"store finalized": store.finalized.slot, "knows next": store.next.is_some(), "attested": u.attested.slot, "finalized": finalized, "signed at": u.signature_slot, "now": now, "participants": u.participants(), "expected": want, "kind": kind});
            let Some(got) = ctx.no_panic("panic-on-update", what, || verify_generic_update(&cs, &cu, now, genesis, version)) else {
                continue;
            };
            match want {
                None => {
                    let e = got.as_ref().err().map(|e| e.to_string());
                    ctx.check(got.is_ok(), "valid-update-refused", || format!("{} {e:?}", what()));
                }
                Some(why) => {
                    ctx.check(got.is_err(), &format!("accepted-though-{}", why.replace(' ', "-")), what);
                }
            }
            ctx.sample("update", || json!({"expected": want, "attested": u.attested.slot, "signed": u.signature_slot, "participants": u.participants()}));
        }
    }
    for k in ["accepted", "nobody signed", "slots out of order", "period out of reach", "nothing new", "finality unproven", "committee unproven", "signature wrong"] {
        ctx.require(k, 5);
    }
}
