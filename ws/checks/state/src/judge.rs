//! Proofs of trie nodes and code.
use std::sync::Arc;

use ethportal_api::{ContentValue, StateContentKey, StateContentValue};
use oracle::{keccak256, mpt, rlp};
use trin_state::validation::StateValidator;
use trin_validation::{
    oracle::HeaderOracle,
    validator::{ValidationResult, Validator},
};
use vcommon::{hex, json, Ctx, Rng};

use crate::tries::{some, verdict, Form, Name, Verdict, World};

pub fn spoil(r: &mut Rng, w: &World, name: &mut Name, form: &mut Form) -> &'static str {
    let strange = r.array();
    let other = some(r, w);
    match r.below(16) {
        0 => {
            *name.hash() = strange;
            "hash of the key"
        }
        1 => {
            let h = name.hash();
            let i = r.index(32);
            h[i] ^= 1 << r.below(8);
            "bit of the hash of the key"
        }
        2 => match name {
            Name::Account { path, .. } | Name::Storage { path, .. } => match r.below(4) {
                0 if path.len() < 64 => {
                    path.push(r.below(16) as u8);
                    "longer path"
                }
                1 if !path.is_empty() => {
                    path.pop();
                    "shorter path"
                }
                2 if path.len() < 63 => {
                    path.extend([0, 0]);
                    "path with zeros"
                }
                _ if !path.is_empty() => {
                    let i = r.index(path.len());
                    path[i] = (path[i] + 1 + r.below(15) as u8) % 16;
                    "other path"
                }
                _ => {
                    path.push(0);
                    "longer path"
                }
            },
            Name::Code { address, .. } => {
                let i = r.index(32);
                address[i] ^= 1 << r.below(8);
                "other account"
            }
        },
        3 => {
            if let Name::Storage { address, .. } | Name::Code { address, .. } = name {
                *address = w.accounts[r.index(w.accounts.len())].hash;
            }
            "account of another"
        }
        4 => {
            *form = other.1;
            "value of another"
        }
        5 => {
            *form = form.kept();
            "value without proof"
        }
        6 => {
            *form = form.kept();
            if let Form::Node(b) | Form::Code(b) = form {
                if b.is_empty() {
                    b.push(1);
                } else {
                    let i = r.index(b.len());
                    b[i] ^= 1 << r.below(8);
                }
            }
            "wrong value without proof"
        }
        7 => {
            // a node of its own making under a matching name
            let len = r.usize_in(1, 60);
            let fake = rlp::list(&[rlp::bytes(&r.bytes(2)), rlp::bytes(&r.bytes(len))]);
            *name.hash() = keccak256(&fake);
            match form {
                Form::Proof(p) | Form::Both { storage: p, .. } => {
                    if r.bool() {
                        p.pop();
                    }
                    p.push(fake);
                }
                Form::CodeProof(c, _) => *c = fake,
                _ => {}
            }
            "made up node"
        }
        8 => {
            // a storage trie of its own making, consistent in itself
            if let (Name::Storage { path, hash, .. }, Form::Both { storage, .. }) = (name, form) {
                let k: [u8; 32] = r.array();
                let pairs = vec![(mpt::nibbles(&k), rlp::bytes(&r.bytes(20)))];
                let nodes = mpt::path_nodes(&pairs, &mpt::nibbles(&k));
                *path = nodes[0].0.clone();
                *hash = keccak256(&nodes[0].1);
                *storage = vec![nodes[0].1.clone()];
            }
            "made up storage"
        }
        9 => {
            // code of another account
            if let (Name::Code { hash, .. }, Form::CodeProof(c, _)) = (name, form) {
                *c = w.accounts[r.index(w.accounts.len())].code.clone();
                *hash = keccak256(c);
            }
            "code of another"
        }
        _ => {
            let p = match form {
                Form::Proof(p) => p,
                Form::Both { storage, account } => {
                    if r.bool() {
                        storage
                    } else {
                        account
                    }
                }
                Form::CodeProof(_, p) => p,
                _ => return "nothing",
            };
            match r.below(8) {
                0 => {
                    p.clear();
                    "no proof"
                }
                1 => {
                    p.pop();
                    "proof without last"
                }
                2 if !p.is_empty() => {
                    p.remove(0);
                    "proof without first"
                }
                3 if !p.is_empty() => {
                    let i = r.index(p.len());
                    let x = p[i].clone();
                    p.insert(i, x);
                    "node twice"
                }
                4 if p.len() > 1 => {
                    let i = r.index(p.len() - 1);
                    p.swap(i, i + 1);
                    "nodes swapped"
                }
                5 if p.len() > 2 => {
                    let i = r.usize_in(1, p.len() - 2);
                    p.remove(i);
                    "node left out"
                }
                6 => {
                    let len = r.usize_in(0, 40);
                    p.push(r.bytes(len));
                    "junk appended"
                }
                _ if !p.is_empty() => {
                    let i = r.index(p.len());
                    if !p[i].is_empty() {
                        let n = r.index(p[i].len());
                        p[i][n] ^= 1 << r.below(8);
                    }
                    "bit of a node"
                }
                _ => "nothing",
            }
        }
    }
}
/// The parts of a value as read.
pub fn read(key: &StateContentKey, b: &[u8]) -> Option<Form> {
    let list = |p: &ethportal_api::types::state_trie::TrieProof| p.iter().map(|n| n.to_vec()).collect::<Vec<_>>();
    Some(match StateContentValue::decode(key, b).ok()? {
        StateContentValue::TrieNode(n) => Form::Node(n.node.to_vec()),
        StateContentValue::AccountTrieNodeWithProof(v) => Form::Proof(list(&v.proof)),
        StateContentValue::ContractStorageTrieNodeWithProof(v) => Form::Both { storage: list(&v.storage_proof), account: list(&v.account_proof) },
        StateContentValue::ContractBytecode(c) => Form::Code(c.code.to_vec()),
        StateContentValue::ContractBytecodeWithProof(c) => Form::CodeProof(c.code.to_vec(), list(&c.account_proof)),
    })
}
pub fn proofs(ctx: &mut Ctx) {
    ctx.level("exhaustive over nothing: tries, proofs and alterations drawn at random");
    let mut rng = ctx.rng.fork("state proofs");
    let rt = tokio::runtime::Builder::new_current_thread().build().expect("runtime");
    let v = StateValidator { header_oracle: Arc::new(tokio::sync::RwLock::new(HeaderOracle::default())) };
    for _ in 0..ctx.n(150, 5000) {
        if ctx.saturated() {
            break;
        }
        let r = &mut rng;
        let w = World::new(r);
        for _ in 0..40 {
            let (mut name, mut form) = some(r, &w);
            let mut what = vec![];
            for _ in 0..*r.pick(&[0, 1, 1, 1, 2]) {
                what.push(spoil(r, &w, &mut name, &mut form));
            }
            let block = r.array();
            let mut bytes = form.bytes(&block);
            if r.chance(1, 12) {
                what.push("raw");
                let n = r.index(bytes.len().max(1));
                match r.below(3) {
                    0 => bytes.truncate(n),
                    1 => bytes.push(r.u8()),
                    _ if !bytes.is_empty() => bytes[n] ^= 1 << r.below(8),
                    _ => {}
                }
            }
            let key = name.key();
            ctx.eval("content", &(name.bytes(), &bytes));
            let want = match read(&key, &bytes) {
                Some(f) => verdict(&name, &f),
                None => Verdict::Wrong,
            };
            let Some(got) = ctx.no_panic("panic-while-judging", || j!({"key": hex(&name.bytes()), "value": hex(&bytes)}), || rt.block_on(v.validate_content(&key, &bytes))) else { continue };
            let got = match got {
                ValidationResult::Valid => Verdict::Matching,
                ValidationResult::CanonicallyValid => Verdict::Proven,
                ValidationResult::Invalid(_) => Verdict::Wrong,
            };
            ctx.event(match want {
                Verdict::Matching => "matching",
                Verdict::Proven => "proven",
                Verdict::Wrong => "wrong",
                Verdict::Unsaid => "unsaid",
            });
            ctx.check(
                got == want || want == Verdict::Unsaid,
                match (want, got) {
                    (Verdict::Wrong, _) => "wrong-content-accepted",
                    (_, Verdict::Wrong) => "right-content-refused",
                    _ => "content-misjudged",
                },
                || j!({"altered": what, "key": hex(&name.bytes()), "value": hex(&bytes), "want": format!("{want:?}"), "got": format!("{got:?}")}),
            );
            ctx.sample("content", || json!({"altered": what, "key": hex(&name.bytes()), "verdict": format!("{want:?}")}));
        }
    }
    ctx.require("matching", 100);
    ctx.require("proven", 500);
    ctx.require("wrong", 1000);
}
