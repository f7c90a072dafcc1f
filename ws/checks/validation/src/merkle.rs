//! Right-sparse Merkle trees against a plain recomputation.
use alloy::primitives::B256;
use oracle::{sha2, ssz, H};
use trin_validation::merkle::{
    proof::{merkle_root_from_branch, verify_merkle_proof, MerkleTree, MerkleTreeError},
    safe_arith::{ArithError, SafeArith, SafeArithIter},
};
use vcommon::{hex, json, Ctx, Rng};

fn b(h: &H) -> B256 {
    B256::from(*h)
}

fn leaves(r: &mut Rng, n: usize) -> Vec<H> {
    (0..n).map(|_| if r.chance(1, 12) { [0; 32] } else { r.array() }).collect()
}

/// Hashes of the maximal full subtrees covering the first `n` leaves.
fn snapshot(l: &[H], n: usize, depth: usize) -> Vec<H> {
    let mut out = vec![];
    let mut at = 0;
    for d in (0..=depth).rev() {
        if n - at >= 1 << d {
            out.push(ssz::merkleize(&l[at..at + (1 << d)], d));
            at += 1 << d;
            if at == n {
                break;
            }
        }
    }
    out
}

fn proofs(c: &mut Ctx, t: &MerkleTree, l: &[H], depth: usize, r: &mut Rng, finalized: usize, what: &str) {
    let root = ssz::merkleize(l, depth);
    c.check_eq(&hex(&t.hash().0), &hex(&root), "root", || format!("{what}: {} leaves depth {depth}", l.len()));
    if l.is_empty() {
        return;
    }
    for i in [0, l.len() - 1, r.index(l.len())] {
        let desc = || format!("{what}: leaf {i} of {} depth {depth} finalized {finalized}", l.len());
        // Leaves that were finalized one by one have no defined proof.
        let got = if i < finalized {
            let Ok(got) = vcommon::guard(|| t.generate_proof(i, depth)) else { continue };
            got
        } else {
            let Some(got) = c.no_panic("proof-panic", desc, || t.generate_proof(i, depth)) else { continue };
            got
        };
        c.eval("proof", &(depth, l.len(), i, finalized));
        match got {
            Ok((leaf, p)) => {
                c.check_eq(&hex(&leaf.0), &hex(&l[i]), "proof-leaf", desc);
                let want: Vec<B256> = ssz::merkle_proof(l, depth, i).iter().map(b).collect();
                c.check(p == want, "proof-branch", desc);
                c.check(verify_merkle_proof(leaf, &p, depth, i, b(&root)), "own-proof-refused", desc);
            }
            Err(MerkleTreeError::ProofEncounteredFinalizedNode) if i < finalized => c.event("finalized leaf"),
            Err(e) => c.violation("proof-refused", format!("{}: {e:?}", desc())),
        }
    }
}

fn tree(c: &mut Ctx, r: &mut Rng) {
    let depth = match r.below(6) {
        0 => r.usize_in(7, 13),
        1 => 1,
        2 => 32,
        _ => r.usize_in(1, 7),
    };
    let cap = 1usize << depth.min(13);
    let n = match r.below(5) {
        0 => cap,
        1 => cap - 1,
        2 => 0,
        3 => (cap / 2 + r.index(3)).min(cap),
        _ => r.index(cap + 1),
    }
    .min(3000);
    let l = leaves(r, n);
    let lb: Vec<B256> = l.iter().map(b).collect();
    let mut t = MerkleTree::create(&lb, depth);
    proofs(c, &t, &l, depth, r, 0, "created");
    // leaf by leaf
    let start = if n > 40 { n - r.index(40) } else { r.index(n + 1) };
    let mut pushed = MerkleTree::create(&lb[..start], depth);
    for i in start..n {
        let res = pushed.push_leaf(lb[i], depth);
        if !c.check(res.is_ok(), "push-refused", || format!("leaf {i} of depth {depth}: {res:?}")) {
            return;
        }
        if i % 7 == 0 || i + 1 == n {
            c.eval("push", &(depth, i));
            c.check_eq(&hex(&pushed.hash().0), &hex(&ssz::merkleize(&l[..=i], depth)), "root-after-push", || format!("leaf {i} depth {depth}"));
        }
    }
    c.check(pushed == t, "pushed-tree-differs", || format!("{n} leaves depth {depth}"));
    if n == cap && depth < 14 {
        let res = t.push_leaf(lb[0], depth);
        c.check(res.is_err(), "push-beyond-capacity", || format!("depth {depth}"));
    }
    // finalization keeps the root, hides the finalized leaves, and yields the snapshot
    if n > 0 {
        let f = 1 + r.index(n);
        let mut done = MerkleTree::create(&lb, depth);
        let res = done.finalize_deposits(f, depth);
        if c.check(res.is_ok(), "finalize-refused", || format!("{f} of {n} depth {depth}: {res:?}")) {
            proofs(c, &done, &l, depth, r, f, "finalized");
            let got: Vec<H> = done.get_finalized_hashes().iter().map(|x| x.0).collect();
            let want = snapshot(&l, f, depth);
            c.eval("finalize", &(depth, n, f));
            c.check(got == want, "finalized-hashes", || format!("{f} of {n} depth {depth}: {} hashes instead of {}", got.len(), want.len()));
            let want_b: Vec<B256> = want.iter().map(b).collect();
            match MerkleTree::from_finalized_snapshot(&want_b, f, depth) {
                Ok(mut s) => {
                    c.check_eq(&hex(&s.hash().0), &hex(&ssz::merkleize(&l[..f], depth)), "root-from-snapshot", || format!("{f} depth {depth}"));
                    for (i, x) in lb.iter().enumerate().take(f + 20).skip(f) {
                        if !c.check(s.push_leaf(*x, depth).is_ok(), "push-after-snapshot", || format!("leaf {i} depth {depth}")) {
                            return;
                        }
                    }
                    let m = n.min(f + 20);
                    proofs(c, &s, &l[..m], depth, r, f, "from snapshot");
                }
                Err(e) => c.violation("snapshot-refused", format!("{f} of {n} depth {depth}: {e:?}")),
            }
            // a snapshot with a hash missing is refused
            if want_b.len() > 1 {
                let short = &want_b[..want_b.len() - 1];
                c.check(MerkleTree::from_finalized_snapshot(short, f, depth).is_err(), "short-snapshot-accepted", || format!("{f} depth {depth}"));
            }
        }
    }
}

fn branches(c: &mut Ctx, r: &mut Rng) {
    let depth = r.index(33);
    let leaf: H = r.array();
    let br: Vec<H> = (0..depth).map(|_| r.array()).collect();
    let index = r.edgy_u64() as usize;
    let mut x = leaf;
    for (i, s) in br.iter().enumerate() {
        x = if (index >> i) & 1 == 1 { sha2(s, &x) } else { sha2(&x, s) };
    }
    let bb: Vec<B256> = br.iter().map(b).collect();
    let what = || format!("depth {depth} index {index:#x}");
    c.eval("branch", &(depth, index));
    c.check_eq(&hex(&merkle_root_from_branch(b(&leaf), &bb, depth, index).0), &hex(&x), "branch-root", what);
    c.check(verify_merkle_proof(b(&leaf), &bb, depth, index, b(&x)), "branch-refused", what);
    for d in [depth + 1, depth.wrapping_sub(1)] {
        let Some(ok) = c.no_panic("verify-panic", what, || verify_merkle_proof(b(&leaf), &bb, d, index, b(&x))) else { continue };
        c.check(!ok, "wrong-depth-accepted", what);
    }
    if depth > 0 {
        let i = r.index(depth);
        c.check(!verify_merkle_proof(b(&leaf), &bb, depth, index ^ (1 << i), b(&x)), "wrong-index-accepted", || format!("{} bit {i}", what()));
        let mut m = bb.clone();
        m[i].0[r.index(32)] ^= 1;
        c.check(!verify_merkle_proof(b(&leaf), &m, depth, index, b(&x)), "wrong-branch-accepted", || format!("{} element {i}", what()));
        c.check(!verify_merkle_proof(b(&r.array()), &bb, depth, index, b(&x)), "wrong-leaf-accepted", what);
    }
}

fn arithmetic(c: &mut Ctx, r: &mut Rng) {
    let (x, y) = (r.edgy_u64(), r.edgy_u64());
    let s = r.below(140) as u32;
    let cases: [(&str, Result<u64, ArithError>, Option<u64>); 7] = [
        ("add", x.safe_add(y), x.checked_add(y)),
        ("sub", x.safe_sub(y), x.checked_sub(y)),
        ("mul", x.safe_mul(y), x.checked_mul(y)),
        ("div", x.safe_div(y), x.checked_div(y)),
        ("rem", x.safe_rem(y), x.checked_rem(y)),
        ("shl", x.safe_shl(s), x.checked_shl(s)),
        ("shr", x.safe_shr(s), x.checked_shr(s)),
    ];
    c.eval("arithmetic", &(x, y, s));
    for (n, got, want) in cases {
        c.check_eq(&got.ok(), &want, "arithmetic", || format!("{n} {x} {y} {s}"));
    }
    let v: Vec<u64> = (0..r.index(6)).map(|_| r.edgy_u64()).collect();
    let want = v.iter().try_fold(0u64, |a, b| a.checked_add(*b));
    c.check_eq(&v.iter().copied().safe_sum().ok(), &want, "arithmetic-sum", || format!("{v:?}"));
}

pub fn trees(c: &mut Ctx) {
    c.rule("roots, branches, finalization and snapshots of trees equal an independent recomputation from the leaves");
    for i in 0..c.n(400, 8000) {
        let mut r = c.rng.fork(&format!("tree{i}"));
        tree(c, &mut r);
        for _ in 0..10 {
            branches(c, &mut r);
            arithmetic(c, &mut r);
        }
        if c.saturated() {
            break;
        }
    }
    c.sample("proofs", || json!({"finalized": "see events"}));
    c.require("proof", 500);
    c.require("finalize", 100);
    c.require("push", 100);
    c.require("branch", 1000);
}
