//! V01: checked arithmetic against exact integer arithmetic in i128.

use trin_validation::merkle::safe_arith::{ArithError, SafeArith, SafeArithIter};
use vcommon::{guard, json, Ctx};

/// What exact arithmetic says: the value, an overflow, a division by zero, or an unrepresentable
/// quotient (most negative / -1), for which any refusal is right.
#[derive(Clone, Copy, Debug, PartialEq)]
enum Want {
    Val(i128),
    Overflow,
    DivZero,
    Refuse,
    RefuseOr(i128),
}

type R = Result<Result<i128, ArithError>, String>;

fn agrees(got: &R, want: Want) -> bool {
    match (got, want) {
        (Ok(Ok(v)), Want::Val(w)) => *v == w,
        (Ok(Err(ArithError::Overflow)), Want::Overflow) => true,
        (Ok(Err(ArithError::DivisionByZero)), Want::DivZero) => true,
        (Ok(Err(_)), Want::Refuse | Want::RefuseOr(_)) => true,
        (Ok(Ok(v)), Want::RefuseOr(w)) => *v == w,
        _ => false,
    }
}

macro_rules! for_type {
    ($fname:ident, $t:ty, $bits:expr) => {
        fn $fname(ctx: &mut Ctx) {
            let name = stringify!($t);
            let min = <$t>::MIN as i128;
            let max = <$t>::MAX as i128;
            let fit = |v: i128| {
                if v >= min && v <= max {
                    Want::Val(v)
                } else {
                    Want::Overflow
                }
            };
            ctx.check_eq(&(<$t as SafeArith>::ZERO as i128), &0, "zero", || name.into());
            ctx.check_eq(&(<$t as SafeArith>::ONE as i128), &1, "one", || name.into());
            let pair = |ctx: &mut Ctx, a: $t, b: $t| {
                let (x, y) = (a as i128, b as i128);
                let wants = [
                    fit(x + y),
                    fit(x - y),
                    x.checked_mul(y).map(fit).unwrap_or(Want::Overflow),
                    if y == 0 {
                        Want::DivZero
                    } else if x / y > max {
                        Want::Refuse
                    } else {
                        Want::Val(x / y)
                    },
                    if y == 0 {
                        Want::DivZero
                    } else if x / y > max {
                        Want::RefuseOr(0)
                    } else {
                        Want::Val(x % y)
                    },
                ];
                type Op = fn($t, $t) -> Result<$t, ArithError>;
                type As = fn(&mut $t, $t) -> Result<(), ArithError>;
                let ops: [(&str, Op, As); 5] = [
                    ("add", |a, b| a.safe_add(b), |a, b| a.safe_add_assign(b)),
                    ("sub", |a, b| a.safe_sub(b), |a, b| a.safe_sub_assign(b)),
                    ("mul", |a, b| a.safe_mul(b), |a, b| a.safe_mul_assign(b)),
                    ("div", |a, b| a.safe_div(b), |a, b| a.safe_div_assign(b)),
                    ("rem", |a, b| a.safe_rem(b), |a, b| a.safe_rem_assign(b)),
                ];
                for ((op, f, g), want) in ops.iter().zip(wants) {
                    let got = guard(|| f(a, b).map(|v| v as i128));
                    if !agrees(&got, want) {
                        ctx.violation(
                            &format!("arith-{op}"),
                            format!("{a} {op} {b} as {name}: {got:?}, expected {want:?}"),
                        );
                    }
                    let mut t = a;
                    let res = guard(|| g(&mut t, b));
                    let got2: R = res.map(|r| r.map(|_| t as i128));
                    if !agrees(&got2, want) {
                        ctx.violation(
                            &format!("arith-{op}-assign"),
                            format!("{a} {op}= {b} as {name}: {got2:?}, expected {want:?}"),
                        );
                    }
                    if matches!(got2, Ok(Err(_))) && t != a {
                        ctx.violation(
                            &format!("arith-{op}-assign-clobbers"),
                            format!("{a} {op}= {b} as {name} failed but left {t}"),
                        );
                    }
                }
                ctx.eval(name, &(x, y));
            };
            let shift = |ctx: &mut Ctx, a: $t, n: u32| {
                let in_width = n < $bits;
                let wl = if in_width {
                    Want::Val(a.wrapping_shl(n) as i128)
                } else {
                    Want::Overflow
                };
                let wr = if in_width {
                    Want::Val((a as i128) >> n)
                } else {
                    Want::Overflow
                };
                let mut l = a;
                let mut r = a;
                let got = [
                    ("shl", guard(|| a.safe_shl(n).map(|v| v as i128)), wl),
                    ("shr", guard(|| a.safe_shr(n).map(|v| v as i128)), wr),
                    (
                        "shl-assign",
                        guard(|| l.safe_shl_assign(n)).map(|r| r.map(|_| l as i128)),
                        wl,
                    ),
                    (
                        "shr-assign",
                        guard(|| r.safe_shr_assign(n)).map(|e| e.map(|_| r as i128)),
                        wr,
                    ),
                ];
                for (op, g, w) in got {
                    if !agrees(&g, w) {
                        ctx.violation(
                            &format!("arith-{op}"),
                            format!("{a} {op} {n} as {name}: {g:?}, expected {w:?}"),
                        );
                    }
                }
                if !in_width && (l != a || r != a) {
                    ctx.violation(
                        "arith-shift-assign-clobbers",
                        format!("{a} shifted by {n} as {name} failed but left {l}/{r}"),
                    );
                }
                ctx.eval(concat!(stringify!($t), "-shift"), &(a as i128, n));
            };
            // boundary values of this type
            let mut edges: Vec<$t> = vec![];
            for p in 0..$bits {
                for d in [-2i128, -1, 0, 1, 2] {
                    for s in [1i128, -1] {
                        let v = s * (1i128 << p) + d;
                        if v >= min && v <= max {
                            edges.push(v as $t);
                        }
                    }
                }
            }
            for d in 0..4 {
                edges.push((max - d) as $t);
                edges.push((min + d) as $t);
            }
            let root = ((max as f64).sqrt()) as i128;
            for d in -2..=2i128 {
                edges.push((root + d).clamp(min, max) as $t);
                edges.push((-(root + d)).clamp(min, max) as $t);
                edges.push((max / 3 + d).clamp(min, max) as $t);
            }
            edges.sort();
            edges.dedup();
            if $bits == 8 {
                for a in min..=max {
                    for b in min..=max {
                        pair(ctx, a as $t, b as $t);
                    }
                    for n in 0..=300 {
                        shift(ctx, a as $t, n);
                    }
                }
            } else {
                for a in &edges {
                    for b in &edges {
                        pair(ctx, *a, *b);
                    }
                }
                for _ in 0..ctx.n(30_000, 600_000) {
                    let a = ctx.rng.edgy_u64() as $t;
                    let b = if ctx.rng.bool() {
                        ctx.rng.edgy_u64() as $t
                    } else {
                        // near the overflow boundary of a
                        let base = [max - a as i128, a as i128 - max, min - a as i128];
                        let d = ctx.rng.below(5) as i128 - 2;
                        (*ctx.rng.pick(&base) + d) as $t
                    };
                    pair(ctx, a, b);
                    pair(ctx, b, a);
                }
            }
            for a in &edges {
                for n in (0..=2 * $bits + 2).chain([255, 256, 257, u32::MAX, u32::MAX - 1, 1 << 31]) {
                    shift(ctx, *a, n);
                }
            }
            // sums: every prefix must be representable
            let sum = |ctx: &mut Ctx, v: &[$t]| {
                let mut acc = 0i128;
                let mut want = None;
                for x in v {
                    acc += *x as i128;
                    if acc < min || acc > max {
                        want = Some(Want::Overflow);
                        break;
                    }
                }
                let want = want.unwrap_or(Want::Val(acc));
                let got = guard(|| v.iter().copied().safe_sum().map(|x| x as i128));
                if !agrees(&got, want) {
                    ctx.violation(
                        "arith-sum",
                        format!("sum of {v:?} as {name}: {got:?}, expected {want:?}"),
                    );
                }
                ctx.eval(concat!(stringify!($t), "-sum"), &format!("{v:?}"));
            };
            sum(ctx, &[]);
            for a in &edges {
                sum(ctx, &[*a]);
                for b in edges.iter().step_by(7) {
                    sum(ctx, &[*a, *b]);
                    sum(ctx, &[1, *a, *b, 1]);
                }
            }
            for _ in 0..ctx.n(2_000, 20_000) {
                let len = ctx.rng.index(12);
                let v: Vec<$t> = (0..len)
                    .map(|_| {
                        let e = ctx.rng.edgy_u64() as $t;
                        match ctx.rng.below(3) {
                            0 => e,
                            1 => e / (len as u8 as $t).max(1),
                            _ => *ctx.rng.pick(&edges) / 4,
                        }
                    })
                    .collect();
                sum(ctx, &v);
            }
        }
    };
}

for_type!(t_u8, u8, 8);
for_type!(t_u16, u16, 16);
for_type!(t_u32, u32, 32);
for_type!(t_u64, u64, 64);
for_type!(t_usize, usize, 64);
for_type!(t_i8, i8, 8);
for_type!(t_i16, i16, 16);
for_type!(t_i32, i32, 32);
for_type!(t_i64, i64, 64);
for_type!(t_isize, isize, 64);

pub fn checked(ctx: &mut Ctx) {
    ctx.rule("operand pairs for all ten integer types: 8-bit types exhaustively, others over all power-of-two neighbourhoods, overflow boundaries and random pairs; every shift amount up to twice the width and extreme amounts; sums of random and boundary sequences; each result is compared with exact arithmetic on 128-bit integers; a case is a distinct operand tuple of a type");
    t_u8(ctx);
    t_i8(ctx);
    t_u16(ctx);
    t_i16(ctx);
    t_u32(ctx);
    t_i32(ctx);
    t_u64(ctx);
    t_i64(ctx);
    t_usize(ctx);
    t_isize(ctx);
    ctx.sample("add", || json!({ "u8": format!("{:?}", 250u8.safe_add(6)) }));
    ctx.sample("div", || json!({ "i64": format!("{:?}", 7i64.safe_div(0)) }));
    for k in ["u8", "i8", "u64", "i64", "isize", "u16-shift", "i32-sum"] {
        ctx.require(k, 1000);
    }
}
