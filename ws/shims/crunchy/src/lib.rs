//! Stand-in for `crunchy`: `unroll!` keeps the loop instead of unrolling it.
#![no_std]
#[macro_export]
macro_rules! unroll {
    (for $v:ident in 0..$e:tt $c:block) => { for $v in 0..$e $c };
    (for $v:ident < $max:tt in ($s:tt..$e:tt).step_by($st:tt) $c:block) => { for $v in ($s..$e).step_by($st) $c };
    (for $v:ident in ($s:tt..$e:tt) $c:block) => { for $v in $s..$e $c };
}
