//! M01: metric timers record exactly once, only on request, and record what they report.

use std::{
    sync::{Arc, Barrier},
    thread,
    time::{Duration, Instant},
};

use prometheus_exporter::prometheus::{core::Collector, Histogram, HistogramOpts};
use trin_metrics::timer::DiscardOnDropHistogramTimer;
use vcommon::{json, Ctx, Rng};

fn histogram(buckets: Option<Vec<f64>>) -> Histogram {
    let mut o = HistogramOpts::new("verif_timer", "workload");
    if let Some(b) = buckets {
        o = o.buckets(b);
    }
    Histogram::with_opts(o).expect("histogram")
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
enum End {
    ObserveDuration,
    StopAndRecord,
    StopAndDiscard,
    Drop,
    DropInPanic,
    DropInOtherThread,
    RecordInOtherThread,
    DropInVec,
    DropOption,
    Forget,
}

const ENDS: [End; 10] = [
    End::ObserveDuration,
    End::StopAndRecord,
    End::StopAndDiscard,
    End::Drop,
    End::DropInPanic,
    End::DropInOtherThread,
    End::RecordInOtherThread,
    End::DropInVec,
    End::DropOption,
    End::Forget,
];

fn records(e: End) -> bool {
    matches!(
        e,
        End::ObserveDuration | End::StopAndRecord | End::RecordInOtherThread
    )
}

/// What happened to one timer, with the interval its true duration must lie in.
struct Outcome {
    end: End,
    reported: Option<f64>,
    at_least: f64,
    at_most: f64,
}

fn one(h: &Histogram, end: End, sleep: Duration) -> Outcome {
    let before_new = Instant::now();
    let timer = DiscardOnDropHistogramTimer::new(h.clone());
    let after_new = Instant::now();
    if !sleep.is_zero() {
        thread::sleep(sleep);
    }
    let before_stop = Instant::now();
    let reported = match end {
        End::ObserveDuration => {
            timer.observe_duration();
            None
        }
        End::StopAndRecord => Some(timer.stop_and_record()),
        End::StopAndDiscard => Some(timer.stop_and_discard()),
        End::Drop => {
            drop(timer);
            None
        }
        End::DropInPanic => {
            let _ = vcommon::guard(move || {
                let _t = timer;
                panic!("workload panic while a timer is running");
            });
            None
        }
        End::DropInOtherThread => {
            let _ = thread::spawn(move || drop(timer)).join();
            None
        }
        End::RecordInOtherThread => thread::spawn(move || timer.stop_and_record()).join().ok(),
        End::DropInVec => {
            let v = vec![timer];
            drop(v);
            None
        }
        End::DropOption => {
            let mut o = Some(timer);
            o.take();
            None
        }
        End::Forget => {
            std::mem::forget(timer);
            None
        }
    };
    let after_stop = Instant::now();
    Outcome {
        end,
        reported,
        at_least: (before_stop - after_new).as_secs_f64(),
        at_most: (after_stop - before_new).as_secs_f64(),
    }
}

const EPS: f64 = 1e-7;

fn check_reported(ctx: &mut Ctx, o: &Outcome) {
    ctx.eval(&format!("{:?}", o.end), &(o.end, o.at_most.to_bits()));
    if let Some(r) = o.reported {
        ctx.check(
            r.is_finite() && r >= o.at_least - EPS && r <= o.at_most + EPS,
            "timer-reported-duration",
            || {
                format!(
                    "{:?} reported {r} s, but the timer ran between {} and {} s",
                    o.end, o.at_least, o.at_most
                )
            },
        );
    }
}

fn state(h: &Histogram) -> (u64, f64, Vec<u64>, u64) {
    let m = h.collect();
    let p = m[0].get_metric()[0].get_histogram();
    (
        h.get_sample_count(),
        h.get_sample_sum(),
        p.get_bucket().iter().map(|b| b.get_cumulative_count()).collect(),
        p.get_sample_count(),
    )
}

pub fn timers(ctx: &mut Ctx) {
    ctx.rule("timers ended in every possible way (explicit record, explicit discard, drop in place, in containers, in other threads, while unwinding) one at a time and from many threads sharing histograms; each histogram's count, sum and buckets are compared with what the ended timers reported and with the monotonic interval each timer really ran; a case is one timer");
    ctx.assume("durations are compared with bracketing readings of the same monotonic clock, never with a deadline");
    // one at a time on a private histogram
    for round in 0..ctx.n(300, 3000) {
        for end in ENDS {
            let h = histogram(None);
            let sleep = if round % 50 == 0 { Duration::from_millis(3) } else { Duration::ZERO };
            let o = one(&h, end, sleep);
            check_reported(ctx, &o);
            let (count, sum, _, pcount) = state(&h);
            let want = records(end) as u64;
            ctx.check(count == want && pcount == want, "timer-record-count", || {
                format!("a timer ended by {end:?} left {count} observations, expected {want}")
            });
            if want == 1 {
                match o.reported {
                    Some(r) => {
                        ctx.check((r - sum).abs() <= EPS, "timer-recorded-value", || {
                            format!("{end:?} reported {r} s but recorded {sum} s")
                        });
                    }
                    None => {
                        ctx.check(sum >= o.at_least - EPS && sum <= o.at_most + EPS, "timer-recorded-value", || {
                            format!("{end:?} recorded {sum} s, but the timer ran between {} and {} s", o.at_least, o.at_most)
                        });
                    }
                }
            } else {
                ctx.check(sum == 0.0, "timer-recorded-value", || {
                    format!("a timer ended by {end:?} added {sum} s")
                });
            }
            ctx.sample("single", || json!({ "end": format!("{end:?}"), "count": count, "sum": sum }));
        }
    }
    // durations with and without whole seconds, in parallel
    let lens: Vec<u64> = if ctx.quick() {
        vec![0, 1, 250, 999, 1001, 1300, 1999, 2050, 3100]
    } else {
        vec![0, 1, 50, 250, 999, 1001, 1300, 1999, 2050, 3100, 5003, 9500, 11000, 61000]
    };
    let handles: Vec<_> = lens
        .into_iter()
        .flat_map(|ms| [End::ObserveDuration, End::StopAndRecord, End::StopAndDiscard, End::RecordInOtherThread].map(|e| (ms, e)))
        .map(|(ms, end)| {
            thread::spawn(move || {
                let h = histogram(Some(vec![0.5, 1.0, 2.0, 4.0]));
                let o = one(&h, end, Duration::from_millis(ms));
                (ms, o, state(&h))
            })
        })
        .collect();
    for t in handles {
        let Ok((ms, o, (count, sum, buckets, _))) = t.join() else {
            ctx.violation("timer-panic", "a timed thread panicked");
            continue;
        };
        check_reported(ctx, &o);
        ctx.event("long-timer");
        let want = records(o.end) as u64;
        ctx.check(count == want, "timer-record-count", || {
            format!("{:?} after {ms} ms left {count} observations", o.end)
        });
        if want == 1 {
            ctx.check(sum >= o.at_least - EPS && sum <= o.at_most + EPS, "timer-recorded-value", || {
                format!("{:?} after {ms} ms recorded {sum} s; the timer ran between {} and {} s", o.end, o.at_least, o.at_most)
            });
            for (b, n) in [0.5, 1.0, 2.0, 4.0].iter().zip(&buckets) {
                let must = if o.at_most + EPS < *b { Some(1) } else if o.at_least - EPS > *b { Some(0) } else { None };
                if let Some(m) = must {
                    ctx.check(*n == m, "timer-bucket", || format!("{ms} ms: bucket <= {b} holds {n}"));
                }
            }
        }
    }
    // several timers on one histogram, interleaved lifetimes
    for _ in 0..ctx.n(300, 3000) {
        let h = histogram(None);
        let mut live = vec![];
        let (mut count, mut sum_lo, mut sum_hi) = (0u64, 0f64, 0f64);
        for _ in 0..60 {
            if live.is_empty() || ctx.rng.chance(1, 2) {
                let b = Instant::now();
                let t = DiscardOnDropHistogramTimer::new(h.clone());
                live.push((t, b, Instant::now()));
            } else {
                let i = ctx.rng.index(live.len());
                let (t, b, a) = live.swap_remove(i);
                let lo = Instant::now().duration_since(a).as_secs_f64();
                let rec = match ctx.rng.below(4) {
                    0 => {
                        t.observe_duration();
                        true
                    }
                    1 => {
                        t.stop_and_record();
                        true
                    }
                    2 => {
                        t.stop_and_discard();
                        false
                    }
                    _ => {
                        drop(t);
                        false
                    }
                };
                let hi = Instant::now().duration_since(b).as_secs_f64();
                if rec {
                    count += 1;
                    sum_lo += lo;
                    sum_hi += hi;
                }
                ctx.eval("interleaved", &(count, hi.to_bits()));
                let (c, s, _, _) = state(&h);
                ctx.check(c == count, "timer-record-count", || {
                    format!("{c} observations after {count} recording ends")
                });
                let slack = EPS * (count as f64 + 1.0);
                ctx.check(s >= sum_lo - slack && s <= sum_hi + slack, "timer-recorded-value", || {
                    format!("sum {s} outside {sum_lo}..{sum_hi}")
                });
            }
        }
        drop(live);
        let (c, _, _, _) = state(&h);
        ctx.check(c == count, "timer-record-count", || {
            format!("{c} observations after dropping running timers, expected {count}")
        });
    }
    // many threads, shared histograms
    for round in 0..ctx.n(20, 200) {
        let hs = Arc::new([histogram(None), histogram(None)]);
        let n_threads = 8;
        let barrier = Arc::new(Barrier::new(n_threads));
        let mut threads = vec![];
        for t in 0..n_threads {
            let (hs, barrier) = (hs.clone(), barrier.clone());
            let mut rng = Rng::new(ctx.rng.u64() ^ t as u64);
            threads.push(thread::spawn(move || {
                let mut out = vec![];
                barrier.wait();
                for _ in 0..150 {
                    let which = rng.index(2);
                    let end = ENDS[rng.index(5)];
                    out.push((which, one(&hs[which], end, Duration::ZERO)));
                }
                out
            }));
        }
        let mut want = [0u64; 2];
        let mut lo = [0f64; 2];
        let mut hi = [0f64; 2];
        for t in threads {
            let Ok(v) = t.join() else {
                ctx.violation("timer-panic", "a timed thread panicked");
                continue;
            };
            for (w, o) in v {
                check_reported(ctx, &o);
                if records(o.end) {
                    want[w] += 1;
                    lo[w] += o.reported.unwrap_or(o.at_least);
                    hi[w] += o.reported.unwrap_or(o.at_most);
                }
            }
        }
        for w in 0..2 {
            let (c, s, _, _) = state(&hs[w]);
            let slack = EPS * (want[w] as f64 + 1.0);
            ctx.check(c == want[w], "timer-record-count-threads", || {
                format!("round {round}: {c} observations, {} recording ends", want[w])
            });
            ctx.check(s >= lo[w] - slack && s <= hi[w] + slack, "timer-recorded-value-threads", || {
                format!("round {round}: sum {s} outside {}..{}", lo[w], hi[w])
            });
        }
    }
    for e in ENDS {
        ctx.require(&format!("{e:?}"), 100);
    }
    ctx.require("long-timer", 10);
}
