//! All clocks of this program: none moves unless the simulation says so, and the wall clock stands
//! where the check puts it.
use std::{
    future::Future,
    sync::atomic::{AtomicBool, AtomicU64, Ordering},
    time::Duration,
};

static VIRTUAL: AtomicBool = AtomicBool::new(false);
static BASE: AtomicU64 = AtomicU64::new(0);
static OFFSET: AtomicU64 = AtomicU64::new(0);
/// Wall time at the beginning, in seconds; none if zero.
static WALL: AtomicU64 = AtomicU64::new(0);
const SECOND: u64 = 1_000_000_000;

fn real(id: libc::clockid_t, t: *mut libc::timespec) -> libc::c_int {
    // SAFETY: forwards to the kernel, which checks the pointer
    unsafe { libc::syscall(libc::SYS_clock_gettime, id, t) as libc::c_int }
}
/// Replaces the C library's function for this program.
///
/// # Safety
/// `t` points to a writable timespec.
#[no_mangle]
pub unsafe extern "C" fn clock_gettime(id: libc::clockid_t, t: *mut libc::timespec) -> libc::c_int {
    let past = OFFSET.load(Ordering::Relaxed);
    let now = match id {
        libc::CLOCK_MONOTONIC if VIRTUAL.load(Ordering::Relaxed) => BASE.load(Ordering::Relaxed) + past,
        libc::CLOCK_REALTIME if WALL.load(Ordering::Relaxed) > 0 => WALL.load(Ordering::Relaxed) * SECOND + past,
        _ => return real(id, t),
    };
    (*t).tv_sec = (now / SECOND) as libc::time_t;
    (*t).tv_nsec = (now % SECOND) as libc::c_long;
    0
}
fn freeze() {
    let mut t = libc::timespec { tv_sec: 0, tv_nsec: 0 };
    real(libc::CLOCK_MONOTONIC, &mut t);
    if !VIRTUAL.load(Ordering::Relaxed) {
        BASE.store(t.tv_sec as u64 * SECOND + t.tv_nsec as u64, Ordering::Relaxed);
        VIRTUAL.store(true, Ordering::Relaxed);
    }
}
/// Puts the wall clock at `secs` after the epoch.
pub fn set(secs: u64) {
    WALL.store(secs - OFFSET.load(Ordering::Relaxed) / SECOND, Ordering::Relaxed);
}
/// Seconds since the epoch by the wall clock.
pub fn wall() -> u64 {
    WALL.load(Ordering::Relaxed) + OFFSET.load(Ordering::Relaxed) / SECOND
}
/// Time since the simulation began.
pub fn now() -> Duration {
    Duration::from_nanos(OFFSET.load(Ordering::Relaxed))
}
/// Moves the clocks that `std` sees.
pub fn step(d: Duration) {
    OFFSET.fetch_add(d.as_nanos() as u64, Ordering::Relaxed);
}
/// Lets everything that can run do so without time passing.
pub async fn settle() {
    for _ in 0..60 {
        tokio::task::yield_now().await;
    }
}
/// Lets `d` pass in small steps, with everything runnable running in between.
pub async fn pass(d: Duration) {
    let mut left = d;
    settle().await;
    while !left.is_zero() {
        let s = left.min(Duration::from_millis(100));
        step(s);
        tokio::time::advance(s).await;
        settle().await;
        left -= s;
    }
}
/// Runs `f` while letting time pass, for at most `limit`; `None` if it takes longer.
pub async fn within<T: Send + 'static>(limit: Duration, f: impl Future<Output = T> + Send + 'static) -> Option<T> {
    let h = tokio::spawn(f);
    let mut left = limit;
    settle().await;
    while !h.is_finished() {
        if left.is_zero() {
            h.abort();
            return None;
        }
        let s = left.min(Duration::from_millis(100));
        step(s);
        tokio::time::advance(s).await;
        settle().await;
        left -= s;
    }
    match h.await {
        Ok(v) => Some(v),
        Err(e) if e.is_panic() => std::panic::resume_unwind(e.into_panic()),
        Err(_) => None,
    }
}
/// Runs a whole simulated world to completion.
pub fn simulate<T>(f: impl Future<Output = T>) -> T {
    freeze();
    let rt = tokio::runtime::Builder::new_current_thread().enable_all().start_paused(true).build().expect("runtime");
    let out = rt.block_on(f);
    rt.shutdown_background();
    out
}
