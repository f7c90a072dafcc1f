//! A clock for both `std` and tokio that only moves when the simulation says so.
use std::{
    future::Future,
    sync::atomic::{AtomicBool, AtomicU64, Ordering},
    time::Duration,
};

static VIRTUAL: AtomicBool = AtomicBool::new(false);
static BASE: AtomicU64 = AtomicU64::new(0);
static OFFSET: AtomicU64 = AtomicU64::new(0);

fn real(id: libc::clockid_t, t: *mut libc::timespec) -> libc::c_int {
    // SAFETY: forwards to the kernel, which checks the pointer
    unsafe { libc::syscall(libc::SYS_clock_gettime, id, t) as libc::c_int }
}
/// Replaces the C library's function for this program.
///
/// # Safety
/// `t` points to a writable timespec.
#[no_mangle]
pub unsafe extern "C" fn clock_gettime(id: libc::clockid_t, t: *mut libc::timespec) -> libc::c_int {
    if id != libc::CLOCK_MONOTONIC || !VIRTUAL.load(Ordering::Relaxed) {
        return real(id, t);
    }
    let now = BASE.load(Ordering::Relaxed) + OFFSET.load(Ordering::Relaxed);
    (*t).tv_sec = (now / 1_000_000_000) as libc::time_t;
    (*t).tv_nsec = (now % 1_000_000_000) as libc::c_long;
    0
}
fn freeze() {
    let mut t = libc::timespec { tv_sec: 0, tv_nsec: 0 };
    real(libc::CLOCK_MONOTONIC, &mut t);
    if !VIRTUAL.load(Ordering::Relaxed) {
        BASE.store(t.tv_sec as u64 * 1_000_000_000 + t.tv_nsec as u64, Ordering::Relaxed);
        VIRTUAL.store(true, Ordering::Relaxed);
    }
}
/// Time since the simulation began.
pub fn now() -> Duration {
    Duration::from_nanos(OFFSET.load(Ordering::Relaxed))
}
/// Moves the clock that `std` sees.
pub fn step(d: Duration) {
    OFFSET.fetch_add(d.as_nanos() as u64, Ordering::Relaxed);
}
/// Lets everything that can run do so without time passing.
pub async fn settle() {
    for _ in 0..60 {
        tokio::task::yield_now().await;
    }
}
/// Lets `d` pass in small steps, with everything runnable running in between.
pub async fn pass(d: Duration) {
    let mut left = d;
    settle().await;
    while !left.is_zero() {
        let s = left.min(Duration::from_millis(100));
        step(s);
        tokio::time::advance(s).await;
        settle().await;
        left -= s;
    }
}
/// Runs `f` while letting time pass, for at most `limit`; `None` if it takes longer.
pub async fn within<T: Send + 'static>(limit: Duration, f: impl Future<Output = T> + Send + 'static) -> Option<T> {
    let h = tokio::spawn(f);
    let mut left = limit;
    settle().await;
    while !h.is_finished() {
        if left.is_zero() {
            h.abort();
            return None;
        }
        let s = left.min(Duration::from_millis(100));
        step(s);
        tokio::time::advance(s).await;
        settle().await;
        left -= s;
    }
    match h.await {
        Ok(v) => Some(v),
        Err(e) if e.is_panic() => std::panic::resume_unwind(e.into_panic()),
        Err(_) => None,
    }
}
/// Runs a whole simulated world to completion.
pub fn simulate<T>(f: impl Future<Output = T>) -> T {
    freeze();
    let rt = tokio::runtime::Builder::new_current_thread().enable_all().start_paused(true).build().expect("runtime");
    let out = rt.block_on(f);
    rt.shutdown_background();
    out
}
