//! Both clocks of this program, standing where the check puts them.
use std::{
    future::Future,
    sync::atomic::{AtomicBool, AtomicU64, Ordering},
    time::Duration,
};

static VIRTUAL: AtomicBool = AtomicBool::new(false);
static WALL: AtomicU64 = AtomicU64::new(0);

/// Replaces the C library's function for this program.
///
/// # Safety
/// `t` points to a writable timespec.
#[no_mangle]
pub unsafe extern "C" fn clock_gettime(id: libc::clockid_t, t: *mut libc::timespec) -> libc::c_int {
    if id != libc::CLOCK_REALTIME || !VIRTUAL.load(Ordering::Relaxed) {
        return libc::syscall(libc::SYS_clock_gettime, id, t) as libc::c_int;
    }
    let now = WALL.load(Ordering::Relaxed);
    (*t).tv_sec = (now / 1_000) as libc::time_t;
    (*t).tv_nsec = (now % 1_000 * 1_000_000) as libc::c_long;
    0
}
/// Puts the wall clock at `secs` after the epoch.
pub fn set(secs: u64) {
    WALL.store(secs * 1000, Ordering::Relaxed);
}
struct Frozen;
impl Drop for Frozen {
    fn drop(&mut self) {
        VIRTUAL.store(false, Ordering::Relaxed);
    }
}
/// Runs `f` with the wall clock under the check's control and tokio's clock paused.
pub fn simulate<T>(f: impl Future<Output = T>) -> T {
    let rt = tokio::runtime::Builder::new_current_thread().enable_all().start_paused(true).build().expect("runtime");
    VIRTUAL.store(true, Ordering::Relaxed);
    let _back = Frozen;
    let out = rt.block_on(f);
    rt.shutdown_background();
    out
}
/// Lets everything that can run do so.
pub async fn settle() {
    for _ in 0..40 {
        tokio::task::yield_now().await;
    }
}
#[allow(dead_code)]
pub async fn pass(d: Duration) {
    tokio::time::advance(d).await;
    settle().await;
}
