//! The wall clock of a thread: chrono's and std's "now" come from clock_gettime.
use std::cell::Cell;

thread_local! {
    static NOW: Cell<Option<i64>> = const { Cell::new(None) };
}
/// Milliseconds since the epoch; None is the real time.
pub fn set(ms: Option<i64>) {
    NOW.with(|n| n.set(ms));
}
#[no_mangle]
pub unsafe extern "C" fn clock_gettime(clk: libc::clockid_t, ts: *mut libc::timespec) -> libc::c_int {
    if clk == libc::CLOCK_REALTIME {
        if let Ok(Some(ms)) = NOW.try_with(|n| n.get()) {
            (*ts).tv_sec = ms.div_euclid(1000);
            (*ts).tv_nsec = ms.rem_euclid(1000) * 1_000_000;
            return 0;
        }
    }
    libc::syscall(libc::SYS_clock_gettime, clk, ts) as libc::c_int
}
