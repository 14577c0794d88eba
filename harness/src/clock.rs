//! The wall clock. While it is frozen, the code under test sees the time the harness chose; the monotonic clock
//! stays as it is.

use std::sync::atomic::{AtomicI64, Ordering};

static WALL: AtomicI64 = AtomicI64::new(0);

/// Where frozen time starts (some day in 2023).
pub const START: i64 = 1_700_000_000;

pub fn freeze(seconds: i64) {
    WALL.store(START + seconds, Ordering::SeqCst);
}

/// Seconds since `START`.
pub fn now() -> i64 {
    WALL.load(Ordering::SeqCst) - START
}

/// Takes the place of the C library's.
#[no_mangle]
pub unsafe extern "C" fn clock_gettime(id: libc::clockid_t, out: *mut libc::timespec) -> libc::c_int {
    let wall = WALL.load(Ordering::SeqCst);
    if id == libc::CLOCK_REALTIME && wall != 0 {
        (*out).tv_sec = wall;
        (*out).tv_nsec = 0;
        return 0;
    }
    libc::syscall(libc::SYS_clock_gettime, id, out) as libc::c_int
}
