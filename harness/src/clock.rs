//! The clock of the cases: what is shown of a time depends on the current year.  The definition
//! here takes the place of the one of the C library for everything linked into this program.

use std::os::raw::{c_int, c_long};
use std::sync::atomic::{AtomicI64, Ordering};

static NOW: AtomicI64 = AtomicI64::new(i64::MIN);

#[repr(C)]
pub struct Spec {
    sec: i64,
    nsec: c_long,
}

extern "C" {
    fn syscall(num: c_long, ...) -> c_long;
}

/// Sets the time of day, in seconds; `None` for the real one.
pub fn set(now: Option<i64>) {
    NOW.store(now.unwrap_or(i64::MIN), Ordering::SeqCst);
}

#[no_mangle]
pub unsafe extern "C" fn clock_gettime(clock: c_int, out: *mut Spec) -> c_int {
    let now = NOW.load(Ordering::SeqCst);
    if clock == 0 && now != i64::MIN {
        (*out).sec = now;
        (*out).nsec = 0;
        return 0;
    }
    const CLOCK_GETTIME: c_long = 228;
    syscall(CLOCK_GETTIME, clock as c_long, out) as c_int
}
