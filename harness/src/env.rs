//! What surrounds the code under test: the clock.
use std::sync::atomic::{AtomicBool, Ordering};

static CLOCK_SYM: AtomicBool = AtomicBool::new(false);
/// Lets the clock stand still again.
pub fn clock_fixed() {
    CLOCK_SYM.store(false, Ordering::Relaxed)
}
/// Lets the solver choose every reading of the clock.
pub fn clock_symbolic() {
    CLOCK_SYM.store(true, Ordering::Relaxed)
}
#[repr(C)]
pub struct Timespec {
    s: i64,
    n: i64,
}
#[no_mangle]
pub unsafe extern "C" fn clock_gettime(_: i32, t: *mut Timespec) -> i32 {
    if CLOCK_SYM.load(Ordering::Relaxed) {
        let s = sym::u32();
        let n = sym::u32();
        sym::assume(n < 1_000_000_000);
        (*t).s = s as i64;
        (*t).n = n as i64;
    } else {
        (*t).s = 1_700_000_000;
        (*t).n = 123_000_000;
    }
    0
}
