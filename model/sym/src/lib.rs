//! The one source of nondeterminism of every harness and every stand-in.
//!
//! The symbolic executor implements the `__sym_*` functions: each value becomes a vector of
//! symbolic bytes.  With the feature `native` they are ordinary functions that take the values,
//! in the same order, from a counterexample (environment variable `SYM_REPLAY`: hex words
//! separated by commas), so that the same program replays it on the real machine.

extern "C" {
    fn __sym_bytes(p: *mut u8, n: usize);
    fn __sym_choose(n: usize) -> usize;
    fn __sym_assume(c: u8);
    fn __sym_check(c: u8, p: *const u8, n: usize);
    fn __sym_fail(p: *const u8, n: usize) -> !;
    fn __sym_reach(p: *const u8, n: usize);
    fn __sym_note(p: *const u8, n: usize);
    fn __sym_thorough() -> u8;
    fn __sym_alloc_limit(n: usize);
    fn __sym_live() -> usize;
    fn __sym_thread(f: extern "C" fn(*mut u8), p: *mut u8);
    fn __sym_join(switches: usize);
    fn __sym_hold(d: i32);
}

/// A bound of the exploration: `quick` for the check run on every change, `deep` for the
/// thorough one.
pub fn bound(quick: usize, deep: usize) -> usize {
    if unsafe { __sym_thorough() } != 0 {
        deep
    } else {
        quick
    }
}

#[inline(always)]
pub fn bytes<const N: usize>() -> [u8; N] {
    let mut a = [0u8; N];
    unsafe { __sym_bytes(a.as_mut_ptr(), N) }
    a
}
#[inline(always)]
pub fn fill(b: &mut [u8]) {
    unsafe { __sym_bytes(b.as_mut_ptr(), b.len()) }
}
/// `n` symbolic bytes.
pub fn vec(n: usize) -> Vec<u8> {
    let mut v = vec![0u8; n];
    fill(&mut v);
    v
}
pub fn u8() -> u8 {
    bytes::<1>()[0]
}
pub fn u16() -> u16 {
    u16::from_le_bytes(bytes())
}
pub fn u32() -> u32 {
    u32::from_le_bytes(bytes())
}
pub fn u64() -> u64 {
    u64::from_le_bytes(bytes())
}
/// A value below `n` (at most 256), one path for each.
#[inline(always)]
pub fn choose(n: usize) -> usize {
    if n <= 1 {
        return 0;
    }
    unsafe { __sym_choose(n) }
}
pub fn flag() -> bool {
    choose(2) == 1
}
#[inline(always)]
pub fn assume(c: bool) {
    unsafe { __sym_assume(c as u8) }
}
/// The assertion: must hold for every value of the inputs that reaches it.
#[inline(always)]
pub fn check(c: bool, m: &'static str) {
    unsafe { __sym_check(c as u8, m.as_ptr(), m.len()) }
}
#[inline(always)]
pub fn fail(m: &'static str) -> ! {
    unsafe { __sym_fail(m.as_ptr(), m.len()) }
}
/// Marks a place that some path must reach, so that a harness that checks nothing is noticed.
#[inline(always)]
pub fn reach(m: &'static str) {
    unsafe { __sym_reach(m.as_ptr(), m.len()) }
}
/// From now on no single allocation of more than `n` bytes may be made.
pub fn alloc_limit(n: usize) {
    unsafe { __sym_alloc_limit(n) }
}
/// Bytes on the heap now.
pub fn live() -> usize {
    unsafe { __sym_live() }
}
/// Whether this is the program that replays a counterexample on the machine.
pub const NATIVE: bool = cfg!(feature = "native");

extern "C" fn body(p: *mut u8) {
    let f: Box<Box<dyn FnOnce()>> = unsafe { Box::from_raw(p.cast()) };
    f()
}
/// Runs the bodies as threads of their own and waits for all of them.  They take turns in every
/// possible way: one runs until it waits or ends, and may besides be interrupted by another
/// before any atomic access, `switches` times altogether.
pub fn threads(switches: usize, bodies: Vec<Box<dyn FnOnce()>>) {
    for b in bodies {
        unsafe { __sym_thread(body, Box::into_raw(Box::new(b)).cast()) }
    }
    unsafe { __sym_join(switches) }
}
/// Like `threads`, for bodies that use the stand-ins, which are made for one thread at a time: the
/// program that replays counterexamples runs them one after the other.
pub fn turns(switches: usize, bodies: Vec<Box<dyn FnOnce()>>) {
    if NATIVE {
        for b in bodies {
            b()
        }
    } else {
        threads(switches, bodies)
    }
}
/// Runs `f` without any other thread in between.
pub fn alone<T>(f: impl FnOnce() -> T) -> T {
    unsafe { __sym_hold(1) }
    let r = f();
    unsafe { __sym_hold(-1) }
    r
}
/// A remark printed with a counterexample.
#[inline(always)]
pub fn note(m: &'static str) {
    unsafe { __sym_note(m.as_ptr(), m.len()) }
}

#[cfg(feature = "native")]
mod native {
    use std::alloc::{GlobalAlloc, Layout, System};
    use std::sync::atomic::{AtomicUsize, Ordering};
    use std::sync::Mutex;
    static VALS: Mutex<Option<Vec<Vec<u8>>>> = Mutex::new(None);

    fn next(n: usize) -> Vec<u8> {
        let mut g = VALS.lock().unwrap();
        if g.is_none() {
            let s = std::env::var("SYM_REPLAY").unwrap_or_default();
            let mut v: Vec<Vec<u8>> = s
                .split(',')
                .map(|w| (0..w.len() / 2).map(|i| u8::from_str_radix(&w[2 * i..2 * i + 2], 16).unwrap()).collect())
                .collect();
            v.reverse();
            *g = Some(v);
        }
        match g.as_mut().unwrap().pop() {
            Some(v) if v.len() == n => v,
            // The counterexample does not constrain values read after the violation.
            None => vec![0; n],
            Some(v) => {
                eprintln!("SYM_REPLAY: width {} where {} expected", v.len(), n);
                std::process::exit(77)
            }
        }
    }
    unsafe fn text(p: *const u8, n: usize) -> &'static str {
        std::str::from_utf8(std::slice::from_raw_parts(p, n)).unwrap()
    }
    #[no_mangle]
    unsafe extern "C" fn __sym_bytes(p: *mut u8, n: usize) {
        let v = next(n);
        std::ptr::copy_nonoverlapping(v.as_ptr(), p, n)
    }
    #[no_mangle]
    extern "C" fn __sym_thorough() -> u8 {
        (std::env::var("VERIF_TIER").as_deref() == Ok("thorough")) as u8
    }
    #[no_mangle]
    extern "C" fn __sym_choose(n: usize) -> usize {
        let v = next(1)[0] as usize;
        if v >= n {
            eprintln!("SYM_REPLAY: choice out of range");
            std::process::exit(77)
        }
        v
    }
    #[no_mangle]
    extern "C" fn __sym_assume(c: u8) {
        if c == 0 {
            eprintln!("SYM_REPLAY: assumption not met");
            std::process::exit(78)
        }
    }
    #[no_mangle]
    unsafe extern "C" fn __sym_check(c: u8, p: *const u8, n: usize) {
        if c == 0 {
            eprintln!("CHECK FAILED: {}", text(p, n));
            std::process::exit(99)
        }
    }
    #[no_mangle]
    unsafe extern "C" fn __sym_fail(p: *const u8, n: usize) -> ! {
        eprintln!("CHECK FAILED: {}", text(p, n));
        std::process::exit(99)
    }
    static BODIES: Mutex<Vec<(extern "C" fn(*mut u8), usize)>> = Mutex::new(Vec::new());
    #[no_mangle]
    extern "C" fn __sym_thread(f: extern "C" fn(*mut u8), p: *mut u8) {
        BODIES.lock().unwrap().push((f, p as usize))
    }
    #[no_mangle]
    extern "C" fn __sym_join(_: usize) {
        let l = std::mem::take(&mut *BODIES.lock().unwrap());
        let b = std::sync::Barrier::new(l.len());
        std::thread::scope(|s| {
            for (f, p) in l {
                let b = &b;
                s.spawn(move || {
                    b.wait();
                    f(p as *mut u8)
                });
            }
        })
    }
    static ALONE: std::sync::atomic::AtomicI32 = std::sync::atomic::AtomicI32::new(0);
    std::thread_local! { static DEPTH: std::cell::Cell<i32> = const { std::cell::Cell::new(0) } }
    #[no_mangle]
    extern "C" fn __sym_hold(d: i32) {
        let n = DEPTH.get();
        DEPTH.set(n + d);
        if d > 0 && n == 0 {
            while ALONE.compare_exchange(0, 1, Ordering::SeqCst, Ordering::SeqCst).is_err() {
                std::thread::yield_now()
            }
        }
        if d < 0 && n == 1 {
            ALONE.store(0, Ordering::SeqCst)
        }
    }
    struct Limited;
    static LIMIT: AtomicUsize = AtomicUsize::new(usize::MAX);
    fn limit(n: usize) {
        if n > LIMIT.load(Ordering::Relaxed) {
            LIMIT.store(usize::MAX, Ordering::Relaxed);
            eprintln!("CHECK FAILED: no memory is allocated by an announced length");
            std::process::exit(99)
        }
    }
    static LIVE: AtomicUsize = AtomicUsize::new(0);
    fn more(n: usize) {
        limit(n);
        LIVE.fetch_add(n, Ordering::Relaxed);
    }
    fn less(n: usize) {
        LIVE.fetch_sub(n, Ordering::Relaxed);
    }
    unsafe impl GlobalAlloc for Limited {
        unsafe fn alloc(&self, l: Layout) -> *mut u8 {
            more(l.size());
            System.alloc(l)
        }
        unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
            more(l.size());
            System.alloc_zeroed(l)
        }
        unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
            less(l.size());
            System.dealloc(p, l)
        }
        unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
            more(n);
            less(l.size());
            System.realloc(p, l, n)
        }
    }
    #[no_mangle]
    extern "C" fn __sym_live() -> usize {
        LIVE.load(Ordering::Relaxed)
    }
    #[global_allocator]
    static ALLOC: Limited = Limited;
    #[no_mangle]
    extern "C" fn __sym_alloc_limit(n: usize) {
        LIMIT.store(n, Ordering::Relaxed)
    }
    #[no_mangle]
    unsafe extern "C" fn __sym_reach(_: *const u8, _: usize) {}
    #[no_mangle]
    unsafe extern "C" fn __sym_note(p: *const u8, n: usize) {
        eprintln!("note: {}", text(p, n));
    }
}
