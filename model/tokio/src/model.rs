//! The scheduler of the stand-in: a table of tasks that the harness polls in the order it wants.
//!
//! A spawned future sits in a slot; waking it only sets a flag.  Nothing runs unless the harness
//! says so, so the harness (and through it the solver) owns the schedule, and a future that
//! returns `Pending` without arranging a wake-up is visible as a task that is never woken.
use std::future::Future;
use std::pin::Pin;
use std::task::{Context, Poll, RawWaker, RawWakerVTable, Waker};
use std::time::Duration;

pub const MAX_TASKS: usize = 600;
/// Slot numbers of wakers handed out for futures the harness polls itself.
pub const MAIN: usize = MAX_TASKS;
const SLOTS: usize = MAX_TASKS + 8;

pub(crate) type Task = Pin<Box<dyn Future<Output = ()>>>;

struct Sched {
    tasks: [Option<Task>; MAX_TASKS],
    n: usize,
    woken: [bool; SLOTS],
    aborted: [bool; MAX_TASKS],
    polls: usize,
    now: Duration,
    timers: Vec<(Duration, Waker)>,
    select_symbolic: bool,
}

const NONE: Option<Task> = None;

static mut S: Sched = Sched {
    tasks: [NONE; MAX_TASKS],
    n: 0,
    woken: [false; SLOTS],
    aborted: [false; MAX_TASKS],
    polls: 0,
    now: Duration::ZERO,
    timers: Vec::new(),
    select_symbolic: false,
};

std::thread_local! {
    /// The task that is being polled.
    static CURRENT: std::cell::Cell<usize> = const { std::cell::Cell::new(MAIN) };
}

#[inline(always)]
fn s() -> &'static mut Sched {
    unsafe { &mut *std::ptr::addr_of_mut!(S) }
}

static VTABLE: RawWakerVTable = RawWakerVTable::new(w_clone, w_wake, w_wake, w_drop);

unsafe fn w_clone(p: *const ()) -> RawWaker {
    RawWaker::new(p, &VTABLE)
}
unsafe fn w_wake(p: *const ()) {
    s().woken[p as usize] = true;
}
unsafe fn w_drop(_: *const ()) {}

/// A waker for slot `slot` (a task number, or `MAIN + k` for a future the harness polls).
pub fn waker(slot: usize) -> Waker {
    unsafe { Waker::from_raw(RawWaker::new(slot as *const (), &VTABLE)) }
}

/// Makes every `select!` start at a branch the solver picks (default: the first branch).
pub fn set_select_symbolic(on: bool) {
    s().select_symbolic = on;
}

pub(crate) fn select_start(n: u32) -> u32 {
    if s().select_symbolic {
        sym::choose(n as usize) as u32
    } else {
        0
    }
}

pub(crate) fn add_task(t: Task) -> usize {
    let i = s().n;
    assert!(i < MAX_TASKS, "stand-in: more tasks than the model holds");
    s().n = i + 1;
    s().tasks[i] = Some(t);
    s().woken[i] = true;
    i
}

pub(crate) fn abort_task(i: usize) {
    if CURRENT.get() == i {
        s().aborted[i] = true;
    } else {
        let t = s().tasks[i].take();
        drop(t);
    }
}

/// Number of tasks spawned so far.
pub fn spawned() -> usize {
    s().n
}

/// Whether task `i` exists and has not finished.
pub fn alive(i: usize) -> bool {
    i < s().n && s().tasks[i].is_some()
}

/// Whether slot `i` has been woken since it was last polled.
pub fn woken(i: usize) -> bool {
    s().woken[i]
}

/// Whether task `i` could make progress: it exists and has been woken.
pub fn ready(i: usize) -> bool {
    alive(i) && s().woken[i]
}

/// Polls task `i` once if it is ready. Returns whether it was.
pub fn poll_task(i: usize) -> bool {
    if !ready(i) {
        return false;
    }
    s().woken[i] = false;
    s().polls += 1;
    let mut t = s().tasks[i].take().unwrap();
    let before = CURRENT.replace(i);
    let w = waker(i);
    let r = t.as_mut().poll(&mut Context::from_waker(&w));
    CURRENT.set(before);
    if r.is_pending() && !s().aborted[i] {
        s().tasks[i] = Some(t);
    } else {
        drop(t);
    }
    true
}

/// Wakes every task without a reason, as a runtime may.
pub fn wake_all() {
    let mut i = 0;
    while i < s().n {
        s().woken[i] = true;
        i += 1;
    }
}

/// Polls ready tasks in slot order, at most `rounds` times over the table, until none is ready.
/// Returns whether everything came to rest.
pub fn run(rounds: usize) -> bool {
    let mut r = 0;
    while r < rounds {
        let mut any = false;
        let mut i = 0;
        while i < s().n {
            any |= poll_task(i);
            i += 1;
        }
        if !any {
            return true;
        }
        r += 1;
    }
    let mut i = 0;
    while i < s().n {
        if ready(i) {
            return false;
        }
        i += 1;
    }
    true
}

/// Polls a future owned by the harness, with the waker of slot `MAIN + k`.
pub fn poll_main<F: Future + ?Sized>(k: usize, f: Pin<&mut F>) -> Poll<F::Output> {
    s().woken[MAIN + k] = false;
    let w = waker(MAIN + k);
    f.poll(&mut Context::from_waker(&w))
}

/// Forgets that slot `MAIN + k` was woken, before the harness polls with its waker.
pub fn reset_main(k: usize) {
    s().woken[MAIN + k] = false;
}

pub fn main_woken(k: usize) -> bool {
    s().woken[MAIN + k]
}

/// Polls `f` and the ready tasks alternately until `f` is done; `None` if everything stalls or
/// `rounds` are used up.
pub fn block_on<F: Future>(rounds: usize, f: F) -> Option<F::Output> {
    let mut f = std::pin::pin!(f);
    s().woken[MAIN] = true;
    let mut r = 0;
    while r < rounds {
        let mut any = false;
        if s().woken[MAIN] {
            any = true;
            if let Poll::Ready(v) = poll_main(0, f.as_mut()) {
                return Some(v);
            }
        }
        let mut i = 0;
        while i < s().n {
            any |= poll_task(i);
            i += 1;
        }
        if !any {
            return None;
        }
        r += 1;
    }
    None
}

pub fn now() -> Duration {
    s().now
}

/// Advances the virtual clock and wakes the sleepers that are due.
pub fn advance(d: Duration) {
    let now = s().now + d;
    s().now = now;
    let mut i = 0;
    while i < s().timers.len() {
        if s().timers[i].0 <= now {
            let (_, w) = s().timers.swap_remove(i);
            w.wake();
        } else {
            i += 1;
        }
    }
}

pub(crate) fn add_timer(at: Duration, w: &Waker) {
    let mut i = 0;
    while i < s().timers.len() {
        if s().timers[i].0 == at && s().timers[i].1.will_wake(w) {
            return;
        }
        i += 1;
    }
    s().timers.push((at, w.clone()));
}

/// Forgets all timers; for harnesses that know that nobody waits for one.
pub fn forget_timers() {
    s().timers = Vec::new();
}

/// Drops every task and forgets the clock; for native replays that run several harnesses.
pub fn reset() {
    let mut i = 0;
    while i < s().n {
        let t = s().tasks[i].take();
        drop(t);
        s().woken[i] = false;
        s().aborted[i] = false;
        i += 1;
    }
    s().n = 0;
    s().timers.clear();
    s().now = Duration::ZERO;
}
