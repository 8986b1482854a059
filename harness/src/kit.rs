//! What the harnesses of the IPC layer share: recorded handlers, endpoints, schedules.
use crate::net::*;
use crate::spec::{self, Frame};
use bromine::error_event::ErrorEventData;
use bromine::event::Event;
use bromine::prelude::*;
use bromine::IPCBuilder;
use std::cell::UnsafeCell;
use std::future::Future;
use std::io;
use std::pin::Pin;
use std::task::Waker;
use tokio::model::*;

/// The frame an event stands for.
pub fn frame_of(e: &Event) -> Frame {
    Frame {
        id: e.id(),
        kind: u8::from(e.event_type()),
        re: e.reference_id(),
        ns: e.namespace().as_ref().map(|n| n.as_bytes().to_vec()),
        name: e.name().as_bytes().to_vec(),
        data: e.data_raw().to_vec(),
    }
}

/// What a handler does when it is called.
#[derive(Clone, Default)]
pub struct Act {
    /// Events it emits first: namespace or not, and the payload.
    pub emits: Vec<(bool, Vec<u8>)>,
    /// Whether it waits for its gate before each emit and before it returns.
    pub gated: bool,
    /// Returns an error.
    pub err: bool,
    /// Which error, see [`fault`].
    pub fault: usize,
    /// Payload of its response; `None` is an empty response.
    pub data: Option<Vec<u8>>,
}
pub struct World {
    /// Handler calls: which handler, and the event.
    pub log: Vec<(usize, Frame)>,
    pub acts: Vec<Act>,
    pub gate: [bool; 16],
    pub waiting: [bool; 16],
    wakers: Vec<Waker>,
    pub finished: Vec<usize>,
}
struct G(UnsafeCell<Option<World>>);
unsafe impl Sync for G {}
static W: G = G(UnsafeCell::new(None));
#[allow(clippy::mut_from_ref)]
pub fn world() -> &'static mut World {
    unsafe {
        (*W.0.get()).get_or_insert_with(|| World {
            log: Vec::new(),
            acts: vec![Act::default(); 16],
            gate: [false; 16],
            waiting: [false; 16],
            wakers: Vec::new(),
            finished: Vec::new(),
        })
    }
}
pub fn open_gate(tag: usize) {
    world().gate[tag] = true;
    for w in std::mem::take(&mut world().wakers) {
        w.wake()
    }
}
pub async fn gate(tag: usize, on: bool) {
    if !on {
        return;
    }
    std::future::poll_fn(|cx| {
        if std::mem::replace(&mut world().gate[tag], false) {
            world().waiting[tag] = false;
            std::task::Poll::Ready(())
        } else {
            world().waiting[tag] = true;
            world().wakers.push(cx.waker().clone());
            std::task::Poll::Pending
        }
    })
    .await
}
pub async fn act(tag: usize, ctx: &Context, e: Event) -> IPCResult<Response> {
    world().log.push((tag, frame_of(&e)));
    let a = world().acts[tag].clone();
    for (ns, d) in a.emits {
        gate(tag, a.gated).await;
        let p = BytePayload::new(d);
        if ns {
            ctx.emit_to("m", "out", p).await?;
        } else {
            ctx.emit("out", p).await?;
        }
    }
    gate(tag, a.gated).await;
    world().finished.push(tag);
    if a.err {
        return Err(fault(a.fault));
    }
    match a.data {
        Some(d) => ctx.response(BytePayload::new(d)),
        None => Ok(Response::empty()),
    }
}
pub type Fut<'a> = Pin<Box<dyn Future<Output = IPCResult<Response>> + Send + 'a>>;
pub const FAULTS: usize = 10;
/// The errors a handler may return.
pub fn fault(k: usize) -> IPCError {
    let event = |code| IPCError::from(ErrorEventData { code, message: "boom".to_string() });
    match k {
        0 => IPCError::from("boom"),
        1 => IPCError::from(io::Error::from(io::ErrorKind::BrokenPipe)),
        2 => IPCError::Timeout,
        3 => event(404),
        4 => event(0),
        5 => IPCError::CorruptedEvent,
        6 => IPCError::BuildError("boom".to_string()),
        7 => IPCError::SendError,
        8 => IPCError::UnsupportedVersion("boom".to_string()),
        _ => IPCError::InvalidState,
    }
}
/// A handler that records its calls under `tag`.
pub fn handler(tag: usize) -> impl for<'a> Fn(&'a Context, Event) -> Fut<'a> + Send + Sync {
    move |ctx, e| Box::pin(act(tag, ctx, e))
}

pub type Builder = IPCBuilder<MemListener>;
pub fn builder() -> Builder {
    IPCBuilder::new().address(7)
}
/// A connected client, and the pipes into and out of it.
pub fn client(b: Builder) -> (Context, Pipe, Pipe) {
    let (i, o) = outgoing();
    match block_on(8, b.build_client()) {
        Some(Ok(c)) => (c, i, o),
        _ => sym::fail("a client connects"),
    }
}
/// A running server; the number of its task.
pub fn server(b: Builder) -> usize {
    let t = spawned();
    tokio::spawn(async move {
        let _ = b.build_server().await;
    });
    settle();
    t
}
/// Either endpoint, as the solver likes: its pipes, and the client's context if it is one.
pub fn endpoint(b: Builder) -> (Pipe, Pipe, Option<Context>) {
    if sym::flag() {
        let (c, i, o) = client(b);
        (i, o, Some(c))
    } else {
        server(b);
        let (i, o) = incoming();
        (i, o, None)
    }
}
/// Runs all tasks until nothing moves any more.
pub fn settle() {
    sym::check(run(200), "everything comes to rest");
}
/// The frames written since the last call.
pub fn sent(o: &Pipe) -> Vec<Frame> {
    spec::frames(&o.d().drain())
}
/// Lets the solver pick `steps` times which of the tasks below `n` (and main futures) runs.
pub fn any_order(steps: usize, n: usize) {
    for _ in 0..steps {
        poll_task(sym::choose(n));
    }
}
/// One of the alternatives that are possible, as the solver likes; `None` if none is.
pub fn pick(possible: &[bool]) -> Option<usize> {
    let n = possible.iter().filter(|p| **p).count();
    if n == 0 {
        return None;
    }
    let k = sym::choose(n);
    (0..possible.len()).filter(|i| possible[*i]).nth(k)
}
/// A future of the harness that is polled by hand.
pub struct Job<T> {
    k: usize,
    pub fut: Option<Pin<Box<dyn Future<Output = T>>>>,
    pub out: Option<T>,
    started: bool,
}
impl<T> Job<T> {
    pub fn new(k: usize, f: impl Future<Output = T> + 'static) -> Job<T> {
        Job { k, fut: Some(Box::pin(f)), out: None, started: false }
    }
    /// Polls it if it is new or was woken.
    pub fn step(&mut self) -> bool {
        if self.started && !main_woken(self.k) {
            return false;
        }
        self.started = true;
        if let Some(f) = self.fut.as_mut() {
            if let std::task::Poll::Ready(v) = poll_main(self.k, f.as_mut()) {
                self.fut = None;
                self.out = Some(v);
            }
            return true;
        }
        false
    }
    /// Whether polling it could make a difference.
    pub fn ready(&self) -> bool {
        self.fut.is_some() && (!self.started || main_woken(self.k))
    }
    pub fn started(&self) -> bool {
        self.started
    }
    pub fn done(&self) -> bool {
        self.out.is_some()
    }
    pub fn cancel(&mut self) {
        self.fut = None;
    }
}
/// What a thread of the runtime does: polls every task that is ready.
pub fn worker() {
    for _ in 0..20 {
        let mut any = false;
        for i in 0..spawned() {
            any |= poll_task(i);
        }
        if !any {
            return;
        }
    }
}
/// Polls `f` until it is done, without anything else, at most 9 times.
pub fn block_on_at<T>(k: usize, f: impl Future<Output = T>) -> Option<T> {
    let mut f = std::pin::pin!(f);
    for _ in 0..9 {
        if let std::task::Poll::Ready(v) = poll_main(k, f.as_mut()) {
            return Some(v);
        }
        std::thread::yield_now();
    }
    None
}
/// The body of a thread that uses `x`.
pub fn body<T: 'static>(x: &mut T, f: impl FnOnce(&'static mut T) + 'static) -> Box<dyn FnOnce()> {
    let x: &'static mut T = unsafe { &mut *(x as *mut T) };
    Box::new(move || f(x))
}
/// Runs tasks and jobs fairly until nothing moves any more.
pub fn drive<T>(jobs: &mut [Job<T>]) {
    for _ in 0..400 {
        let mut any = false;
        for j in jobs.iter_mut() {
            any |= j.step();
        }
        for i in 0..spawned() {
            any |= poll_task(i);
        }
        if !any {
            return;
        }
    }
    sym::fail("everything comes to rest");
}

/// `n` bytes without a short period that divides a power of two; `seed` makes it another text.
pub fn big(n: usize, seed: u8) -> Vec<u8> {
    let mut v: Vec<u8> = (0..251u32).map(|i| (i * 7 + i * i / 3) as u8 ^ seed).collect();
    while v.len() < n {
        let k = v.len();
        v.extend_from_within(..);
        // one byte that is not periodic
        v.push((k >> 3) as u8);
    }
    v.truncate(n);
    v
}
