//! C30: what waits holds up nothing else.
use crate::kit::*;
use crate::net::*;
use crate::spec::{frame, Frame, END, ERROR, INITIATOR, RESPONSE};
use bromine::event::Event;
use bromine::prelude::*;
use futures_core::Stream;
use std::cell::UnsafeCell;
use std::pin::Pin;
use std::sync::Arc;
use std::task::{Poll, Waker};
use std::time::Duration;
use tokio::model::*;

const LONG: Duration = Duration::from_secs(1000);
const SLEEP: Duration = Duration::from_secs(5);

/// Gates for any number of handlers.
struct Gates(UnsafeCell<(Vec<bool>, Vec<Waker>)>);
unsafe impl Sync for Gates {}
static GATES: Gates = Gates(UnsafeCell::new((Vec::new(), Vec::new())));
#[allow(clippy::mut_from_ref)]
fn gates() -> &'static mut (Vec<bool>, Vec<Waker>) {
    unsafe { &mut *GATES.0.get() }
}
async fn pass(k: usize) {
    std::future::poll_fn(|cx| {
        if gates().0.get(k) == Some(&true) {
            Poll::Ready(())
        } else {
            gates().1.push(cx.waker().clone());
            Poll::Pending
        }
    })
    .await
}
fn open(k: usize) {
    let g = gates();
    while g.0.len() <= k {
        g.0.push(false);
    }
    g.0[k] = true;
    for w in std::mem::take(&mut g.1) {
        w.wake()
    }
}

const QUICK: u8 = 0;
const GATE: u8 = 1;
const REQUEST: u8 = 2;
const STREAM: u8 = 3;
const TIMER: u8 = 4;
const KINDS: usize = 5;
const SECS: u8 = 5;
/// Waits as the first byte of the event says; the second is the number of its gate.
async fn waits(ctx: &Context, e: Event) -> IPCResult<Response> {
    world().log.push((0, frame_of(&e)));
    let d = e.data_raw().to_vec();
    let p = |x: u8| BytePayload::new(vec![x]);
    match d[0] {
        QUICK => drop(ctx.data.write().await),
        GATE => pass(d[1] as usize).await,
        REQUEST => {
            let r = ctx.emit("q", p(d[1])).await_reply().with_timeout(LONG).await?;
            return ctx.response(BytePayload::new(r.data_raw().to_vec()));
        }
        STREAM => {
            let mut s = ctx.emit("q", p(d[1])).stream_replies().with_timeout(LONG).await?;
            let mut all = Vec::new();
            while let Some(r) = std::future::poll_fn(|cx| Pin::new(&mut s).poll_next(cx)).await {
                all.extend_from_slice(r?.data_raw());
            }
            return ctx.response(BytePayload::new(all));
        }
        TIMER => tokio::time::sleep(SLEEP).await,
        SECS => tokio::time::sleep(Duration::from_secs(u32::from_be_bytes([d[2], d[3], d[4], d[5]]) as u64)).await,
        _ => std::future::pending().await,
    }
    ctx.response(p(d[1]))
}
fn waiting() -> Builder {
    builder()
        .on("w", |c, e| Box::pin(waits(c, e)))
        .namespace("n")
        .on("w", |c, e| Box::pin(waits(c, e)))
        .build()
}
fn rest() {
    sym::check(run(3000), "everything comes to rest");
}
fn event(k: usize, kind: u8) -> Frame {
    // also replies that nobody waits for
    let (t, re) = [(INITIATOR, None), (RESPONSE, Some(3)), (ERROR, Some(4)), (INITIATOR, Some(5))][k % 4];
    frame(100 + k as u64, t, re, if k % 2 == 0 { None } else { Some("n") }, "w", &[kind, k as u8])
}
/// Gives the handler of event `k` what it waits for, and says what its response is.
fn release(k: usize, kind: u8, i: &Pipe, asked: &[Frame], x: u8) -> Vec<u8> {
    let reply = |t: u8, d: &[u8]| match asked.iter().find(|f| f.data == [k as u8]) {
        Some(f) => i.d().push(&frame(7, t, Some(f.id), None, "r", d).encode()),
        None => sym::fail("a handler that waits for a reply has sent its request"),
    };
    match kind {
        GATE => open(k),
        REQUEST => {
            reply(RESPONSE, &[x]);
            return vec![x];
        }
        STREAM => {
            reply(RESPONSE, &[x]);
            reply(END, &[1]);
            return vec![x, 1];
        }
        _ => advance(SLEEP),
    }
    vec![k as u8]
}
/// Every one of `frames` is the final event of another one of `of`.
fn answers(frames: &[Frame], of: &[(usize, Vec<u8>)]) {
    sym::check(frames.len() == of.len(), "what nobody holds up any more is answered at once");
    for (k, d) in of {
        let mine: Vec<&Frame> = frames.iter().filter(|f| f.re == Some(100 + *k as u64)).collect();
        sym::check(mine.len() == 1 && mine[0].kind == END, "every event is answered once");
        sym::check(&mine[0].data == d, "the answer is the one the handler gave");
    }
}

/// Handlers that wait for different things, and are released in any order.
/// @bounds a client or a server; 3 events (in a namespace or not, initiators or replies nobody waits for), each handled by a handler that changes the shared data and returns, waits for a signal, for a reply, for a stream of replies or for 5 s; released in every order; a request of the client that is answered before, between or after
/// @deep 4 events
/// @shards 8 8
/// @also C12 C13
#[no_mangle]
pub fn c30_waiting() {
    let n = sym::bound(3, 4);
    let (i, o, c) = endpoint(waiting());
    let own = c.clone().map(|c| Job::new(0, async move { c.emit("own", BytePayload::new(vec![200])).await_reply().with_timeout(LONG).await }));
    let mut own: Vec<_> = own.into_iter().collect();
    drive(&mut own);
    let mine = sent(&o);
    sym::check(mine.len() == own.len(), "a request is sent");
    let kinds: Vec<u8> = (0..n).map(|_| sym::choose(KINDS) as u8).collect();
    let x = sym::u8();
    let when = if own.is_empty() { n } else { sym::choose(n + 1) };
    for k in 0..n {
        i.d().push(&event(k, kinds[k]).encode());
    }
    drive(&mut own);
    sym::check(world().log.len() == n, "every event is handled although others wait");
    let f = sent(&o);
    let (asked, done): (Vec<Frame>, Vec<Frame>) = f.into_iter().partition(|f| f.name == b"q");
    let quick: Vec<(usize, Vec<u8>)> = (0..n).filter(|k| kinds[*k] == QUICK).map(|k| (k, vec![k as u8])).collect();
    answers(&done, &quick);
    let mut left: Vec<usize> = (0..n).filter(|k| kinds[*k] != QUICK).collect();
    for step in 0..n + 1 {
        if step == when {
            if let Some(m) = mine.first() {
                i.d().push(&frame(6, RESPONSE, Some(m.id), None, "r", &[x]).encode());
                drive(&mut own);
                let ok = matches!(&own[0].out, Some(Ok(e)) if e.data_raw() == &[x][..]);
                sym::check(ok, "a reply reaches its request although handlers wait");
            }
        }
        if left.is_empty() {
            continue;
        }
        let k = left.remove(sym::choose(left.len()));
        let mut due = vec![(k, release(k, kinds[k], &i, &asked, x))];
        if kinds[k] == TIMER {
            due.extend(left.iter().filter(|j| kinds[**j] == TIMER).map(|j| (*j, vec![*j as u8])));
            left.retain(|j| kinds[*j] != TIMER);
        }
        drive(&mut own);
        answers(&sent(&o), &due);
    }
    sym::check(world().log.len() == n, "every event is handled once");
    sym::reach("all answered");
    drop(c);
}
/// Many handlers wait at once, and what comes after them is handled.
/// @bounds a client or a server; 3, 40, 110 or 250 handlers that wait for a signal, a reply, a stream of replies or time; 2 events after that; all released, in 2 orders
/// @shards 4 4
/// @steps 300000000
/// @also C12 C13
#[no_mangle]
pub fn c30_many() {
    let (i, o, c) = endpoint(waiting());
    let n = [3, 40, 110, 250][sym::choose(4)];
    let kind = 1 + sym::choose(KINDS - 1) as u8;
    let x = sym::u8();
    for k in 0..n {
        i.d().push(&event(k, kind).encode());
    }
    rest();
    sym::check(world().log.len() == n, "every event is handled although others wait");
    let asked = sent(&o);
    sym::check(asked.iter().all(|f| f.name == b"q"), "what still waits is not answered");
    for k in n..n + 2 {
        i.d().push(&event(k, QUICK).encode());
    }
    rest();
    answers(&sent(&o), &[(n, vec![n as u8]), (n + 1, vec![(n + 1) as u8])]);
    let mut due = Vec::new();
    let back = sym::flag();
    for j in 0..n {
        let k = if back { n - 1 - j } else { j };
        if kind != TIMER || j == 0 {
            let d = release(k, kind, &i, &asked, x);
            due.push((k, d));
        } else {
            due.push((k, vec![k as u8]));
        }
    }
    rest();
    let f = sent(&o);
    sym::check(f.len() == n, "what nobody holds up any more is answered at once");
    let mut seen = vec![false; n];
    for a in &f {
        let k = a.re.unwrap_or(0).wrapping_sub(100) as usize;
        sym::check(k < n && !seen[k] && a.kind == END, "every event is answered once");
        seen[k] = true;
        let d = &due[if back { n - 1 - k } else { k }];
        sym::check(a.data == d.1, "the answer is the one the handler gave");
    }
    sym::reach("all answered");
    drop(c);
}
/// The transport takes nothing for a while: what comes in is received and handled nevertheless.
/// @bounds a client or a server; the transport takes 0 to 30 more bytes, or half an answer; 1, 12 or 130 events meanwhile, whose handlers return at once or emit an event before; a request of the client, sent before, is answered meanwhile; then it takes everything, or 1 byte at a time
/// @shards 4 4
/// @also C13 C14 C16
#[no_mangle]
pub fn c30_stuck() {
    let emits = sym::flag();
    world().acts[1].data = Some(vec![3]);
    if emits {
        world().acts[1].emits = vec![(false, vec![4])];
    }
    let (i, o, c) = endpoint(builder().on("h", handler(1)));
    let own = c.clone().map(|c| Job::new(0, async move { c.emit("own", BytePayload::new(vec![1])).await_reply().with_timeout(LONG).await }));
    let mut own: Vec<_> = own.into_iter().collect();
    drive(&mut own);
    let mine = sent(&o);
    o.d().window = [0, 1, 9, 30][sym::choose(4)];
    let n = [1, 12, 130][sym::choose(3)];
    let when = sym::choose(2) * (n - 1);
    let x = sym::u8();
    for k in 0..n {
        i.d().push(&frame(100 + k as u64, INITIATOR, None, None, "h", &[k as u8]).encode());
        if k == when && !mine.is_empty() {
            i.d().push(&frame(6, RESPONSE, Some(mine[0].id), None, "r", &[x]).encode());
        }
    }
    drive(&mut own);
    sym::check(world().log.len() == n, "events are received and handled although nothing can be sent");
    if let Some(j) = own.first() {
        let ok = matches!(&j.out, Some(Ok(e)) if e.data_raw() == &[x][..]);
        sym::check(ok, "a reply is received although nothing can be sent");
    }
    if sym::flag() {
        o.d().wcut = Cut::Max(40);
    }
    o.d().open_window(usize::MAX);
    drive(&mut own);
    let f = sent(&o);
    sym::check(f.len() == n * (1 + usize::from(emits)), "everything is sent once it can be");
    let mut seen = vec![0; n];
    for a in &f {
        let k = a.re.unwrap_or(0).wrapping_sub(100) as usize;
        sym::check(k < n, "everything sent refers to the event it belongs to");
        if a.kind == END {
            sym::check(seen[k] == usize::from(emits), "every event is answered once, after what its handler emitted");
            seen[k] = 9;
        } else {
            sym::check(seen[k] == 0 && emits, "what a handler emits is sent once");
            seen[k] = 1;
        }
    }
    sym::check(seen.iter().all(|s| *s == 9), "every event is answered");
    sym::reach("all sent");
    drop(c);
}
/// One connection of a server is stuck in one of several ways; the others are served.
/// @bounds a server with one connection on which nothing comes, or half an event, or that takes nothing while 1 or 40 events are to be answered, or whose 1 or 40 handlers wait for a signal, a reply or time; one connection before it and 1 or 12 after it, each with one event; the stuck one goes on afterwards
/// @shards 2 4
/// @also C15
#[no_mangle]
pub fn c30_connections() {
    server(waiting());
    let (i0, o0) = incoming();
    let (i, o) = incoming();
    let how = sym::choose(8);
    let n = [1, 40][sym::choose(2)];
    let x = sym::u8();
    let half = event(60, QUICK).encode();
    let cut = [1, 10, half.len() - 1][sym::choose(if how == 1 { 3 } else { 1 })];
    let kind = match how {
        2 | 3 => QUICK,
        4 => GATE,
        5 => REQUEST,
        6 => STREAM,
        _ => TIMER,
    };
    match how {
        0 => {}
        1 => i.d().push(&half[..cut]),
        _ => {
            if how < 4 {
                o.d().window = (how - 2) * 20;
            }
            for k in 0..n {
                i.d().push(&event(k, kind).encode());
            }
        }
    }
    rest();
    let asked = if how > 3 { sent(&o) } else { Vec::new() };
    let before = world().log.len();
    let serve = |i: &Pipe, o: &Pipe, k: usize| {
        i.d().push(&event(k, QUICK).encode());
        rest();
        answers(&sent(o), &[(k, vec![k as u8])]);
    };
    serve(&i0, &o0, 80);
    let more = [1, 12][sym::choose(2)];
    for k in 0..more {
        let (i, o) = incoming();
        rest();
        serve(&i, &o, 90 + k);
    }
    serve(&i0, &o0, 81);
    sym::check(world().log.len() == before + 2 + more, "every event is handled once");
    let due: Vec<(usize, Vec<u8>)> = match how {
        0 | 1 => {
            if how == 0 {
                i.d().push(&half);
            } else {
                i.d().push(&half[cut..]);
            }
            vec![(60, vec![60])]
        }
        2 | 3 => {
            o.d().open_window(usize::MAX);
            (0..n).map(|k| (k, vec![k as u8])).collect()
        }
        7 => {
            advance(SLEEP);
            (0..n).map(|k| (k, vec![k as u8])).collect()
        }
        _ => (0..n).map(|k| (k, release(k, kind, &i, &asked, x))).collect(),
    };
    rest();
    answers(&sent(&o), &due);
    sym::reach("all served");
}
/// Two endpoints that ask each other from within their handlers.
/// @bounds a client and a server; 1 to 3 chains of 1, 2, 7 or 40 handlers that wait for each other, alternating between the two sides; the transport moves everything at once or 11 bytes at a time
/// @shards 2 2
/// @also C08 C13
#[no_mangle]
pub fn c30_nested() {
    struct Own(UnsafeCell<Option<Context>>);
    unsafe impl Sync for Own {}
    static OWN: Own = Own(UnsafeCell::new(None));
    /// The server asks the client, which starts the next link of the chain and waits for its end.
    async fn asks(ctx: &Context, e: Event) -> IPCResult<Response> {
        world().log.push((1, frame_of(&e)));
        let d = e.data_raw().to_vec();
        let r = ctx.emit("c", BytePayload::new(d)).await_reply().with_timeout(LONG).await?;
        ctx.response(BytePayload::new(r.data_raw().to_vec()))
    }
    async fn goes_on(ctx: &Context, e: Event) -> IPCResult<Response> {
        world().log.push((2, frame_of(&e)));
        let d = e.data_raw().to_vec();
        let at = d[0] as usize * 50 + d[1] as usize;
        if d[1] > 0 {
            let own = unsafe { (*OWN.0.get()).clone().unwrap() };
            own.emit("s", BytePayload::new(vec![d[0], d[1] - 1, d[2]])).await?;
            pass(at - 1).await;
        }
        open(at);
        ctx.response(BytePayload::new(d))
    }
    server(builder().on("s", |c, e| Box::pin(asks(c, e))));
    let (a, b) = pair();
    let pipes = [a.r.0.clone(), a.w.0.clone()];
    if sym::flag() {
        for p in &pipes {
            p.d().rcut = Cut::Slow(11);
            p.d().wcut = Cut::Max(11);
        }
    }
    net().to_connect.push(a);
    let c = match block_on(8, builder().on("c", |c, e| Box::pin(goes_on(c, e))).build_client()) {
        Some(Ok(c)) => c,
        _ => sym::fail("a client connects"),
    };
    unsafe { *OWN.0.get() = Some(c.clone()) };
    give(b);
    rest();
    let depth = [1, 2, 7, 40][sym::choose(4)];
    let chains = 1 + sym::choose(3);
    let x = sym::u8();
    let ends: Arc<Gates> = Arc::new(Gates(UnsafeCell::new((vec![false; chains], Vec::new()))));
    for k in 0..chains {
        let (c, e) = (c.clone(), ends.clone());
        tokio::spawn(async move {
            let sent = c.emit("s", BytePayload::new(vec![k as u8, depth - 1, x])).await;
            pass(k * 50 + depth as usize - 1).await;
            unsafe { (*e.0.get()).0[k] = sent.is_ok() };
        });
    }
    rest();
    for k in 0..chains {
        sym::check(unsafe { (*ends.0.get()).0[k] }, "handlers that ask each other come to an end");
    }
    let count = |t: usize| world().log.iter().filter(|l| l.0 == t).count();
    sym::check(count(1) == chains * depth as usize && count(2) == chains * depth as usize, "every event is handled once");
    sym::check(world().log.iter().all(|l| l.1.data[2] == x), "the events are unchanged");
    let done = pipes.iter().map(|p| crate::spec::frames(&p.d().data)).flatten().filter(|f| f.kind == END).count();
    sym::check(done == 2 * chains * depth as usize, "every event is answered once");
    sym::reach("all ended");
    drop(c);
}

/// Handlers that sleep are answered exactly when their own time has come.
/// @bounds a client or a server; 2 handlers that sleep for any 32-bit number of seconds each; the clock goes on by any 32-bit number of seconds, twice
/// @deep 3 handlers
/// @also C13
#[no_mangle]
pub fn c30_sleeping() {
    let n = sym::bound(2, 3);
    let (i, o, c) = endpoint(waiting());
    let times: Vec<u32> = (0..n).map(|_| sym::u32()).collect();
    for k in 0..n {
        let t = times[k].to_be_bytes();
        i.d().push(&frame(100 + k as u64, INITIATOR, None, None, "w", &[SECS, k as u8, t[0], t[1], t[2], t[3]]).encode());
    }
    rest();
    sym::check(world().log.len() == n, "every event is handled although others wait");
    let mut now = 0u64;
    let mut answered = vec![false; n];
    for step in 0..3 {
        for f in sent(&o) {
            let k = f.re.unwrap_or(0).wrapping_sub(100) as usize;
            sym::check(k < n && f.kind == END && !answered[k], "every event is answered once");
            answered[k] = true;
        }
        for k in 0..n {
            sym::check(answered[k] == (times[k] as u64 <= now), "a handler goes on when its own time has come, and not before");
        }
        if step < 2 {
            let d = sym::u32() as u64;
            now += d;
            advance(Duration::from_secs(d));
            rest();
        }
    }
    sym::reach("compared");
    drop(c);
}
