//! C32: futures and streams work whoever polls them, and whenever.
use crate::kit::*;
use crate::net::*;
use crate::spec::{frame, Frame, END, INITIATOR, RESPONSE};
use bromine::event::Event;
use bromine::prelude::*;
use futures_core::Stream;
use std::future::Future;
use std::pin::Pin;
use std::task::Poll;
use std::time::Duration;
use tokio::model::*;

pub type Fut<T> = Pin<Box<dyn Future<Output = T>>>;
/// A future that is polled with different wakers, also without having been woken.
pub struct Hop {
    at: usize,
    new: bool,
    /// How many more times the solver picks the waker.
    left: usize,
}
impl Hop {
    pub fn new(left: usize) -> Hop {
        Hop { at: 0, new: true, left }
    }
    /// Another future takes its place.
    pub fn fresh(&mut self) {
        self.new = true;
    }
    pub fn poll<T>(&mut self, f: &mut impl FnMut(usize) -> Poll<T>) -> Poll<T> {
        self.new = false;
        if self.left > 0 {
            self.left -= 1;
            self.at = sym::choose(2);
        }
        f(self.at)
    }
    /// Polls it as long as it is woken, and then once without that if the solver likes; also runs
    /// all tasks.
    pub fn go<T>(&mut self, mut f: impl FnMut(usize) -> Poll<T>) -> Option<T> {
        for _ in 0..400 {
            let mut any = false;
            if self.new || main_woken(self.at) {
                any = true;
                if let Poll::Ready(v) = self.poll(&mut f) {
                    return Some(v);
                }
            }
            for i in 0..spawned() {
                any |= poll_task(i);
            }
            if !any {
                if self.left > 0 && sym::flag() {
                    match self.poll(&mut f) {
                        Poll::Ready(_) => sym::fail("a future that can go on is woken"),
                        Poll::Pending => continue,
                    }
                }
                return None;
            }
        }
        sym::fail("everything comes to rest")
    }
}
fn plain() -> Builder {
    builder().on("h", handler(1)).namespace("n").on("h", handler(2)).build()
}

/// Emits, requests and streams of replies that move between tasks and are polled without need.
/// @bounds an emit, a request, or a stream of replies; the transport takes all, 0 or 5 bytes at first; one or two replies (a symbolic byte) or none until the timeout; 4 polls by either of two wakers, up to 2 of them without having been woken
/// @deep 6 such polls
/// @shards 2 4
/// @also C09 C10 C11
#[no_mangle]
pub fn c32_requests() {
    let (c, i, o) = client(plain());
    o.d().window = [usize::MAX, 0, 5][sym::choose(3)];
    let kind = sym::choose(3);
    let limit = Duration::from_secs(5);
    let p = BytePayload::new(vec![1]);
    let mut f: Fut<IPCResult<Vec<u8>>> = match kind {
        0 => Box::pin(async move { c.emit("q", p).await.map(|_| Vec::new()) }),
        1 => Box::pin(async move { c.emit("q", p).await_reply().with_timeout(limit).await.map(|e| e.data_raw().to_vec()) }),
        _ => Box::pin(async move {
            let mut s = c.emit("q", p).stream_replies().with_timeout(limit).await?;
            let mut v = Vec::new();
            while let Some(r) = std::future::poll_fn(|cx| Pin::new(&mut s).poll_next(cx)).await {
                v.extend_from_slice(r?.data_raw());
            }
            Ok(v)
        }),
    };
    let mut hop = Hop::new(sym::bound(4, 6));
    let stuck = o.d().window != usize::MAX;
    let mut out = hop.go(|k| poll_main(k, f.as_mut()));
    sym::check(out.is_some() == (kind == 0 && !stuck), "an emit ends when it is sent, and a request waits");
    if stuck {
        o.d().open_window(usize::MAX);
        out = hop.go(|k| poll_main(k, f.as_mut()));
        sym::check(out.is_some() == (kind == 0), "what waits for the transport goes on once it can");
    }
    let sent = sent(&o);
    sym::check(sent.len() == 1 && sent[0].data == [1], "every event is sent once");
    if kind == 0 {
        sym::check(matches!(out, Some(Ok(_))), "an emit succeeds");
        return sym::reach("emitted");
    }
    let x = sym::u8();
    let reply = |t: u8, d: u8| i.d().push(&frame(7, t, Some(sent[0].id), None, "r", &[d]).encode());
    if sym::flag() {
        advance(Duration::from_secs(4));
        sym::check(hop.go(|k| poll_main(k, f.as_mut())).is_none(), "a request waits for its timeout");
        advance(Duration::from_secs(1));
        out = hop.go(|k| poll_main(k, f.as_mut()));
        sym::check(matches!(out, Some(Err(IPCError::Timeout))), "a request that is not answered times out");
        return sym::reach("timed out");
    }
    if kind == 2 {
        reply(RESPONSE, x);
        sym::check(hop.go(|k| poll_main(k, f.as_mut())).is_none(), "a stream goes on until its end");
        reply(END, 3);
    } else {
        reply(RESPONSE, x);
    }
    out = hop.go(|k| poll_main(k, f.as_mut()));
    let want = if kind == 2 { vec![x, 3] } else { vec![x] };
    sym::check(matches!(out, Some(Ok(v)) if v == want), "the replies arrive at whoever polls last");
    sym::reach("answered");
}
/// All tasks are woken again and again without a reason: nothing changes.
/// @bounds a client or a server; 3 events whose handlers emit an event, wait for a signal or not, and respond (payload symbolic); half a frame in between, the transport stuck for a while or not, a request of the client that is answered; needless wake-ups of all tasks at any of 5 points, or all of them
/// @shards 4 4
/// @also C13
#[no_mangle]
pub fn c32_tasks() {
    let x = sym::u8();
    for t in [1, 2] {
        world().acts[t].data = Some(vec![x]);
        world().acts[t].emits = vec![(t == 2, vec![t as u8])];
    }
    world().acts[2].gated = true;
    let (i, o, c) = endpoint(plain());
    let point = sym::choose(7);
    let all = || sym::check(run(400), "everything comes to rest");
    let nudge = |at: usize| {
        if point == at || point == 6 {
            wake_all();
            all();
            wake_all();
            all();
        }
    };
    nudge(0);
    let mut own: Vec<Job<IPCResult<Event>>> =
        c.iter().cloned().map(|c| Job::new(0, async move { c.emit("own", BytePayload::new(vec![9])).await_reply().await })).collect();
    drive(&mut own);
    let mine = sent(&o);
    nudge(1);
    if sym::flag() {
        o.d().window = 7;
    }
    let bytes: Vec<u8> = (0..3).flat_map(|k| frame(50 + k, INITIATOR, None, if k == 1 { Some("n") } else { None }, "h", &[k as u8]).encode()).collect();
    let cut = [3, bytes.len() / 2, bytes.len()][sym::choose(3)];
    i.d().push(&bytes[..cut]);
    drive(&mut own);
    nudge(2);
    i.d().push(&bytes[cut..]);
    drive(&mut own);
    nudge(3);
    sym::check(world().log.len() == 3, "every event is handled once");
    o.d().open_window(usize::MAX);
    drive(&mut own);
    open_gate(2);
    drive(&mut own);
    nudge(4);
    open_gate(2);
    if let Some(m) = mine.first() {
        i.d().push(&frame(7, RESPONSE, Some(m.id), None, "r", &[x]).encode());
    }
    drive(&mut own);
    nudge(5);
    let f = sent(&o);
    sym::check(f.len() == 6 && world().log.len() == 3, "every event is handled and answered once");
    for k in 0..3u64 {
        let a: Vec<&Frame> = f.iter().filter(|f| f.re == Some(50 + k)).collect();
        sym::check(a.len() == 2 && a[0].kind == RESPONSE && a[1].kind == END && a[1].data == [x], "what is emitted and the answer are sent once, in order");
    }
    sym::check(own.iter().all(|j| matches!(&j.out, Some(Ok(e)) if e.data_raw() == &[x][..])), "the request is answered");
    sym::reach("all answered");
    drop(c);
}
