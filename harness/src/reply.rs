//! C08-C11: requests and the replies to them.
use crate::kit::*;
use crate::net::*;
use crate::spec::{self, frame, Frame, END, ERROR, INITIATOR, RESPONSE};
use bromine::event::Event;
use bromine::prelude::*;
use futures_core::Stream;
use std::future::poll_fn;
use std::pin::Pin;
use std::time::Duration;
use tokio::model::*;

fn logging() -> Builder {
    builder().on("h", handler(1)).on("error", handler(2)).namespace("n").on("h", handler(3)).build()
}
fn ask(k: usize, c: &Context) -> Job<IPCResult<Event>> {
    Job::new(k, c.emit("q", BytePayload::new(vec![k as u8])).await_reply().with_timeout(Duration::from_secs(1000)))
}
/// Starts the job and returns the id of the event it sends.
fn start<T>(j: &mut Job<T>, o: &Pipe) -> u64 {
    sym::check(j.step() && !j.done(), "a request waits for its reply");
    settle();
    let f = sent(o);
    sym::check(f.len() == 1 && f[0].kind == INITIATOR && f[0].re.is_none() && f[0].name == b"q", "a request is sent as it is");
    f[0].id
}
fn error_data(code: u16, m: &[u8]) -> Vec<u8> {
    let mut d = code.to_be_bytes().to_vec();
    d.extend_from_slice(&(m.len() as u32).to_be_bytes());
    d.extend_from_slice(m);
    d
}
/// The reply a request got, against the frame it should have got.
fn judge(got: &Option<IPCResult<Event>>, want: &Frame) {
    match got {
        Some(Ok(e)) => {
            sym::check(want.kind != ERROR, "an error reply is reported as an error");
            sym::check(spec::same(e, want), "a request gets its own reply, unchanged");
            sym::reach("reply");
        }
        Some(Err(IPCError::ErrorEvent(d))) => {
            sym::check(want.kind == ERROR, "only an error reply is reported as an error");
            sym::check(error_data(d.code, d.message.as_bytes()) == want.data, "the error is the one the peer sent");
            sym::reach("error reply");
        }
        Some(Err(_)) => sym::fail("a reply in time completes the request"),
        None => sym::fail("a request that was answered completes"),
    }
}

/// Two requests in flight, and any events with any references.
/// @bounds two requests in flight on one connection, three incoming events; each refers to either request, to any other 64-bit id or to none, with any 64-bit id (or a request's) as its own; the first of any of the four types, with or without a namespace; payload byte symbolic; the requests look for their reply after each event or at the end
/// @deep four incoming events
/// @shards 6 16
/// @seconds 250 3000
/// @also C12
#[no_mangle]
pub fn c08_route() {
    let (c, i, o) = client(logging());
    let mut jobs = [ask(0, &c), ask(1, &c)];
    let ids = [start(&mut jobs[0], &o), start(&mut jobs[1], &o)];
    sym::check(ids[0] != ids[1], "requests have different ids");
    let n = sym::bound(3, 4);
    let prompt = sym::flag();
    let mut want: [Option<Frame>; 2] = [None, None];
    let mut fresh = Vec::new();
    for k in 0..n {
        let r = sym::choose(4);
        let re = match r {
            0 | 1 => Some(ids[r]),
            2 => {
                let x = sym::u64();
                sym::assume(x != ids[0] && x != ids[1]);
                Some(x)
            }
            _ => None,
        };
        let kind = if k == 0 { sym::choose(4) as u8 } else { [RESPONSE, END][sym::choose(2)] };
        let id = if k == 0 { [sym::u64(), ids[0], ids[1]][sym::choose(3)] } else { 70 + k as u64 };
        let ns = if k == 1 && sym::flag() { Some("n") } else { None };
        let mut data = vec![k as u8, sym::u8()];
        if kind == ERROR {
            let m = sym::u8();
            sym::assume(m < 128);
            data = error_data(k as u16, &[m]);
        }
        let f = frame(id, kind, re, ns, "h", &data);
        i.d().push(&f.encode());
        if prompt {
            drive(&mut jobs);
        }
        if r < 2 && want[r].is_none() {
            want[r] = Some(f);
        } else if kind != END && (r >= 2 || prompt) {
            // nobody waits for it (any more)
            fresh.push(f);
        }
    }
    drive(&mut jobs);
    for k in 0..2 {
        match &want[k] {
            Some(f) => judge(&jobs[k].out, f),
            None => {
                sym::check(!jobs[k].done(), "a request without a reply keeps waiting");
                sym::reach("waiting");
            }
        }
    }
    let log: Vec<Frame> = world().log.iter().map(|(_, f)| f.clone()).collect();
    for f in &fresh {
        sym::check(log.iter().filter(|g| *g == f).count() == 1, "an event nobody waits for is processed like a regular event");
        sym::reach("processed");
    }
    for g in &log {
        for f in want.iter().flatten() {
            sym::check(g != f, "a reply is delivered once");
        }
    }
    if prompt {
        sym::check(log.len() == fresh.len(), "nothing else is processed");
    }
}
/// An error reply whose payload is no error payload is an error as well, and nothing panics.
/// @bounds any payload of up to 9 bytes
/// @also C22
#[no_mangle]
pub fn c08_broken_error() {
    let (c, i, o) = client(logging());
    let mut jobs = [ask(0, &c)];
    let id = start(&mut jobs[0], &o);
    let d = sym::vec(sym::choose(10));
    let ok = d.len() >= 6 && {
        let n = u32::from_be_bytes([d[2], d[3], d[4], d[5]]) as usize;
        n <= d.len() - 6
    };
    i.d().push(&frame(7, ERROR, Some(id), None, "h", &d).encode());
    drive(&mut jobs);
    match &jobs[0].out {
        Some(Err(IPCError::ErrorEvent(e))) => {
            sym::check(ok && e.code == u16::from_be_bytes([d[0], d[1]]), "the error is the one the peer sent");
            sym::reach("error");
        }
        Some(Err(_)) => sym::reach("broken"),
        Some(Ok(_)) => sym::fail("an error reply is reported as an error"),
        None => sym::fail("a request that was answered completes"),
    }
    sym::check(world().log.is_empty(), "the reply goes to the request and nowhere else");
}
/// Only the peer a request was sent to can answer it.
/// @bounds a server with two connections, a handler that awaits a reply on each of them; an event that refers to one of the requests comes on one of the connections; then the real replies
#[no_mangle]
pub fn c08_connections() {
    let b = logging().on("ask", |ctx, _| {
        Box::pin(async move {
            let r = ctx.emit("sub", BytePayload::new(vec![1])).await_reply().with_timeout(Duration::from_secs(1000)).await?;
            let d = r.data_raw().to_vec();
            ctx.response(BytePayload::new(d))
        })
    });
    server(b);
    let p = [incoming(), incoming()];
    settle();
    let mut ids = [0; 2];
    for k in 0..2 {
        p[k].0.d().push(&frame(50 + k as u64, INITIATOR, None, None, "ask", &[]).encode());
        settle();
        let f = sent(&p[k].1);
        sym::check(f.len() == 1 && f[0].name == b"sub", "the handler's request is sent");
        ids[k] = f[0].id;
    }
    sym::check(ids[0] != ids[1], "requests have different ids");
    let (at, of) = (sym::choose(2), sym::choose(2));
    let foreign = frame(60, RESPONSE, Some(ids[of]), None, "h", &[sym::u8()]);
    p[at].0.d().push(&foreign.encode());
    settle();
    if at == of {
        let g = sent(&p[at].1);
        sym::check(g.len() == 1 && g[0].kind == END && g[0].re == Some(50 + at as u64) && g[0].data == foreign.data, "the reply completes the request");
        sym::check(world().log.is_empty(), "the reply goes to the request and nowhere else");
        sym::check(sent(&p[1 - at].1).is_empty(), "a reply reaches no other connection");
        sym::reach("own");
    } else {
        sym::check(world().log.len() == 1 && world().log[0].1 == foreign, "an event of another connection is processed like a regular event");
        sent(&p[at].1);
        sym::check(sent(&p[of].1).is_empty(), "an event of another connection is no reply");
        let real = frame(61, RESPONSE, Some(ids[of]), None, "h", &[sym::u8()]);
        p[of].0.d().push(&real.encode());
        settle();
        let g = sent(&p[of].1);
        sym::check(g.len() == 1 && g[0].kind == END && g[0].re == Some(50 + of as u64) && g[0].data == real.data, "the reply completes the request");
        sym::reach("foreign");
    }
}
/// Requests made in a handler are answered as well.
/// @bounds a handler that awaits a reply to its own event; the reply comes with a symbolic payload; another event is handled in between
/// @also C13
#[no_mangle]
pub fn c08_in_handler() {
    let b = logging().on("ask", |ctx, _| {
        Box::pin(async move {
            let r = ctx.emit("sub", BytePayload::new(vec![1])).await_reply().await?;
            let d = r.data_raw().to_vec();
            ctx.response(BytePayload::new(d))
        })
    });
    let (i, o, c) = endpoint(b);
    let id = 55;
    i.d().push(&frame(id, INITIATOR, None, None, "ask", &[]).encode());
    settle();
    let f = sent(&o);
    sym::check(f.len() == 1 && f[0].name == b"sub" && f[0].re == Some(id) && f[0].kind == RESPONSE, "the handler's request is sent as a response");
    if sym::flag() {
        i.d().push(&frame(56, INITIATOR, None, None, "h", &[9]).encode());
        settle();
        sym::check(sent(&o).len() == 1 && world().log.len() == 1, "other events are handled while a handler waits");
    }
    let d = sym::vec(2);
    let kind = [RESPONSE, END][sym::choose(2)];
    i.d().push(&frame(57, kind, Some(f[0].id), None, "r", &d).encode());
    settle();
    let g = sent(&o);
    sym::check(g.len() == 1 && g[0].kind == END && g[0].re == Some(id) && g[0].data == d, "the handler gets the reply and ends");
    sym::reach("compared");
    drop(c);
}

/// A thread sends a request while another receives the reply to it.
/// @bounds one request with await_reply or stream_replies on one thread, whose peer answers in the moment its last byte is written; another thread runs the receiving task; every interleaving with up to 2 interruptions, each before any atomic access
/// @deep up to 3 interruptions
/// @shards 4 8
/// @seconds 250 3000
/// @threads
/// @also C08
#[no_mangle]
pub fn c09_threads() {
    let (c, i, o) = client(logging());
    settle();
    o.d().answer = Some((i.clone(), |f| frame(7, END, Some(f.id), None, "h", &[5])));
    let stream = sym::flag();
    let mut job = Job::new(0, async move {
        let q = c.emit("q", BytePayload::new(vec![1]));
        if stream {
            let mut s = q.stream_replies().await?;
            let e = poll_fn(|cx| Pin::new(&mut s).poll_next(cx)).await;
            e.unwrap_or(Err(IPCError::InvalidState))
        } else {
            q.await_reply().await
        }
    });
    let requester = body(&mut job, |j| while j.step() {});
    sym::turns(sym::bound(2, 3), vec![requester, Box::new(worker)]);
    let mut jobs = [job];
    drive(&mut jobs);
    let f = sent(&o);
    sym::check(f.len() == 1, "the request is sent");
    judge(&jobs[0].out, &frame(7, END, Some(f[0].id), None, "h", &[5]));
    sym::check(world().log.is_empty(), "the reply goes to the request and nowhere else");
}
/// A thread gives up a request, or several send some, while another receives replies.
/// @bounds a request that is given up (dropped, or its timeout has elapsed) on one thread while another receives its reply; or two threads with a request each, one of them answered; then another event that refers to the request; every interleaving with up to 2 interruptions, each before any atomic access
/// @deep up to 3 interruptions
/// @shards 4 8
/// @seconds 250 3000
/// @threads
/// @also C09
#[no_mangle]
pub fn c08_threads() {
    let (c, i, o) = client(logging());
    settle();
    let mut jobs = [ask(0, &c), ask(1, &c)];
    let id = start(&mut jobs[0], &o);
    let f = frame(7, RESPONSE, Some(id), None, "h", &[5]);
    let g = frame(8, RESPONSE, Some(id), None, "h", &[6]);
    i.d().push(&f.encode());
    let how = sym::choose(3);
    if how == 1 {
        advance(Duration::from_secs(1000));
    }
    let [a, b] = &mut jobs;
    let other = match how {
        0 => body(a, |j| j.cancel()),
        1 => body(a, |j| while j.step() {}),
        _ => body(b, |j| while j.step() {}),
    };
    sym::turns(sym::bound(2, 3), vec![other, Box::new(worker)]);
    drive(&mut jobs);
    let log = |f: &Frame| world().log.iter().filter(|(_, x)| x == f).count();
    match &jobs[0].out {
        Some(Ok(e)) => {
            sym::check(how != 0 && spec::same(e, &f), "a request gets its own reply, unchanged");
            sym::check(log(&f) == 0, "a reply is delivered once");
            sym::reach("delivered");
        }
        Some(Err(IPCError::Timeout)) => {
            sym::check(how == 1, "a request times out when its timeout has elapsed");
            sym::check(log(&f) <= 1, "an event is handled once");
            sym::reach("timeout");
        }
        Some(Err(_)) => sym::fail("a request is answered or times out"),
        None => {
            sym::check(how == 0, "a request that was answered completes");
            sym::check(log(&f) <= 1, "an event is handled once");
            sym::reach("dropped");
        }
    }
    if how == 2 {
        sym::check(matches!(jobs[0].out, Some(Ok(_))) && !jobs[1].done(), "only the request that was answered completes");
        let k = sent(&o).iter().find(|x| x.kind == INITIATOR).map(|x| x.id);
        let h = frame(9, END, k, None, "h", &[7]);
        i.d().push(&h.encode());
        drive(&mut jobs[1..]);
        judge(&jobs[1].out, &h);
    }
    let before = log(&f);
    i.d().push(&g.encode());
    settle();
    sym::check(log(&g) == 1 && log(&f) == before, "an event nobody waits for is processed like a regular event");
}
/// The reply comes at any moment, in any order of the tasks.
/// @bounds one request with await_reply or stream_replies; transport takes 16 bytes or all at a time, pending before each, flush pending or not, reads cut likewise; the first 9 scheduling choices among requester, receiver and peer, who answers as soon as it has the whole frame; payload symbolic
/// @deep 14 scheduling choices
/// @shards 2 8
/// @also C08 C10
#[no_mangle]
pub fn c09_early() {
    let (c, i, o) = client(logging());
    o.d().wcut = [Cut::Whole, Cut::Slow(16), Cut::Any(2)][sym::choose(3)];
    o.d().flush_pending = sym::flag();
    i.d().rcut = [Cut::Whole, Cut::Slow(9)][sym::choose(2)];
    let d = sym::vec(2);
    let stream = sym::flag();
    let c2 = c.clone();
    let mut job = [Job::new(0, async move {
        let q = c2.emit("q", BytePayload::new(vec![1]));
        if stream {
            let mut s = q.stream_replies().await?;
            let e = poll_fn(|cx| Pin::new(&mut s).poll_next(cx)).await;
            e.unwrap_or(Err(IPCError::InvalidState))
        } else {
            q.await_reply().await
        }
    })];
    let mut answer: Option<Frame> = None;
    let mut peer = |i: &Pipe, o: &Pipe| {
        if answer.is_none() {
            if let spec::Parsed::Frame(f, _) = spec::parse(o.d().rest()) {
                let a = frame(7, [RESPONSE, END][sym::choose(2)], Some(f.id), None, "h", &d);
                i.d().push(&a.encode());
                answer = Some(a);
                return true;
            }
        }
        false
    };
    let mut answered = false;
    for _ in 0..sym::bound(9, 14) {
        let whole = matches!(spec::parse(o.d().rest()), spec::Parsed::Frame(..));
        match pick(&[job[0].ready(), ready(0), !answered && whole]) {
            Some(0) => {
                job[0].step();
            }
            Some(1) => {
                poll_task(0);
            }
            Some(_) => {
                answered = peer(&i, &o);
            }
            None => break,
        }
    }
    drive(&mut job);
    peer(&i, &o);
    drive(&mut job);
    match answer {
        Some(a) => judge(&job[0].out, &a),
        None => sym::fail("the request is sent"),
    }
    sym::check(world().log.is_empty(), "the reply goes to the request and nowhere else");
}

type Items = Vec<Option<IPCResult<Event>>>;
/// Polls a stream of replies whenever told to.
struct Reader {
    s: ResponseStream,
    items: Items,
}
impl Reader {
    fn poll(&mut self) -> bool {
        match poll_main(3, poll_fn(|cx| Pin::new(&mut self.s).poll_next(cx)).as_mut_pin()) {
            std::task::Poll::Ready(v) => {
                match self.items.last() {
                    // it stays ended
                    Some(None) if v.is_none() => {}
                    _ => self.items.push(v),
                }
                true
            }
            _ => false,
        }
    }
}
trait AsMutPin {
    fn as_mut_pin(&mut self) -> Pin<&mut Self>;
}
impl<F: Unpin> AsMutPin for F {
    fn as_mut_pin(&mut self) -> Pin<&mut Self> {
        Pin::new(self)
    }
}
fn open_stream(c: &Context, o: &Pipe, timeout: Option<Duration>) -> (Reader, u64) {
    let q = c.emit("q", BytePayload::new(vec![1])).stream_replies();
    let q = match timeout {
        Some(t) => q.with_timeout(t),
        None => q,
    };
    let s = match block_on(50, q) {
        Some(Ok(s)) => s,
        _ => sym::fail("a stream of replies is opened"),
    };
    let f = sent(o);
    sym::check(f.len() == 1 && f[0].name == b"q", "the request is sent");
    (Reader { s, items: Vec::new() }, f[0].id)
}

/// All replies in order, and then the end.
/// @bounds 0..3 or 11 replies and the End event (channel capacity 8), interleaved with events for others; the first 6 scheduling choices among consumer, receiver and peer; payload symbolic
/// @deep the first 10 scheduling choices
/// @shards 4 16
/// @also C09
#[no_mangle]
pub fn c10_stream() {
    let (c, i, o) = client(logging());
    let (mut r, id) = open_stream(&c, &o, None);
    let n = [0, 1, 2, 3, 11][sym::choose(5)];
    let mut replies: Vec<Frame> = (0..n).map(|k| frame(20 + k as u64, RESPONSE, Some(id), None, "h", &[k as u8, sym::u8()])).collect();
    replies.push(frame(19, END, Some(id), None, "end", &sym::bytes::<1>()));
    let other = frame(18, INITIATOR, None, None, "h", &[100]);
    let mut next = 0;
    for _ in 0..sym::bound(6, 10) {
        match pick(&[true, ready(0), next < replies.len()]) {
            Some(0) => {
                r.poll();
            }
            Some(1) => {
                poll_task(0);
            }
            _ => {
                i.d().push(&replies[next].encode());
                next += 1;
            }
        }
    }
    for f in &replies[next..] {
        i.d().push(&f.encode());
    }
    i.d().push(&other.encode());
    // whatever is left, read at the consumer's own pace
    for _ in 0..40 {
        run(200);
        if !r.poll() {
            break;
        }
        if r.items.last().unwrap().is_none() {
            break;
        }
    }
    sym::check(r.items.len() == replies.len() + 1, "all replies and the end of the stream are seen");
    for (k, f) in replies.iter().enumerate() {
        match &r.items[k] {
            Some(Ok(e)) => sym::check(spec::same(e, f), "the replies come in order and unchanged"),
            _ => sym::fail("no reply is lost"),
        }
    }
    sym::check(r.items[replies.len()].is_none(), "the stream ends after the end event");
    sym::check(r.poll() && r.items.last().unwrap().is_none(), "an ended stream stays ended");
    settle();
    sym::check(world().log.len() == 1 && world().log[0].1 == other, "events of others are handled, replies are not");
    // it claims no more events
    let late = frame(30, RESPONSE, Some(id), None, "h", &[7]);
    i.d().push(&late.encode());
    settle();
    sym::check(world().log.len() == 2 && world().log[1].1 == late, "an ended stream claims no more events");
    sym::reach(if n > 8 { "more than the channel holds" } else { "compared" });
}
/// One thread reads the stream while another receives.
/// @bounds two replies and the End event in the pipe, none or the first received before; one thread polls the stream 4 times, another runs the receiving task; then the stream is read to its end; every interleaving with up to 2 interruptions, each before any atomic access
/// @deep up to 3 interruptions
/// @shards 4 8
/// @seconds 250 3000
/// @threads
#[no_mangle]
pub fn c10_threads() {
    let (c, i, o) = client(logging());
    let (mut r, id) = open_stream(&c, &o, None);
    let l = [
        frame(20, RESPONSE, Some(id), None, "h", &[1]),
        frame(21, RESPONSE, Some(id), None, "h", &[2]),
        frame(22, END, Some(id), None, "end", &[3]),
        // after the end nobody waits for it
        frame(23, RESPONSE, Some(id), None, "h", &[4]),
    ];
    let before = sym::choose(2);
    for (k, f) in l[..3].iter().enumerate() {
        if k == before && k > 0 {
            settle();
        }
        i.d().push(&f.encode());
    }
    let reader = body(&mut r, |r| {
        for _ in 0..4 {
            r.poll();
        }
    });
    sym::turns(sym::bound(2, 3), vec![reader, Box::new(worker)]);
    for _ in 0..20 {
        settle();
        if !r.poll() || r.items.last().unwrap().is_none() {
            break;
        }
    }
    sym::check(r.items.len() == 4 && r.items[3].is_none(), "all replies and the end of the stream are seen");
    for k in 0..3 {
        match &r.items[k] {
            Some(Ok(e)) => sym::check(spec::same(e, &l[k]), "the replies come in order and unchanged"),
            _ => sym::fail("no reply is lost"),
        }
    }
    i.d().push(&l[3].encode());
    settle();
    sym::check(world().log.len() == 1 && world().log[0].1 == l[3], "an ended stream claims no more events");
    sym::reach("compared");
}
/// Whatever refers to the request is a reply, of any kind.
/// @bounds three replies of type Initiator, Response or Error, with any id, with or without a namespace, named like a handler, `end`, `error` or nothing, payload of 0 to 2 bytes; then the End event with the same freedom; read one by one or at the end
/// @also C08
/// @shards 4 8
#[no_mangle]
pub fn c10_kinds() {
    let (c, i, o) = client(logging());
    let (mut r, id) = open_stream(&c, &o, None);
    let mut replies = Vec::new();
    let each = sym::flag();
    for k in 0..4 {
        let kind = if k == 3 { END } else { [INITIATOR, RESPONSE, ERROR][sym::choose(3)] };
        let odd = sym::choose(3) == k % 3;
        let (ns, name) = match (odd, k) {
            (false, _) => (None, "h"),
            (true, 0) => (Some("n"), "h"),
            (true, 1) => (None, "end"),
            (true, 2) => (None, "error"),
            _ => (Some("zz"), ""),
        };
        let f = frame(sym::u64(), kind, Some(id), ns, name, &sym::vec(k % 3));
        i.d().push(&f.encode());
        replies.push(f);
        if each {
            settle();
            sym::check(r.poll(), "a stream with replies left does not wait");
        }
    }
    for _ in 0..10 {
        settle();
        if !r.poll() || r.items.last().unwrap().is_none() {
            break;
        }
    }
    sym::check(r.items.len() == 5 && r.items[4].is_none(), "all replies and the end of the stream are seen");
    for (k, f) in replies.iter().enumerate() {
        match &r.items[k] {
            Some(Ok(e)) => sym::check(spec::same(e, f), "the replies come in order and unchanged"),
            _ => sym::fail("no reply is lost"),
        }
    }
    sym::check(world().log.is_empty(), "replies go to the stream and nowhere else");
    sym::check(sent(&o).is_empty(), "replies are not answered");
    sym::reach("compared");
}
/// A peer far ahead of the consumer loses nothing.
/// @bounds 20, 70 or 300 replies and the End event arrived before anything is read
/// @deep also 1100
/// @also C08 C09
#[no_mangle]
pub fn c10_slow() {
    let (c, i, o) = client(logging());
    let (mut r, id) = open_stream(&c, &o, None);
    let n: u16 = [20, 70, 300, 1100][sym::choose(sym::bound(3, 4))];
    for k in 0..n {
        i.d().push(&frame(20 + k as u64, RESPONSE, Some(id), None, "h", &k.to_be_bytes()).encode());
    }
    i.d().push(&frame(19, END, Some(id), None, "end", &n.to_be_bytes()).encode());
    if sym::flag() {
        settle();
    }
    while r.items.len() <= n as usize + 1 {
        settle();
        sym::check(r.poll(), "a stream with replies left does not wait");
    }
    for k in 0..n + 1 {
        match &r.items[k as usize] {
            Some(Ok(e)) => sym::check(e.data_raw() == &k.to_be_bytes()[..] && e.reference_id() == Some(id), "the replies come in order and unchanged"),
            _ => sym::fail("no reply is lost"),
        }
    }
    sym::check(r.items[n as usize + 1].is_none(), "the stream ends after the end event");
    settle();
    sym::check(world().log.is_empty(), "replies go to the stream and nowhere else");
    sym::reach("compared");
}
/// A stream that is dropped claims no more events and blocks nothing.
/// @bounds 0..2, 9, 12 or 20 replies arrived, 0..2 read before it is dropped
/// @also C08
#[no_mangle]
pub fn c10_dropped() {
    let (c, i, o) = client(logging());
    let (mut r, id) = open_stream(&c, &o, None);
    let n = [0, 1, 2, 9, 12, 20][sym::choose(6)];
    for k in 0..n {
        i.d().push(&frame(20, RESPONSE, Some(id), None, "h", &[k]).encode());
    }
    run(200);
    let m = sym::choose(3);
    for _ in 0..m {
        r.poll();
    }
    let rest = m == 0 || sym::flag();
    if rest {
        run(200);
    }
    // the replies that were received before, of which the receiving task may hold the last one
    let size = frame(20, RESPONSE, Some(id), None, "h", &[0]).encode().len();
    let got = (i.d().pos / size) as u8;
    drop(r);
    settle();
    let before = world().log.len();
    if rest {
        // what had not reached the stream yet is nobody's reply any more
        let left: Vec<u8> = (n - (before as u8).min(n)..n).collect();
        sym::check(before <= n as usize - m.min(n as usize), "what the stream had yielded is not processed again");
        if got < n {
            sym::check(before == (n + 1 - got) as usize, "what a dropped stream had not received is processed like regular events");
        }
        for k in &left {
            sym::check(world().log.iter().filter(|(t, f)| *t == 1 && f.data == [*k]).count() == 1, "what a dropped stream had not received is processed like regular events");
        }
        if left.len() > 0 {
            sym::reach("events left");
        }
    }
    let late = frame(30, RESPONSE, Some(id), None, "h", &[77, sym::u8()]);
    let next = frame(31, INITIATOR, None, None, "h", &[78]);
    i.d().push(&late.encode());
    i.d().push(&next.encode());
    settle();
    let l = &world().log;
    sym::check(l.len() == before + 2, "the connection goes on after a stream is dropped");
    sym::check(l[before].1 == late, "a dropped stream claims no more events");
    sym::reach("compared");
}
/// Two streams and a request at the same time.
/// @bounds two streams and one request; 5 events, each for any of them; polled at the end
/// @also C08
#[no_mangle]
pub fn c10_two() {
    let (c, i, o) = client(logging());
    let (mut r0, id0) = open_stream(&c, &o, None);
    let (mut r1, id1) = open_stream(&c, &o, None);
    let mut job = [ask(0, &c)];
    let id2 = start(&mut job[0], &o);
    let mut want: [Vec<Frame>; 3] = [Vec::new(), Vec::new(), Vec::new()];
    for k in 0..sym::bound(4, 5) {
        let t = sym::choose(3);
        let f = frame(40 + k as u64, RESPONSE, Some([id0, id1, id2][t]), None, "h", &[k as u8, sym::u8()]);
        i.d().push(&f.encode());
        want[t].push(f);
    }
    drive(&mut job);
    for (r, w) in [(&mut r0, &want[0]), (&mut r1, &want[1])] {
        while r.poll() {}
        sym::check(r.items.len() == w.len(), "each stream gets its own replies");
        for (e, f) in r.items.iter().zip(w) {
            match e {
                Some(Ok(e)) => sym::check(spec::same(e, f), "each stream gets its own replies in order"),
                _ => sym::fail("a stream goes on until its end event"),
            }
        }
    }
    match want[2].first() {
        Some(f) => judge(&job[0].out, f),
        None => sym::check(!job[0].done(), "a request without a reply keeps waiting"),
    }
}

/// Any time up to 2^32 seconds, to the nanosecond.
fn any_time() -> Duration {
    let n = sym::u32();
    sym::assume(n < 1_000_000_000);
    Duration::new(sym::u32() as u64, n)
}
fn waiter(c: &Context, own: Option<Duration>) -> Job<IPCResult<Event>> {
    let q = c.emit("q", BytePayload::new(vec![1])).await_reply();
    Job::new(0, match own {
        Some(t) => q.with_timeout(t),
        None => q,
    })
}
/// A request without a reply times out when its timeout has elapsed and not before.
/// @bounds any timeout (own or configured default) and any two points in time (32 bits of seconds, nanoseconds)
/// @shards 8 8
/// @seconds 300 3000
#[no_mangle]
pub fn c11_timeout() {
    let configured = any_time();
    let custom = sym::choose(3);
    let b = if custom == 2 { logging() } else { logging().timeout(configured) };
    let (c, i, o) = client(b);
    let own = if custom == 1 { Some(any_time()) } else { None };
    let t = match custom {
        0 => configured,
        1 => own.unwrap(),
        _ => Duration::from_secs(60),
    };
    sym::assume(t > Duration::ZERO);
    advance(Duration::new(5, 999_999_990));
    let mut job = [waiter(&c, own)];
    let id = start(&mut job[0], &o);
    let (x, y) = (any_time(), any_time());
    advance(x);
    drive(&mut job);
    sym::check(job[0].done() == (x >= t), "a request times out exactly when its timeout has elapsed");
    let mut e = x;
    if !job[0].done() && (custom == 0 || sym::bound(0, 1) == 1) {
        advance(y);
        e = x + y;
        drive(&mut job);
        sym::check(job[0].done() == (e >= t), "a request that waits on times out exactly when its timeout has elapsed");
    }
    let f = frame(9, RESPONSE, Some(id), None, "h", &sym::bytes::<2>());
    match &job[0].out {
        Some(Err(IPCError::Timeout)) => {
            // the late reply is a regular event
            i.d().push(&f.encode());
            drive(&mut job);
            sym::check(world().log.len() == 1 && world().log[0].1 == f, "a late reply is processed like a regular event");
            sym::reach("timed out");
        }
        Some(_) => sym::fail("a request without a reply reports a timeout"),
        None => {
            i.d().push(&f.encode());
            drive(&mut job);
            judge(&job[0].out, &f);
            sym::check(world().log.is_empty(), "a reply in time goes to the request");
            sym::reach("in time");
        }
    }
}
/// A timeout of zero is a timeout.
/// @bounds a request and a stream, with a timeout of 0 of its own (any configured one) or configured
#[no_mangle]
pub fn c11_zero() {
    let own = sym::flag();
    let b = logging().timeout(if own { any_time() } else { Duration::ZERO });
    let (c, i, o) = client(b);
    let id;
    if sym::flag() {
        let j = c.emit("q", BytePayload::new(vec![1])).await_reply();
        let j = if own { j.with_timeout(Duration::ZERO) } else { j };
        match block_on(40, j) {
            Some(Err(IPCError::Timeout)) => {}
            _ => sym::fail("a request whose timeout has elapsed reports a timeout"),
        }
        id = sent(&o)[0].id;
    } else {
        let (mut r, n) = open_stream(&c, &o, if own { Some(Duration::ZERO) } else { None });
        id = n;
        sym::check(r.poll() && matches!(r.items[0], Some(Err(IPCError::Timeout))), "a stream whose timeout has elapsed reports a timeout");
    }
    let late = frame(10, RESPONSE, Some(id), None, "h", &[1]);
    i.d().push(&late.encode());
    settle();
    sym::check(world().log.len() == 1 && world().log[0].1 == late, "a late reply is processed like a regular event");
    sym::reach("timed out");
}
/// A reply that is there before the deadline is never reported as a timeout, in any order of the branches.
/// @bounds any timeout, the reply arrives at any time before it; select branches tried in either order
/// @also C09 C08
#[no_mangle]
pub fn c11_in_time() {
    set_select_symbolic(true);
    let t = any_time();
    let (c, i, o) = client(logging().timeout(t));
    sym::assume(t > Duration::ZERO);
    let mut job = [waiter(&c, None)];
    let id = start(&mut job[0], &o);
    let x = any_time();
    sym::assume(x < t);
    advance(x);
    if sym::flag() {
        drive(&mut job);
    }
    let f = frame(9, END, Some(id), None, "h", &sym::bytes::<2>());
    i.d().push(&f.encode());
    drive(&mut job);
    judge(&job[0].out, &f);
}
/// A reply that arrived in time is given out even if whoever waits is polled again only after the timeout.
/// @bounds a request or a stream, any timeout (own or default); 1 reply, or up to 2 and an End, arrive at any time before it; polled again at any time; select branches tried in either order
/// @also C09 C10 C08 C32
#[no_mangle]
pub fn c11_late_poll() {
    set_select_symbolic(true);
    let t = any_time();
    sym::assume(t > Duration::ZERO);
    let own = sym::flag();
    let (c, i, o) = client(if own { logging() } else { logging().timeout(t) });
    let own = if own { Some(t) } else { None };
    let (x, y) = (any_time(), any_time());
    sym::assume(x < t);
    if sym::flag() {
        let mut job = [waiter(&c, own)];
        let id = start(&mut job[0], &o);
        advance(x);
        let f = frame(9, [RESPONSE, END][sym::choose(2)], Some(id), None, "h", &sym::bytes::<2>());
        i.d().push(&f.encode());
        settle();
        sym::check(job[0].out.is_none(), "nobody polled the request");
        advance(y);
        drive(&mut job);
        judge(&job[0].out, &f);
        sym::reach("request");
    } else {
        let (mut r, id) = open_stream(&c, &o, own);
        sym::check(!r.poll(), "a stream waits for replies");
        advance(x);
        let n = sym::choose(3);
        let f: Vec<Frame> = (0..=n).map(|k| frame(9 + k as u64, if k == n { END } else { RESPONSE }, Some(id), None, "h", &[k as u8, sym::u8()])).collect();
        for f in &f {
            i.d().push(&f.encode());
        }
        settle();
        advance(y);
        for f in &f {
            sym::check(r.poll(), "a reply that arrived is an item");
            match r.items.last() {
                Some(Some(Ok(e))) => sym::check(spec::same(e, f), "the item is the reply"),
                _ => sym::fail("a reply that arrived in time is no timeout"),
            }
            settle();
        }
        sym::check(r.poll() && matches!(r.items.last(), Some(None)), "a stream ends after its End event");
        sym::reach("stream");
    }
    sym::check(world().log.is_empty(), "a reply in time goes to whoever waits");
}
/// Each item of a stream has the timeout for itself; after one the stream is over.
/// @bounds any timeout (own or default); one reply, then any time; polled again twice
/// @shards 4 8
/// @seconds 300 3000
/// @also C10
#[no_mangle]
pub fn c11_stream() {
    let t = any_time();
    sym::assume(t > Duration::ZERO);
    let own = sym::flag();
    let (c, i, o) = client(if own { logging().timeout(any_time()) } else { logging().timeout(t) });
    let (mut r, id) = open_stream(&c, &o, if own { Some(t) } else { None });
    sym::check(!r.poll(), "a stream waits for replies");
    let x = any_time();
    sym::assume(x < t);
    advance(x);
    let f = frame(9, RESPONSE, Some(id), None, "h", &sym::bytes::<2>());
    i.d().push(&f.encode());
    settle();
    sym::check(r.poll(), "a reply in time is an item");
    match &r.items[0] {
        Some(Ok(e)) => sym::check(spec::same(e, &f), "the item is the reply"),
        _ => sym::fail("a reply in time is no timeout"),
    }
    // the next one starts anew
    sym::check(!r.poll(), "a stream waits for the next reply");
    let y = any_time();
    advance(y);
    let over = r.poll();
    sym::check(over == (y >= t), "an item times out exactly when its timeout has elapsed");
    if over {
        match &r.items[1] {
            Some(Err(IPCError::Timeout)) => {}
            _ => sym::fail("a stream without a reply reports a timeout"),
        }
        for _ in 0..2 {
            sym::check(r.poll(), "a stream that timed out does not hang");
            if let Some(Some(Ok(_))) = r.items.last() {
                sym::fail("a stream that timed out makes up no replies");
            }
        }
        let late = frame(10, RESPONSE, Some(id), None, "h", &[1]);
        i.d().push(&late.encode());
        settle();
        sym::check(world().log.len() == 1 && world().log[0].1 == late, "a late reply is processed like a regular event");
        sym::reach("timed out");
    } else {
        sym::reach("in time");
    }
}
/// A request that is dropped, or fails to be sent, claims no replies.
/// @bounds dropped before or after the event is sent, or the transport fails at one of its first bytes
/// @also C08
#[no_mangle]
pub fn c11_given_up() {
    let (c, i, o) = client(logging());
    let w = sym::choose(3);
    let id;
    match w {
        0 => {
            let mut j = waiter(&c, None);
            id = start(&mut j, &o);
            j.cancel();
        }
        1 => {
            // blocked while sending
            o.d().window = sym::choose(9);
            let mut j = waiter(&c, None);
            j.step();
            sym::check(!j.done(), "a blocked transport blocks the request");
            j.cancel();
            o.d().open_window(usize::MAX);
            // the next event carries a later id; the one given up is not known outside
            id = match block_on(50, c.emit("x", BytePayload::new(vec![]))) {
                Some(Ok(i)) => i - 1,
                _ => sym::fail("a later event is sent"),
            };
            sent(&o);
        }
        _ => {
            let at = sym::choose(9);
            o.d().fail_at = Some(at);
            let mut j = [waiter(&c, None)];
            drive(&mut j);
            match &j[0].out {
                Some(Err(IPCError::IoError(_))) => {}
                _ => sym::fail("a request that cannot be sent fails"),
            }
            o.d().fail_at = None;
            o.d().drain();
            return sym::reach("failed to send");
        }
    }
    let f = frame(9, RESPONSE, Some(id), None, "h", &sym::bytes::<2>());
    i.d().push(&f.encode());
    settle();
    sym::check(world().log.len() == 1 && world().log[0].1 == f, "a reply to a request that was given up is processed like a regular event");
    sym::reach("given up");
}
