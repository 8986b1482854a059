//! Histories that are longer, wider and larger than what the other harnesses go through.
use crate::kit::*;
use crate::net::*;
use crate::spec::{self, frame, END, ERROR, INITIATOR, RESPONSE};
use bromine::error_event::ErrorEventData;
use bromine::event::Event;
use bromine::payload::FromPayload;
use bromine::prelude::*;
use std::cell::UnsafeCell;
use std::sync::Arc;
use tokio::model::*;

struct Shelf<T>(UnsafeCell<Vec<Option<T>>>);
unsafe impl<T> Sync for Shelf<T> {}
unsafe impl<T> Send for Shelf<T> {}
impl<T> Shelf<T> {
    fn new(n: usize) -> Arc<Shelf<T>> {
        Arc::new(Shelf(UnsafeCell::new((0..n).map(|_| None).collect())))
    }
    #[allow(clippy::mut_from_ref)]
    fn v(&self) -> &mut Vec<Option<T>> {
        unsafe { &mut *self.0.get() }
    }
}
fn rest() {
    sym::check(run(3000), "everything comes to rest");
}
fn plain() -> Builder {
    builder().on("h", handler(1)).namespace("n").on("h", handler(2)).build()
}
/// The numbers below `n` in one of several orders.
fn order(n: usize) -> Vec<usize> {
    match sym::choose(4) {
        0 => (0..n).collect(),
        1 => (0..n).rev().collect(),
        2 => (0..n).map(|k| (k * 7 + 3) % n).collect(),
        _ => (0..n).step_by(2).chain((1..n).step_by(2)).collect(),
    }
}
/// Many requests wait at once; their replies come in another order.
/// @bounds 11, 41 and 300 requests in flight on one connection; replies in 4 orders, to one of which (any of 4) an event with an unknown reference comes first; payloads symbolic for one
/// @shards 4 4
/// @also C09
#[no_mangle]
pub fn c08_many() {
    let (c, i, o) = client(plain());
    let n = [11, 41, 300][sym::choose(3)];
    let got: Arc<Shelf<IPCResult<Event>>> = Shelf::new(n);
    for k in 0..n {
        let (c, g) = (c.clone(), got.clone());
        tokio::spawn(async move {
            let r = c.emit("q", BytePayload::new((k as u16).to_be_bytes().to_vec())).await_reply().await;
            g.v()[k] = Some(r);
        });
    }
    rest();
    let f = sent(&o);
    sym::check(f.len() == n, "every request is sent once");
    let mut id = vec![0; n];
    for x in &f {
        id[x.data[0] as usize * 256 + x.data[1] as usize] = x.id;
    }
    let special = [0, 1, n / 2, n - 1][sym::choose(4)];
    let d = sym::u8();
    let want = |k: usize| vec![k as u8, (k >> 8) as u8, if k == special { d } else { 9 }];
    for k in order(n) {
        if k == special {
            i.d().push(&frame(900, RESPONSE, Some(id[k] ^ (1 << 40)), None, "h", &[1]).encode());
        }
        i.d().push(&frame(1000 + k as u64, RESPONSE, Some(id[k]), None, "h", &want(k)).encode());
    }
    rest();
    for k in 0..n {
        match &got.v()[k] {
            Some(Ok(e)) => sym::check(e.data_raw() == &want(k)[..], "a request gets its own reply, unchanged"),
            Some(Err(_)) => sym::fail("a reply in time completes the request"),
            None => sym::fail("a request that was answered completes"),
        }
    }
    sym::check(world().log.len() == 1, "an event with a reference nobody waits for is processed like a regular event");
    sym::reach("compared");
}
/// A long history of requests, one after the other.
/// @bounds 150 requests; each ended by its reply, or every third one by its timeout, or every second one given up, or one by a stream of replies
/// @shards 4 4
/// @also C09 C10 C11
#[no_mangle]
pub fn c08_sequence() {
    let (c, i, o) = client(plain());
    let kind = sym::choose(4);
    let x = sym::u8();
    let mut handled = 0;
    for k in 0..150usize {
        let got: Arc<Shelf<IPCResult<Event>>> = Shelf::new(1);
        if kind == 3 && k % 3 == 0 {
            let c = c.clone();
            let g: Arc<Shelf<ResponseStream>> = Shelf::new(1);
            let h = g.clone();
            tokio::spawn(async move {
                h.v()[0] = c.emit("q", BytePayload::new(vec![k as u8])).stream_replies().await.ok();
            });
            rest();
            let f = sent(&o);
            sym::check(f.len() == 1 && g.v()[0].is_some(), "every request is sent once");
            i.d().push(&frame(5, RESPONSE, Some(f[0].id), None, "h", &[x]).encode());
            i.d().push(&frame(6, END, Some(f[0].id), None, "h", &[k as u8]).encode());
            rest();
            let mut s = g.v()[0].take().unwrap();
            for j in 0..3 {
                use futures_core::Stream;
                let r = block_on(9, std::future::poll_fn(|cx| std::pin::Pin::new(&mut s).poll_next(cx)));
                match (j, r) {
                    (0, Some(Some(Ok(e)))) => sym::check(e.data_raw() == &[x][..], "the replies come in order and unchanged"),
                    (1, Some(Some(Ok(e)))) => sym::check(e.data_raw() == &[k as u8][..], "the replies come in order and unchanged"),
                    (2, Some(None)) => {}
                    _ => sym::fail("no reply is lost and the stream ends after the end event"),
                }
            }
            continue;
        }
        let (c2, g) = (c.clone(), got.clone());
        let t = tokio::spawn(async move {
            g.v()[0] = Some(c2.emit("q", BytePayload::new(vec![k as u8])).await_reply().with_timeout(std::time::Duration::from_secs(5)).await);
        });
        rest();
        let f = sent(&o);
        sym::check(f.len() == 1 && f[0].data == [k as u8], "every request is sent once");
        let reply = frame(5, RESPONSE, Some(f[0].id), None, "h", &[k as u8, x]);
        if kind == 1 && k % 3 == 0 {
            advance(std::time::Duration::from_secs(5));
            rest();
            sym::check(matches!(got.v()[0], Some(Err(IPCError::Timeout))), "a request without a reply times out");
            handled += 1;
        } else if kind == 2 && k % 2 == 0 {
            t.abort();
            rest();
            handled += 1;
        }
        i.d().push(&reply.encode());
        rest();
        match &got.v()[0] {
            Some(Ok(e)) => sym::check(e.data_raw() == &[k as u8, x][..], "a request gets its own reply, unchanged"),
            Some(Err(_)) => sym::check(kind == 1 && k % 3 == 0, "a reply in time completes the request"),
            None => sym::check(kind == 2 && k % 2 == 0, "a request that was answered completes"),
        }
        sym::check(world().log.len() == handled, "a reply that nobody waits for is processed like a regular event, and no other");
        o.d().drain();
    }
    sym::reach("compared");
}
/// Replies as large as payloads get.
/// @bounds replies of 60000, 65535, 65536 and 140000 bytes (one of them symbolic) to a request, to a stream of replies, or handled as an event; arriving at once, or in pieces
/// @also C09 C10 C12 C13
/// @shards 2 2
#[no_mangle]
pub fn c08_large() {
    let (c, i, o) = client(plain());
    let n = [60000, 65535, 65536, 140000][sym::choose(4)];
    let mut d = big(n, 3);
    d[n - 2] = sym::u8();
    if sym::flag() {
        i.d().rcut = Cut::Slow(4096);
    }
    match sym::choose(3) {
        0 => {
            let got: Arc<Shelf<IPCResult<Event>>> = Shelf::new(1);
            let g = got.clone();
            tokio::spawn(async move {
                g.v()[0] = Some(c.emit("q", BytePayload::new(vec![1])).await_reply().await);
            });
            rest();
            let f = sent(&o);
            i.d().push(&frame(5, RESPONSE, Some(f[0].id), None, "h", &d).encode());
            rest();
            match &got.v()[0] {
                Some(Ok(e)) => sym::check(e.data_raw() == &d[..], "a request gets its own reply, unchanged"),
                _ => sym::fail("a reply in time completes the request"),
            }
        }
        1 => {
            let g: Arc<Shelf<ResponseStream>> = Shelf::new(1);
            let h = g.clone();
            tokio::spawn(async move {
                h.v()[0] = c.emit("q", BytePayload::new(vec![1])).stream_replies().await.ok();
            });
            rest();
            let f = sent(&o);
            let mut s = g.v()[0].take().unwrap();
            for k in [RESPONSE, RESPONSE, END] {
                i.d().push(&frame(5, k, Some(f[0].id), None, "h", &d).encode());
            }
            rest();
            for _ in 0..3 {
                use futures_core::Stream;
                match block_on(300, std::future::poll_fn(|cx| std::pin::Pin::new(&mut s).poll_next(cx))) {
                    Some(Some(Ok(e))) => sym::check(e.data_raw() == &d[..], "the replies come in order and unchanged"),
                    _ => sym::fail("no reply is lost"),
                }
            }
        }
        _ => {
            // handled, and answered with as much
            let ns = if sym::flag() { Some("n") } else { None };
            let tag = 1 + ns.is_some() as usize;
            let mut e = big(n, 5);
            e[n - 1] = sym::u8();
            world().acts[tag].data = Some(e.clone());
            world().acts[tag].emits = vec![(true, d.clone())];
            i.d().push(&frame(5, INITIATOR, None, ns, "h", &d).encode());
            rest();
            sym::check(world().log.len() == 1 && world().log[0].0 == tag && world().log[0].1.data == d, "the handler gets the event unchanged");
            let f = sent(&o);
            sym::check(f.len() == 2, "the emitted events and one final event are sent");
            sym::check(f[0].kind == RESPONSE && f[0].re == Some(5) && f[0].data == d, "what a handler emits is sent as it is");
            sym::check(f[1].kind == END && f[1].re == Some(5) && f[1].data == e, "the end event carries the handler's response");
        }
    }
    sym::reach("compared");
}
/// Many handlers and many namespaces.
/// @bounds 100 names and 40 namespaces of 3 names each, registered once or again; names of 1 to 70 characters; any of the names (of 6 positions) or a longer or shorter one
/// @shards 4 4
#[no_mangle]
pub fn c12_many() {
    // names of which some are prefixes of others
    let name = |k: usize| "x".repeat(k % 70) + &k.to_string();
    let mut b = builder();
    for k in 0..100 {
        b = b.on(&name(k), handler(if k == 99 { 3 } else { 1 + k % 2 }));
    }
    let again = sym::flag();
    if again {
        b = b.on(&name(50), handler(4));
    }
    for k in 0..40 {
        let mut n = b.namespace(name(k));
        for j in 0..3 {
            n = n.on(&name(j + 60), handler(5 + (k + j) % 5));
        }
        b = n.build();
    }
    let (i, o, c) = endpoint(b);
    let (want, ns, nm) = if sym::flag() {
        let k = [0, 1, 49, 50, 98, 99][sym::choose(6)];
        let w = if k == 99 { 3 } else { 1 + k % 2 };
        match sym::choose(3) {
            0 => (Some(if k == 50 && again { 4 } else { w }), None, name(k)),
            1 => (None, None, name(k) + "y"),
            _ => (None, Some(name(41 + k)), name(k)),
        }
    } else {
        let (k, j) = ([0, 1, 20, 38, 39][sym::choose(5)], sym::choose(3));
        match sym::choose(3) {
            0 => (Some(5 + (k + j) % 5), Some(name(k)), name(j + 60)),
            1 => (None, Some(name(k)), name(j + 63)),
            _ => (None, Some(name(k) + "1"), name(j + 60)),
        }
    };
    let f = frame(sym::u64(), INITIATOR, None, ns.as_deref(), &nm, &[sym::u8()]);
    i.d().push(&f.encode());
    settle();
    match want {
        Some(t) => sym::check(world().log == [(t, f)], "the handler of the event's name and namespace runs, and no other"),
        None => sym::check(world().log.is_empty(), "nothing runs for an unknown name"),
    }
    sym::check(sent(&o).len() == 1, "the event is answered once");
    sym::reach("compared");
    drop(c);
}
/// Many events on one connection, at once and one after the other.
/// @bounds 270 events; their handlers return at once, or wait and go on one by one; client or server; payload of one symbolic
/// @also C12
/// @shards 4 4
#[no_mangle]
pub fn c13_many() {
    let (i, o, c) = endpoint(plain());
    let n = 270usize;
    let x = sym::u8();
    world().acts[1].gated = sym::flag();
    world().acts[2].gated = world().acts[1].gated;
    let gated = world().acts[1].gated;
    let mut data: Vec<Vec<u8>> = Vec::new();
    for k in 0..n {
        let d = vec![k as u8, (k >> 8) as u8, if k == 77 { x } else { 0 }];
        i.d().push(&frame(k as u64 + 7, INITIATOR, None, if k % 5 == 0 { Some("n") } else { None }, "h", &d).encode());
        data.push(d);
    }
    rest();
    let l = &world().log;
    sym::check(l.len() == n, "every event is handled, also while the handlers of others wait");
    let mut seen = vec![false; n];
    for (t, f) in l {
        let k = f.data[0] as usize + f.data[1] as usize * 256;
        sym::check(!seen[k] && f.data == data[k] && *t == 1 + (k % 5 == 0) as usize, "every event is handled once, by its handler");
        seen[k] = true;
    }
    if gated {
        for _ in 0..n {
            open_gate(1);
            rest();
            open_gate(2);
            rest();
        }
    }
    let out = sent(&o);
    sym::check(out.len() == n, "every event is answered once");
    let mut seen = vec![false; n];
    for f in &out {
        let k = f.re.unwrap_or(0).wrapping_sub(7) as usize;
        sym::check(k < n && !seen[k] && f.kind == END, "every event is answered once");
        seen[k] = true;
    }
    sym::reach("compared");
    drop(c);
}
/// Long texts in errors of handlers.
/// @bounds texts of 0, 1, 64, 255, 256, 1000 and 70000 characters; as the error itself or in an error of its own kind
/// @also C08
/// @shards 2 2
#[no_mangle]
pub fn c13_texts() {
    let n = [0, 1, 64, 255, 256, 1000, 70000][sym::choose(7)];
    let mut t: Vec<u8> = big(n, 1).iter().map(|b| b'a' + b % 26).collect();
    if n > 0 {
        t[n - 1] = [b'Q', b' '][sym::choose(2)];
    }
    let t = String::from_utf8(t).unwrap();
    let own = sym::flag();
    let text = t.clone();
    let b = builder().on("h", move |_: &Context, _: Event| {
        let t = text.clone();
        Box::pin(async move {
            if own {
                Err(ErrorEventData { code: 7, message: t }.into())
            } else {
                Err(IPCError::from(t))
            }
        }) as Fut
    });
    let (i, o, c) = endpoint(b);
    i.d().push(&frame(5, INITIATOR, None, None, "h", &[1]).encode());
    settle();
    let f = sent(&o);
    sym::check(f.len() == 1 && f[0].kind == ERROR && f[0].re == Some(5), "a failed handler is answered by an error event");
    match ErrorEventData::from_payload(&f[0].data[..]) {
        Ok(d) => sym::check(d.code == 500 && d.message.contains(&t[..]), "the error tells what failed"),
        Err(_) => sym::fail("the error event carries error data"),
    }
    sym::reach("compared");
    drop(c);
}
/// Many connections of one server.
/// @bounds 5, 33 and 270 connections; all stay, or every third one closes or fails (in 4 ways) or sends what is no frame; then an event on each of them that is left, in 4 orders
/// @also C25
/// @shards 4 4
#[no_mangle]
pub fn c15_many() {
    server(plain());
    let n = [5, 33, 270][sym::choose(3)];
    let kind = sym::choose(3);
    let gone = incoming();
    if kind == 1 {
        gone.0.d().end();
    }
    let how = gone.0.d().read_fail;
    let mut conns = Vec::new();
    for k in 0..n {
        let c = incoming();
        if k % 2 == 0 {
            settle();
        }
        if k % 3 == 0 {
            match kind {
                1 => {
                    c.0.d().read_fail = how;
                    c.0.d().close();
                }
                2 => c.0.d().push(&[0; 32]),
                _ => {}
            }
        }
        conns.push(c);
    }
    rest();
    let x = sym::u8();
    for k in order(n) {
        if kind > 0 && k % 3 == 0 {
            sym::check(conns[k].0.d().reader_gone, "the bad connection is closed");
            continue;
        }
        let before = world().log.len();
        let f = frame(3, INITIATOR, None, None, "h", &[k as u8, x]);
        conns[k].0.d().push(&f.encode());
        rest();
        sym::check(world().log.len() == before + 1 && world().log[before].1 == f, "every other connection is served");
        let out = sent(&conns[k].1);
        sym::check(out.len() == 1 && out[0].re == Some(3), "every other connection is answered");
    }
    sym::reach("compared");
}
/// Many events sent on one connection.
/// @bounds 300 emits of 0 to 40 bytes, one after the other or all waiting at once while the transport takes nothing; then it takes everything, or 16 or 1000 bytes at a time
/// @also C14 C07
/// @shards 4 4
#[no_mangle]
pub fn c16_many() {
    let (c, _i, o) = client(plain());
    let n = 300usize;
    o.d().wcut = [Cut::Whole, Cut::Max(16), Cut::Slow(1000)][sym::choose(3)];
    let once = sym::flag();
    if once {
        o.d().window = 0;
    }
    let ids: Arc<Shelf<IPCResult<u64>>> = Shelf::new(n);
    let x = sym::u8();
    let data = move |k: usize| {
        let mut d = big(k % 41, k as u8);
        d.insert(0, if k == 200 { x } else { 1 });
        d
    };
    for k in 0..n {
        let (c, g) = (c.clone(), ids.clone());
        tokio::spawn(async move {
            let r = c.emit("e", BytePayload::new(data(k))).await;
            g.v()[k] = Some(r);
        });
        if !once {
            rest();
        }
    }
    rest();
    if once {
        sym::check(ids.v().iter().all(|x| x.is_none()), "an emit that is not written does not succeed");
        o.d().window = usize::MAX;
        o.d().wake_writer();
        rest();
    }
    let f = spec::frames(&o.d().data);
    sym::check(f.len() == n && o.d().flushed == o.d().data.len(), "every emit is sent once");
    let mut seen = vec![false; n];
    for k in 0..n {
        let id = match ids.v()[k] {
            Some(Ok(id)) => id,
            _ => sym::fail("an emit on a working connection succeeds"),
        };
        // in the order in which they were started
        let j = (0..n).find(|j| f[*j].id == id).unwrap_or(n);
        sym::check(j < n && !seen[j], "no two events have the same id");
        seen[j] = true;
        sym::check(f[j].data == data(k) && (once || j == k), "what was emitted is what is sent under that id");
    }
    sym::reach("compared");
}

/// Pools whose connections are used very often at the same time.
/// @bounds pools of 2 and 3 connections; 65537 clones of one guard; then it is acquired from, and the clones dropped
/// @steps 2000000000
/// @seconds 300 1000
#[no_mangle]
pub fn c24_often() {
    let n = 2 + sym::choose(2);
    let ends: Vec<(Pipe, Pipe)> = (0..n).map(|_| outgoing()).collect();
    let p = match block_on(40, plain().build_pooled_client(n)) {
        Some(Ok(p)) => p,
        _ => sym::fail("a pool is built"),
    };
    let which = |g: &PoolGuard<Context>| {
        match block_on(20, g.emit("w", BytePayload::new(vec![]))) {
            Some(Ok(_)) => {}
            _ => sym::fail("a pooled context emits"),
        }
        let hit: Vec<usize> = (0..ends.len()).filter(|k| !ends[*k].1.d().drain().is_empty()).collect();
        sym::check(hit.len() == 1, "a guard uses one connection");
        hit[0]
    };
    let g = p.acquire();
    let w = which(&g);
    let held: Vec<PoolGuard<Context>> = (0..65537).map(|_| g.clone()).collect();
    let mut used = vec![0usize; n];
    used[w] = 65538;
    let mut more = Vec::new();
    for _ in 0..2 * n {
        let h = p.acquire();
        let v = which(&h);
        sym::check(used[v] == *used.iter().min().unwrap(), "the connection acquired is one of the least used");
        used[v] += 1;
        more.push(h);
    }
    drop(held);
    used[w] = 1;
    for _ in 0..2 {
        let h = p.acquire();
        let v = which(&h);
        sym::check(used[v] == *used.iter().min().unwrap(), "the connection acquired is one of the least used in the end");
        used[v] += 1;
        more.push(h);
    }
    sym::reach("compared");
}
