//! C29: what is over leaves nothing behind.
use crate::kit::*;
use crate::net::*;
use crate::spec::{frame, Frame, END, ERROR, INITIATOR, RESPONSE};
use bromine::prelude::*;
use futures_core::Stream;
use std::pin::Pin;
use std::time::Duration;
use tokio::model::*;

/// What may be made later than that, once, in the whole process.
const SLACK: usize = 2000;

/// Does `round` often and compares what is on the heap before and after; the first quarter is for
/// what is made once and kept.
pub fn constant(rounds: usize, mut round: impl FnMut(usize)) {
    let mut before = 0;
    for k in 0..rounds {
        if k == rounds / 4 {
            before = sym::live();
        }
        round(k);
        world().log = Vec::new();
        world().finished = Vec::new();
        forget_timers();
    }
    let after = sym::live();
    sym::check(after < before + SLACK, "what is over takes no memory, however often it happens");
    sym::reach("compared");
}
fn rest() {
    sym::check(run(3000), "everything comes to rest");
}
fn plain() -> Builder {
    builder().on("h", handler(1)).namespace("n").on("h", handler(2)).build()
}
fn whole(o: &Pipe) -> Vec<Frame> {
    let f = sent(o);
    o.d().forget();
    f
}
fn empty() -> BytePayload {
    BytePayload::new(Vec::new())
}

/// Requests that end in whatever way leave nothing behind.
/// @steps 300000000
/// @bounds 400 requests or streams of replies; each answered, answered with an error, timed out, given up before or after it is sent, not encodable, or a stream read to its end, given up after a reply, given up full, or timed out; the answer to a request given up comes afterwards or not
/// @shards 6 6
/// @also C08 C11
#[no_mangle]
pub fn c29_requests() {
    let (c, i, o) = client(plain());
    let kind = sym::choose(12);
    let x = sym::u8();
    constant(400, |k| {
        let name = if kind == 5 { "q".repeat(65536) } else { "q".to_string() };
        let limit = Duration::from_secs(5);
        let reply = |id: u64, t: u8| frame(9, t, Some(id), None, "h", &[k as u8, x]).encode();
        if kind < 7 {
            let c = c.clone();
            let mut j = Job::new(0, async move { c.emit(name.as_str(), empty()).await_reply().with_timeout(limit).await });
            if kind == 3 {
                return;
            }
            drive(std::slice::from_mut(&mut j));
            let f = whole(&o);
            sym::check(f.len() == usize::from(kind != 5), "every request is sent once");
            match kind {
                0 => i.d().push(&reply(f[0].id, RESPONSE)),
                1 => i.d().push(&reply(f[0].id, ERROR)),
                2 => advance(limit),
                4 | 6 => j.cancel(),
                _ => {}
            }
            drive(std::slice::from_mut(&mut j));
            if kind == 6 || (kind == 2 && k % 2 == 0) {
                i.d().push(&reply(f[0].id, RESPONSE));
                rest();
            }
            let ok = matches!(j.out, Some(Ok(_)));
            sym::check(j.done() == (kind != 4 && kind != 6) && ok == (kind == 0), "every request ends as it should");
        } else {
            let c = c.clone();
            let mut j = Job::new(0, async move { c.emit(name.as_str(), empty()).stream_replies().with_timeout(limit).await });
            drive(std::slice::from_mut(&mut j));
            let f = whole(&o);
            let mut s = match j.out.take() {
                Some(Ok(s)) => s,
                _ => sym::fail("a stream of replies begins"),
            };
            let n = [1, 1, 9, 0, 0][kind - 7];
            for _ in 0..n {
                i.d().push(&reply(f[0].id, RESPONSE));
            }
            if kind == 7 {
                i.d().push(&reply(f[0].id, END));
            }
            rest();
            let mut next = |due: bool| {
                let mut j = Job::new(1, {
                    let s: &'static mut ResponseStream = unsafe { &mut *(&mut s as *mut ResponseStream) };
                    std::future::poll_fn(move |cx| Pin::new(&mut *s).poll_next(cx))
                });
                drive(std::slice::from_mut(&mut j));
                if due {
                    advance(limit);
                    drive(std::slice::from_mut(&mut j));
                }
                j.out.flatten()
            };
            match kind {
                7 => {
                    let mut n = 0;
                    while let Some(r) = next(false) {
                        sym::check(r.is_ok(), "the replies come");
                        n += 1;
                    }
                    sym::check(n == 2, "all replies come");
                }
                8 => sym::check(matches!(next(false), Some(Ok(_))), "the replies come"),
                10 => sym::check(matches!(next(true), Some(Err(IPCError::Timeout))), "a stream without a reply times out"),
                _ => {}
            }
            drop(s);
        }
        rest();
        whole(&o);
        i.d().forget();
    });
}
/// Events that are handled or emitted leave nothing behind.
/// @bounds 400 events; each handled, with an error or a response or events of the handler, or with a name or namespace nobody registered, an End event, with a reference nobody waits for, or emitted by the application; client and server
/// @shards 4 4
/// @also C12 C13
#[no_mangle]
pub fn c29_events() {
    let (i, o, c) = endpoint(plain());
    let kind = sym::choose(8);
    let x = sym::u8();
    let a = &mut world().acts[1];
    match kind {
        1 => a.err = true,
        2 => a.data = Some(vec![7; 100]),
        3 => a.emits = vec![(true, vec![1; 200]), (false, vec![2])],
        _ => {}
    }
    constant(400, |k| {
        let e = |t, re, ns: Option<&str>, name: &str| frame(k as u64, t, re, ns, name, &[k as u8, x]);
        match kind {
            0..=3 => i.d().push(&e(INITIATOR, None, None, "h").encode()),
            4 => {
                let (ns, name) = (format!("n{}", k), format!("u{}", k));
                let f = if k % 2 == 0 { e(INITIATOR, None, None, &name) } else { e(INITIATOR, None, Some(&ns), "h") };
                i.d().push(&f.encode());
            }
            5 => i.d().push(&e(END, Some(k as u64), None, "h").encode()),
            6 => i.d().push(&e(RESPONSE, Some(k as u64), None, "h").encode()),
            _ => {
                if let Some(c) = &c {
                    match block_on(50, c.emit_to(&format!("n{}", k), &format!("e{}", k), BytePayload::new(vec![k as u8; k]))) {
                        Some(Ok(_)) => {}
                        _ => sym::fail("an event is sent"),
                    }
                }
            }
        }
        rest();
        whole(&o);
        i.d().forget();
    });
}
/// Connections that are over leave nothing behind, and their transport is released.
/// @bounds 200 connections of a server; each used or not, then closed, failing to read or to write, or sending what is no frame; while a handler runs, which goes on afterwards, or not
/// @shards 4 4
/// @also C15
#[no_mangle]
pub fn c29_connections() {
    server(plain());
    let kind = sym::choose(4);
    let used = sym::choose(3);
    let x = sym::u8();
    world().acts[1].gated = used == 2;
    world().acts[1].data = Some(vec![x]);
    constant(200, |k| {
        let (i, o) = incoming();
        if used > 0 {
            i.d().push(&frame(k as u64, INITIATOR, None, None, "h", &[x]).encode());
        }
        if kind == 2 {
            o.d().fail_at = Some(k % 40);
        }
        rest();
        match kind {
            0 => i.d().close(),
            1 => {
                i.d().read_fail = Some(std::io::ErrorKind::ConnectionReset);
                i.d().wake_reader();
            }
            2 => i.d().close(),
            _ => i.d().push(&[0; 32]),
        }
        rest();
        sym::check(i.d().reader_gone, "a connection that is over is not read any more");
        if used == 2 {
            open_gate(1);
            rest();
        }
        sym::check(o.d().writer_gone, "a connection that is over is closed");
    });
}
/// Clients that were stopped, or whose peer is gone, leave nothing behind when they are dropped.
/// @bounds 100 clients or pools of 2; each stopped, or left by its peer, or both in either order, then dropped; used before or not, by up to one context and a clone of it
/// @shards 4 4
/// @also C26 C24
#[no_mangle]
pub fn c29_clients() {
    let kind = sym::choose(4);
    let pooled = sym::flag();
    let used = sym::flag();
    let x = sym::u8();
    constant(100, |k| {
        let n = if pooled { 2 } else { 1 };
        let ends: Vec<(Pipe, Pipe)> = (0..n).map(|_| outgoing()).collect();
        let use_it = |c: &Context| {
            if used {
                match block_on(50, c.emit("e", BytePayload::new(vec![k as u8, x]))) {
                    Some(Ok(_)) => {}
                    _ => sym::fail("an event is sent"),
                }
                for e in &ends {
                    e.0.d().push(&frame(4, INITIATOR, None, None, "h", &[x]).encode());
                }
                rest();
            }
        };
        let stop = |c: Context| {
            for p in 0..2 {
                if (p == 0 && kind == 0) || (p == 1 && kind == 2) || (p == 0 && kind == 3) {
                    sym::check(matches!(block_on(50, c.clone().stop()), Some(Ok(()))), "a client is stopped");
                } else if (p == 0 && (kind == 1 || kind == 2)) || (p == 1 && kind == 3) {
                    for e in &ends {
                        e.0.d().close();
                    }
                }
                rest();
            }
        };
        if pooled {
            let p = match block_on(20, plain().build_pooled_client(2)) {
                Some(Ok(p)) => p,
                _ => sym::fail("a pool is built"),
            };
            for _ in 0..2 {
                let g = p.acquire();
                let h = g.clone();
                use_it(&h);
                drop(h);
                let g2 = p.acquire();
                stop(Context::clone(&g2));
                drop(g);
                stop(Context::clone(&p.acquire()));
            }
        } else {
            let c = match block_on(20, plain().build_client()) {
                Some(Ok(c)) => c,
                _ => sym::fail("a client is built"),
            };
            use_it(&c);
            stop(c.clone());
        }
        rest();
        sym::check(ends.iter().all(|e| e.0.d().reader_gone), "a client that is over is not read any more");
        sym::check(ends.iter().all(|e| e.1.d().writer_gone), "a client that is over and dropped is closed");
        net().connected = Vec::new();
    });
}
/// Guards of a pool leave nothing behind.
/// @bounds pools of 1 to 3; 400 times acquired, cloned, used for an event or a request, and dropped
/// @also C24
#[no_mangle]
pub fn c29_guards() {
    let n = 1 + sym::choose(3);
    let ends: Vec<(Pipe, Pipe)> = (0..n).map(|_| outgoing()).collect();
    let p = match block_on(20, plain().build_pooled_client(n)) {
        Some(Ok(p)) => p,
        _ => sym::fail("a pool is built"),
    };
    let kind = sym::choose(3);
    let x = sym::u8();
    constant(400, |k| {
        let g = p.acquire();
        let h = g.clone();
        let q = p.clone();
        let r = q.acquire();
        match kind {
            1 => {
                let e = block_on(20, r.emit("e", BytePayload::new(vec![k as u8, x])));
                sym::check(matches!(e, Some(Ok(_))), "an event is sent");
            }
            2 => {
                let mut j = {
                    let r = r.clone();
                    Job::new(0, async move { r.emit("e", empty()).await_reply().await })
                };
                drive(std::slice::from_mut(&mut j));
                for (i, o) in &ends {
                    for f in whole(o) {
                        i.d().push(&frame(1, RESPONSE, Some(f.id), None, "x", &[x]).encode());
                    }
                }
                drive(std::slice::from_mut(&mut j));
                sym::check(matches!(j.out, Some(Ok(_))), "a request is answered");
            }
            _ => {}
        }
        drop(g);
        drop((q, r));
        drop(h);
        for (i, o) in &ends {
            whole(o);
            i.d().forget();
        }
    });
}
