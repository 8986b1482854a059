//! C24, C25, C27: building clients, servers and pools; the transports.
use crate::kit::*;
use crate::net::*;
use crate::spec::{frame, INITIATOR, RESPONSE};
use bromine::prelude::*;
use bromine::protocol::tcp::TcpOptions;
use bromine::trait_bound_typemap::{TypeMap, TypeMapKey};
use bromine::IPCBuilder;
use std::net::SocketAddr;
use std::path::PathBuf;
use std::time::Duration;
use tokio::io::{AsyncReadExt, AsyncWriteExt};
use tokio::model::*;
use tokio::net::{TcpListener, TcpStream, UnixListener, UnixStream};

fn pool(n: usize) -> (PooledContext, Vec<(Pipe, Pipe)>) {
    let ends: Vec<(Pipe, Pipe)> = (0..n).map(|_| outgoing()).collect();
    match block_on(40 + 3 * n, builder().on("h", handler(1)).timeout(Duration::from_secs(9)).client_options(Opt(5)).build_pooled_client(n)) {
        Some(Ok(p)) => (p, ends),
        _ => sym::fail("a pool is built"),
    }
}
/// Which connection a guard stands for.
fn which(g: &PoolGuard<Context>, ends: &[(Pipe, Pipe)]) -> usize {
    match block_on(20, g.emit("w", BytePayload::new(vec![]))) {
        Some(Ok(_)) => {}
        _ => sym::fail("a pooled context emits"),
    }
    let hit: Vec<usize> = (0..ends.len()).filter(|k| !ends[*k].1.d().drain().is_empty()).collect();
    sym::check(hit.len() == 1, "a guard uses one connection");
    hit[0]
}
/// Any history of acquiring, cloning and dropping.
/// @bounds pools of 1, 2, 3 connections; 5 operations out of: acquire, clone a guard, drop a guard (any of those held)
/// @deep 7 operations
/// @shards 4 16
/// @seconds 250 3000
#[no_mangle]
pub fn c24_least_used() {
    let n = 1 + sym::choose(3);
    let (mut p, ends) = pool(n);
    sym::check(net().connected.len() == n && net().connected.iter().all(|c| *c == (7, Opt(5))), "a pool opens its connections with the configured options");
    let mut used = vec![0usize; n];
    let mut held: Vec<(usize, PoolGuard<Context>)> = Vec::new();
    for _ in 0..sym::bound(5, 7) {
        let m = held.len();
        let k = sym::choose(1 + 2 * m);
        if k == 0 {
            let g = p.acquire();
            let w = which(&g, &ends);
            let least = *used.iter().min().unwrap();
            sym::check(used[w] == least, "the connection acquired is one of the least used");
            used[w] += 1;
            held.push((w, g));
        } else if k <= m {
            let (w, g) = (held[k - 1].0, held[k - 1].1.clone());
            sym::check(which(&g, &ends) == w, "a cloned guard uses the same connection");
            used[w] += 1;
            held.push((w, g));
        } else {
            let (w, g) = held.swap_remove(k - 1 - m);
            drop(g);
            used[w] -= 1;
        }
    }
    if sym::flag() {
        // a clone of the pool counts the same
        let q = p.clone();
        drop(std::mem::replace(&mut p, q));
    }
    let g = p.acquire();
    let w = which(&g, &ends);
    sym::check(used[w] == *used.iter().min().unwrap(), "the connection acquired is one of the least used in the end");
    sym::reach("compared");
}
/// Larger pools: everything in use once, then whatever is released is next.
/// @bounds pools of 4, 5, 8, 9 connections; all acquired; any two of them released in either order, or any one cloned first
/// @deep also 16 and 17 connections
/// @shards 4 8
/// @seconds 250 2000
#[no_mangle]
pub fn c24_wide() {
    let n = [4, 5, 8, 9, 16, 17][sym::choose(sym::bound(4, 6))];
    let (p, ends) = pool(n);
    let mut held: Vec<Option<PoolGuard<Context>>> = (0..n).map(|_| None).collect();
    for _ in 0..n {
        let g = p.acquire();
        let w = which(&g, &ends);
        sym::check(held[w].is_none(), "a connection in use is not handed out while another is unused");
        held[w] = Some(g);
    }
    let i = sym::choose(n);
    if sym::flag() {
        // two guards of the same connection: releasing one leaves it in use like the others
        let more = held[i].clone();
        held[i] = None;
        let g = p.acquire();
        let w = which(&g, &ends);
        let h = p.acquire();
        let v = which(&h, &ends);
        sym::check(w != v, "the guard that is left counts as much as any other");
        drop(more);
        let more = (g, h);
        let k = p.acquire();
        let u = which(&k, &ends);
        let twice = |x: usize| x == w || x == v;
        sym::check(if twice(i) { !twice(u) || u == i } else { u == i }, "a connection whose clones are released is next");
        sym::check(which(&more.0, &ends) == w, "a guard keeps its connection");
        sym::reach("cloned");
        return;
    }
    held[i] = None;
    let j = sym::choose(n);
    held[j] = None;
    let g = p.acquire();
    let w = which(&g, &ends);
    sym::check(w == i || w == j, "a released connection is next");
    if i != j {
        let h = p.acquire();
        sym::check(which(&h, &ends) == i + j - w, "the other released connection is next");
        std::mem::forget(h);
        sym::reach("two");
    }
    sym::check(held.iter().filter(|h| h.is_some()).count() == if i == j { n - 1 } else { n - 2 }, "the others are held");
    sym::reach("compared");
}
/// Pools of many connections.
/// @bounds pools of 17, 33, 70, 130 and 260 connections; all acquired, then any of 5 released
/// @shards 5 5
/// @also C25
#[no_mangle]
pub fn c24_many() {
    let n = [17, 33, 70, 130, 260][sym::choose(5)];
    let (p, ends) = pool(n);
    sym::check(net().connected.len() == n, "a pool has as many connections as asked for");
    let mut held: Vec<Option<PoolGuard<Context>>> = (0..n).map(|_| None).collect();
    for _ in 0..n {
        let g = p.acquire();
        let w = which(&g, &ends);
        sym::check(held[w].is_none(), "a connection in use is not handed out while another is unused");
        held[w] = Some(g);
    }
    let i = [0, 1, n / 2, n - 2, n - 1][sym::choose(5)];
    held[i] = None;
    let g = p.acquire();
    sym::check(which(&g, &ends) == i, "the released connection is next");
    sym::reach("compared");
}
/// Many guards of few connections.
/// @bounds pools of 1 to 3 connections; one connection in use 1, 127, 128, 255, 256 or 300 times more often than the others by cloning its guard
#[no_mangle]
pub fn c24_much() {
    let n = 1 + sym::choose(3);
    let (p, ends) = pool(n);
    let m = [1, 127, 128, 255, 256, 300][sym::choose(6)];
    let g = p.acquire();
    let w = which(&g, &ends);
    let mut used = vec![0; n];
    let mut held: Vec<(usize, PoolGuard<Context>)> = Vec::new();
    for _ in 0..m {
        held.push((w, g.clone()));
    }
    held.push((w, g));
    used[w] = m + 1;
    for _ in 0..(m + 1) * (n - 1) + 1 {
        let g = p.acquire();
        let w = which(&g, &ends);
        sym::check(used[w] == *used.iter().min().unwrap(), "the connection acquired is one of the least used");
        used[w] += 1;
        held.push((w, g));
    }
    // all of one connection's guards go
    let x = sym::choose(n);
    held.retain(|h| h.0 != x);
    for _ in 0..2 {
        let g = p.acquire();
        sym::check(which(&g, &ends) == x, "a connection whose guards are all gone is the least used");
        held.push((x, g));
    }
    sym::reach("compared");
}
/// Two handles of one pool, as two parts of a program use it.
/// @bounds pools of 2, 3 connections; 5 operations out of: acquire from either handle, drop any guard; then either handle is dropped or kept, and one acquires
/// @deep 7 operations
/// @shards 4 8
/// @seconds 250 2000
#[no_mangle]
pub fn c24_handles() {
    let n = 2 + sym::choose(2);
    let (p, ends) = pool(n);
    let mut pools = vec![p];
    let mut used = vec![0usize; n];
    let mut held: Vec<(usize, PoolGuard<Context>)> = Vec::new();
    for step in 0..sym::bound(5, 7) {
        if step == 1 {
            // a guard may be held already when the pool is cloned
            let q = pools[0].clone();
            pools.push(q);
        }
        let m = held.len();
        let k = sym::choose(pools.len() + m);
        if k < pools.len() {
            let g = pools[k].acquire();
            let w = which(&g, &ends);
            sym::check(used[w] == *used.iter().min().unwrap(), "the connection acquired is one of the least used over all clones of the pool");
            used[w] += 1;
            held.push((w, g));
        } else {
            let (w, g) = held.swap_remove(k - pools.len());
            drop(g);
            used[w] -= 1;
        }
    }
    match sym::choose(3) {
        0 => drop(pools.remove(0)),
        1 => drop(pools.remove(1)),
        _ => {}
    }
    let g = pools[pools.len() - 1].acquire();
    let w = which(&g, &ends);
    sym::check(used[w] == *used.iter().min().unwrap(), "the connection acquired is one of the least used in the end");
    sym::reach("compared");
}
/// Guards that are acquired, cloned and dropped on several threads are all counted.
/// @bounds pools of 1 and 2 connections; 2 threads, each one of: acquire; acquire and drop; acquire, clone and drop one of the two; drop a guard it was given; clone one it was given; acquire from a clone of the pool; every interleaving with up to 2 interruptions, each before any atomic access
/// @deep 3 connections, 3 threads, 3 interruptions
/// @shards 4 8
/// @seconds 250 3000
/// @threads
#[no_mangle]
pub fn c24_threads() {
    let n = 1 + sym::choose(sym::bound(2, 3));
    let (p, ends) = pool(n);
    let t = sym::bound(2, 3);
    let given: Vec<PoolGuard<Context>> = (0..t).map(|_| p.acquire()).collect();
    let mut kinds = Vec::new();
    for k in 0..t {
        // the order of the threads makes no difference
        let least = if k == 0 { 0 } else { kinds[k - 1] };
        kinds.push(least + sym::choose(6 - least));
    }
    let mut held: Vec<Vec<PoolGuard<Context>>> = given.into_iter().map(|g| vec![g]).collect();
    let rounds = if sym::NATIVE { 200_000 } else { 1 };
    let bodies = held.iter_mut().zip(&kinds).map(|(h, k)| {
        let h: &'static mut Vec<PoolGuard<Context>> = unsafe { &mut *(h as *mut _) };
        let p: &'static PooledContext = unsafe { &*(&p as *const _) };
        let k = *k;
        h.reserve(2);
        Box::new(move || {
            for r in 0..rounds {
                let last = r + 1 == rounds;
                match k {
                    0 if last => h.push(p.acquire()),
                    0 | 1 => drop(p.acquire()),
                    2 => {
                        let g = p.acquire();
                        let c = g.clone();
                        drop(g);
                        if last {
                            h.push(c);
                        }
                    }
                    3 if last => drop(h.pop()),
                    3 | 4 if !last => drop(h[0].clone()),
                    4 => {
                        let c = h[0].clone();
                        h.push(c);
                    }
                    _ => {
                        let q = p.clone();
                        let g = q.acquire();
                        drop(q);
                        if last {
                            h.push(g);
                        }
                    }
                }
            }
        }) as Box<dyn FnOnce()>
    });
    sym::threads(sym::bound(2, 3), bodies.collect());
    // alone again: the counts are exact
    let mut used = vec![0usize; n];
    for g in held.iter().flatten() {
        used[which(g, &ends)] += 1;
    }
    let most = *used.iter().max().unwrap();
    let mut more = Vec::new();
    for _ in 0..used.iter().map(|u| most + 1 - u).sum() {
        let g = p.acquire();
        let w = which(&g, &ends);
        sym::check(used[w] == *used.iter().min().unwrap(), "what other threads acquired and dropped is counted exactly");
        used[w] += 1;
        more.push(g);
    }
    sym::reach("compared");
}
/// The connections of a pool are clients like any other.
/// @bounds pools of 1 to 3 connections; a request on any of them is answered; an event on any of them is handled
/// @also C25
#[no_mangle]
pub fn c24_clients() {
    let n = 1 + sym::choose(3);
    let (p, ends) = pool(n);
    let guards: Vec<_> = (0..n).map(|_| p.acquire()).collect();
    let k = sym::choose(n);
    let mut job = [Job::new(0, guards[k].emit("q", BytePayload::new(vec![1])).await_reply())];
    drive(&mut job);
    let w = (0..n).find(|j| !ends[*j].1.d().data.is_empty()).unwrap();
    let f = sent(&ends[w].1);
    let d = sym::vec(2);
    ends[w].0.d().push(&frame(3, RESPONSE, Some(f[0].id), None, "h", &d).encode());
    drive(&mut job);
    match &job[0].out {
        Some(Ok(e)) => sym::check(e.data_raw() == &d[..], "a pooled request gets its reply"),
        _ => sym::fail("a pooled request gets its reply"),
    }
    let x = sym::choose(n);
    ends[x].0.d().push(&frame(4, INITIATOR, None, None, "h", &[1]).encode());
    settle();
    sym::check(world().log.len() == 1 && sent(&ends[x].1).len() == 1, "an event on a pooled connection is handled and answered on it");
    // the configured timeout holds
    let mut job = [Job::new(0, guards[k].emit("q", BytePayload::new(vec![1])).await_reply())];
    drive(&mut job);
    advance(Duration::from_millis(8999));
    drive(&mut job);
    sym::check(!job[0].done(), "the configured timeout holds for pools");
    advance(Duration::from_millis(1));
    drive(&mut job);
    sym::check(matches!(job[0].out, Some(Err(IPCError::Timeout))), "the configured timeout ends a pooled request");
    sym::reach("compared");
}
/// Pools that cannot be built.
/// @bounds size 0; no address; the k-th of 3 connections refused
/// @also C25
#[no_mangle]
pub fn c24_refused() {
    match sym::choose(3) {
        0 => {
            outgoing();
            match block_on(20, builder().build_pooled_client(0)) {
                Some(Err(IPCError::BuildError(_))) => sym::reach("no connections"),
                _ => sym::fail("a pool without connections is refused"),
            }
            sym::check(net().connected.is_empty(), "nothing is connected for it");
        }
        1 => {
            outgoing();
            match block_on(20, IPCBuilder::<MemListener>::new().build_pooled_client(1)) {
                Some(Err(IPCError::BuildError(_))) => sym::reach("no address"),
                _ => sym::fail("a pool without an address is refused"),
            }
        }
        _ => {
            for _ in 0..sym::choose(3) {
                outgoing();
            }
            match block_on(40, builder().build_pooled_client(3)) {
                Some(Err(IPCError::IoError(_))) => sym::reach("refused"),
                _ => sym::fail("a pool that cannot connect is an error"),
            }
        }
    }
}

struct Num;
impl TypeMapKey for Num {
    type Value = u32;
}
struct Str;
impl TypeMapKey for Str {
    type Value = String;
}
fn limit_bytes(d: Duration) -> Vec<u8> {
    let mut v = d.as_secs().to_be_bytes().to_vec();
    v.extend_from_slice(&d.subsec_nanos().to_be_bytes());
    v
}
/// Tells the timeout its handler sees.
fn asking(b: Builder) -> Builder {
    b.on("limit", |ctx, _| Box::pin(async move { ctx.response(BytePayload::new(limit_bytes(ctx.default_reply_timeout))) }))
}
fn sharing(b: Builder, x: u32) -> Builder {
    sharing_handler(b.insert::<Num>(x).insert::<Str>("s".into()))
}
fn sharing_handler(b: Builder) -> Builder {
    b.on("read", |ctx, _| {
        Box::pin(async move {
            let mut d = ctx.data.write().await;
            let s = d.get::<Str>().cloned().unwrap_or_default();
            match d.get_mut::<Num>() {
                Some(n) => {
                    *n = n.wrapping_add(1);
                    let mut v = n.to_be_bytes().to_vec();
                    v.extend_from_slice(s.as_bytes());
                    ctx.response(BytePayload::new(v))
                }
                None => Err(IPCError::from("missing")),
            }
        })
    })
}
/// Address, options, shared data, handlers and namespaces, whatever order they are configured in.
/// @bounds any address, options, shared number; client and server; 3 orders of the calls; two connections of a server share data
#[no_mangle]
pub fn c25_configured() {
    let (a, opt, x) = (sym::u16(), Opt(sym::u32()), sym::u32());
    let b = IPCBuilder::<MemListener>::new();
    let b = match sym::choose(3) {
        0 => sharing(b.address(a).client_options(opt.clone()).server_options(opt.clone()), x).namespace("n").on("h", handler(2)).build().on("h", handler(1)),
        1 => sharing(b.on("h", handler(1)).namespace("n").on("h", handler(2)).build(), x).address(a).server_options(opt.clone()).client_options(opt.clone()),
        _ => sharing(b.server_options(Opt(1)).client_options(Opt(2)).address(1).insert::<Num>(0), x)
            .on("h", handler(9))
            .on("h", handler(1))
            .address(a)
            .server_options(opt.clone())
            .client_options(opt.clone())
            .namespace("n")
            .on("h", handler(2))
            .build(),
    };
    let mut ends = Vec::new();
    let mut keep = None;
    if sym::flag() {
        ends.push(outgoing());
        match block_on(20, b.build_client()) {
            Some(Ok(c)) => keep = Some(c),
            _ => sym::fail("a client connects"),
        }
        sym::check(net().connected.len() == 1 && net().connected[0] == (a, opt), "a client connects to the configured address with its options");
        sym::check(net().bound.is_empty(), "a client does not listen");
        sym::reach("client");
    } else {
        server(b);
        sym::check(net().bound.len() == 1 && net().bound[0] == (a, opt), "a server listens on the configured address with its options");
        sym::check(net().connected.is_empty(), "a server does not connect");
        ends.push(incoming());
        ends.push(incoming());
        sym::reach("server");
    }
    for (i, _) in &ends {
        i.d().push(&frame(1, INITIATOR, None, None, "h", &[]).encode());
        i.d().push(&frame(2, INITIATOR, None, Some("n"), "h", &[]).encode());
    }
    settle();
    for t in [1, 2] {
        sym::check(world().log.iter().filter(|(u, _)| *u == t).count() == ends.len(), "the configured handlers run on every connection");
    }
    sym::check(world().log.len() == 2 * ends.len(), "and no others");
    for (k, (i, o)) in ends.iter().enumerate() {
        sent(o);
        i.d().push(&frame(3, INITIATOR, None, None, "read", &[]).encode());
        settle();
        let f = sent(o);
        let mut want = x.wrapping_add(1 + k as u32).to_be_bytes().to_vec();
        want.push(b's');
        sym::check(f.len() == 1 && f[0].data == want, "handlers share the configured data");
    }
    drop(keep);
}
/// Many connections of one server or one pool share the configuration and the data.
/// @bounds 3, 17 and 70 connections of a server, at once or one after the other, the first of which may be gone by then, or of a pool; 3 shared numbers
/// @shards 3 3
/// @also C24
#[no_mangle]
pub fn c25_many() {
    let x = [0, 7, u32::MAX - 3][sym::choose(3)];
    let n = [3, 17, 70][sym::choose(3)];
    let b = sharing(asking(builder()), x).timeout(Duration::from_millis(123)).on("h", handler(1)).namespace("n").on("h", handler(2)).build();
    let mut ends: Vec<(Pipe, Pipe)> = Vec::new();
    let mut keep = None;
    let mut gone = 0;
    match sym::choose(4) {
        0 => {
            ends = (0..n).map(|_| outgoing()).collect();
            match block_on(40 + 3 * n, b.build_pooled_client(n)) {
                Some(Ok(c)) => keep = Some(c),
                _ => sym::fail("a pool is built"),
            }
        }
        k => {
            server(b);
            for _ in 0..n {
                ends.push(incoming());
                if k > 1 {
                    settle();
                }
            }
            settle();
            if k > 2 {
                ends[0].0.d().close();
                settle();
                gone = 1;
            }
        }
    }
    for (k, (i, o)) in ends.iter().enumerate().skip(gone) {
        i.d().push(&frame(1, INITIATOR, None, None, "h", &[]).encode());
        i.d().push(&frame(2, INITIATOR, None, Some("n"), "h", &[]).encode());
        i.d().push(&frame(3, INITIATOR, None, None, "read", &[]).encode());
        i.d().push(&frame(4, INITIATOR, None, None, "limit", &[]).encode());
        settle();
        let f = sent(o);
        sym::check(f.len() == 4, "every event is answered");
        let answer = |re| f.iter().find(|f| f.re == Some(re)).map(|f| f.data.clone());
        let mut want = x.wrapping_add(1 + (k - gone) as u32).to_be_bytes().to_vec();
        want.push(b's');
        sym::check(answer(3) == Some(want), "handlers share the configured data");
        sym::check(answer(4) == Some(limit_bytes(Duration::from_millis(123))), "the configured timeout holds on every connection");
        for t in [1, 2] {
            sym::check(world().log.iter().filter(|(u, _)| *u == t).count() == k - gone + 1, "the configured handlers run on every connection");
        }
    }
    drop(keep);
    sym::reach("compared");
}
/// A pool passes the configuration on to every connection, and its connections share the data.
/// @bounds pools of 1 to 3; any address, options, shared number and timeout (up to 2^32 milliseconds); options, address and timeout set before or after the handlers
/// @shards 2 4
/// @also C24
#[no_mangle]
pub fn c25_pool() {
    let (a, opt, x) = (sym::u16(), Opt(sym::u32()), sym::u32());
    let limit = Duration::from_millis(sym::u32() as u64);
    let n = 1 + sym::choose(3);
    let ends: Vec<(Pipe, Pipe)> = (0..n).map(|_| outgoing()).collect();
    let b = IPCBuilder::<MemListener>::new();
    let b = if sym::flag() {
        asking(sharing(b.address(a).client_options(opt.clone()).timeout(limit), x)).namespace("n").on("h", handler(2)).build().on("h", handler(1))
    } else {
        asking(sharing(b.on("h", handler(1)).namespace("n").on("h", handler(2)).build(), x)).timeout(limit).client_options(opt.clone()).address(a)
    };
    let p = match block_on(60, b.build_pooled_client(n)) {
        Some(Ok(p)) => p,
        _ => sym::fail("a pool is built"),
    };
    sym::check(net().bound.is_empty(), "a pool does not listen");
    sym::check(net().connected.len() == n, "a pool opens as many connections as it was asked for");
    for c in &net().connected {
        sym::check(*c == (a, opt.clone()), "every connection of a pool goes to the configured address with its options");
    }
    let guards: Vec<_> = (0..n).map(|_| p.acquire()).collect();
    for g in &guards {
        sym::check(g.default_reply_timeout == limit, "every connection of a pool has the configured timeout");
    }
    let mut count = x;
    for (k, (i, o)) in ends.iter().enumerate() {
        sent(o);
        i.d().push(&frame(1, INITIATOR, None, None, "h", &[]).encode());
        i.d().push(&frame(2, INITIATOR, None, Some("n"), "h", &[]).encode());
        settle();
        for t in [1, 2] {
            sym::check(world().log.iter().filter(|(u, _)| *u == t).count() == k + 1, "the configured handlers run on every connection of a pool");
        }
        sent(o);
        i.d().push(&frame(3, INITIATOR, None, None, "read", &[]).encode());
        i.d().push(&frame(4, INITIATOR, None, None, "limit", &[]).encode());
        settle();
        let f = sent(o);
        count = count.wrapping_add(1);
        let mut want = count.to_be_bytes().to_vec();
        want.push(b's');
        sym::check(f.len() == 2, "the configured handlers answer on every connection of a pool");
        let (r, l) = if f[0].re == Some(3) { (&f[0], &f[1]) } else { (&f[1], &f[0]) };
        sym::check(r.data == want, "the connections of a pool share the configured data");
        sym::check(l.data == limit_bytes(limit), "the handlers of a pool see the configured timeout");
    }
    // the data the caller sees is the same
    let d = match block_on(20, guards[0].data.read()) {
        Some(d) => d.get::<Num>().copied(),
        None => sym::fail("the shared data is not locked"),
    };
    sym::check(d == Some(count), "the caller sees the shared data");
    sym::reach("compared");
}
/// Many options given at once, and defaults where none are given.
/// @bounds client, server and pool with nothing configured but the address; data given by insert, or all at once; a handler's and a caller's timeout
#[no_mangle]
pub fn c25_defaults() {
    let given = sym::flag();
    let b = asking(builder().on("h", handler(1)));
    let b = if given {
        let mut m = bromine::trait_bound_typemap::SendSyncTypeMap::new();
        m.insert::<Num>(4);
        m.insert::<Str>("t".into());
        sharing_handler(b.insert_all(m))
    } else {
        sharing_handler(b)
    };
    let (i, o) = match sym::choose(3) {
        0 => {
            let (c, i, o) = client(b);
            sym::check(net().connected[0] == (7, Opt::default()), "no options are the default ones");
            sym::check(c.default_reply_timeout == Duration::from_secs(60), "the default timeout is a minute");
            std::mem::forget(c);
            (i, o)
        }
        1 => {
            server(b);
            sym::check(net().bound[0] == (7, Opt::default()), "no options are the default ones");
            incoming()
        }
        _ => {
            let e = outgoing();
            match block_on(40, b.build_pooled_client(1)) {
                Some(Ok(p)) => std::mem::forget(p),
                _ => sym::fail("a pool is built"),
            }
            sym::check(net().connected[0] == (7, Opt::default()), "no options are the default ones");
            e
        }
    };
    i.d().push(&frame(1, INITIATOR, None, None, "limit", &[]).encode());
    settle();
    let f = sent(&o);
    sym::check(f.len() == 1 && f[0].data == limit_bytes(Duration::from_secs(60)), "handlers see the default timeout");
    i.d().push(&frame(2, INITIATOR, None, None, "read", &[]).encode());
    settle();
    let f = sent(&o);
    sym::check(f.len() == 1, "the handler answers");
    if given {
        sym::check(f[0].kind == crate::spec::END && f[0].data == [0, 0, 0, 5, b't'], "data inserted all at once is all there");
        sym::reach("given");
    } else {
        sym::check(f[0].kind == crate::spec::ERROR, "there is no data nobody inserted");
        sym::reach("none");
    }
}
/// What cannot be built is an error.
/// @bounds no address, or the transport refuses; client and server
#[no_mangle]
pub fn c25_errors() {
    let missing = sym::flag();
    let b = if missing { IPCBuilder::<MemListener>::new() } else { builder() };
    net().refuse = true;
    if sym::flag() {
        if missing {
            outgoing();
        }
        match block_on(20, b.build_client()) {
            Some(Err(IPCError::BuildError(_))) => sym::check(missing, "only what is missing is a configuration error"),
            Some(Err(IPCError::IoError(_))) => sym::check(!missing, "only a refused connection is an error of the transport"),
            _ => sym::fail("a client that cannot be built is an error"),
        }
        sym::check(spawned() == 0, "nothing runs for a client that was not built");
    } else {
        match block_on(20, b.build_server()) {
            Some(Err(IPCError::BuildError(_))) => sym::check(missing, "only what is missing is a configuration error"),
            Some(Err(IPCError::IoError(_))) => sym::check(!missing, "only a refused address is an error of the transport"),
            _ => sym::fail("a server that cannot be built is an error"),
        }
    }
    sym::reach("refused");
}

fn address() -> SocketAddr {
    let ip: [u8; 4] = sym::bytes();
    SocketAddr::from((ip, sym::u16()))
}
fn ttl() -> Option<u32> {
    if sym::flag() {
        Some(sym::u32())
    } else {
        None
    }
}
/// TCP: address and time-to-live are passed on, failures are reported.
/// @bounds any IPv4 address and port, any time-to-live or none; each call fails or not
/// @also C25
#[no_mangle]
pub fn c27_tcp() {
    let (a, t) = (address(), ttl());
    let e = tokio::net::env();
    e.refuse = sym::flag();
    e.fail_ttl = sym::flag();
    let fails = e.refuse || (e.fail_ttl && t.is_some());
    let o = TcpOptions { ttl: t };
    if sym::flag() {
        match block_on(10, <TcpListener as AsyncStreamProtocolListener>::protocol_bind(a, o)) {
            Some(Ok(l)) => {
                sym::check(!fails, "a failed bind is an error");
                let e = tokio::net::env();
                sym::check(e.tcp_bound.len() == 1 && e.tcp_bound[0].0 == a, "the listener is bound to the given address");
                sym::check(e.tcp_bound[0].1.log().ttl == t, "the listener gets the time-to-live it was given and no other");
                e.backlog.push(Ok(()));
                e.backlog.push(Err(()));
                sym::check(matches!(block_on(10, l.protocol_accept()), Some(Ok(_))), "a connection is accepted");
                sym::check(matches!(block_on(10, l.protocol_accept()), Some(Err(_))), "a failed accept is an error");
                sym::reach("bound");
            }
            Some(Err(_)) => {
                sym::check(fails, "a bind fails only if the system says so");
                sym::reach("not bound");
            }
            None => sym::fail("binding completes"),
        }
    } else {
        match block_on(10, <TcpStream as AsyncProtocolStream>::protocol_connect(a, o)) {
            Some(Ok(_)) => {
                sym::check(!fails, "a failed connect is an error");
                let e = tokio::net::env();
                sym::check(e.tcp_connected.len() == 1 && e.tcp_connected[0].0 == a, "the stream is connected to the given address");
                sym::check(e.tcp_connected[0].1.log().ttl == t, "the stream gets the time-to-live it was given and no other");
                sym::reach("connected");
            }
            Some(Err(_)) => {
                sym::check(fails, "a connect fails only if the system says so");
                sym::reach("not connected");
            }
            None => sym::fail("connecting completes"),
        }
    }
}
/// Unix sockets: the path is passed on, failures are reported.
/// @bounds paths of up to 3 bytes; each call (waiting for the socket to be ready among them) fails or not
/// @also C25
#[no_mangle]
pub fn c27_unix() {
    let p = PathBuf::from(crate::wire::text(1 + sym::choose(3)));
    let e = tokio::net::env();
    e.refuse = sym::flag();
    e.fail_ready = !e.refuse && sym::flag();
    let (fails, unready) = (e.refuse, e.fail_ready);
    if sym::flag() {
        match block_on(10, <UnixListener as AsyncStreamProtocolListener>::protocol_bind(p.clone(), ())) {
            Some(Ok(l)) => {
                let e = tokio::net::env();
                sym::check(!fails && e.unix_bound.len() == 1 && e.unix_bound[0].0.as_os_str() == p.as_os_str(), "the listener is bound to the given path");
                e.backlog.push(Ok(()));
                e.backlog.push(Err(()));
                sym::check(matches!(block_on(10, l.protocol_accept()), Some(Ok(_))), "a connection is accepted");
                sym::check(matches!(block_on(10, l.protocol_accept()), Some(Err(_))), "a failed accept is an error");
                sym::reach("bound");
            }
            Some(Err(_)) => sym::check(fails, "a bind fails only if the system says so"),
            None => sym::fail("binding completes"),
        }
    } else {
        match block_on(10, <UnixStream as AsyncProtocolStream>::protocol_connect(p.clone(), ())) {
            Some(Ok(_)) => {
                let e = tokio::net::env();
                sym::check(!fails && e.unix_connected.len() == 1 && e.unix_connected[0].0.as_os_str() == p.as_os_str(), "the stream is connected to the given path");
                sym::check(!unready || !e.unix_connected[0].1.log().ready_waited, "a failure to become ready is an error");
                sym::reach("connected");
            }
            Some(Err(_)) => sym::check(fails || unready, "a connect fails only if the system says so"),
            None => sym::fail("connecting completes"),
        }
    }
}
async fn halves<S: AsyncProtocolStreamSplit>(s: S, d: &[u8]) -> Vec<u8> {
    let (mut r, mut w) = s.protocol_into_split();
    if w.write_all(d).await.is_err() || w.flush().await.is_err() {
        sym::fail("the writing half writes");
    }
    let mut b = vec![0; 3];
    if r.read_exact(&mut b).await.is_err() {
        sym::fail("the reading half reads");
    }
    b
}
/// The halves of a stream are the two directions of the same connection.
/// @bounds 3 symbolic bytes in each direction, TCP and Unix
#[no_mangle]
pub fn c27_halves() {
    let (x, y) = (sym::vec(3), sym::vec(3));
    let (got, s) = if sym::flag() {
        let t = match block_on(10, <TcpStream as AsyncProtocolStream>::protocol_connect(address(), TcpOptions::default())) {
            Some(Ok(t)) => t,
            _ => sym::fail("a stream connects"),
        };
        let s = t.model();
        s.log().readable = x.clone();
        (block_on(20, halves(t, &y)), s)
    } else {
        let t = match block_on(10, <UnixStream as AsyncProtocolStream>::protocol_connect(PathBuf::from("p"), ())) {
            Some(Ok(t)) => t,
            _ => sym::fail("a stream connects"),
        };
        let s = t.model();
        s.log().readable = x.clone();
        (block_on(20, halves(t, &y)), s)
    };
    sym::check(got == Some(x), "the reading half reads what arrives");
    sym::check(s.log().written == y, "the writing half writes to the connection");
    sym::reach("compared");
}
/// A whole client and server over each transport.
/// @bounds one event with 2 symbolic payload bytes, TCP and Unix
#[no_mangle]
pub fn c27_whole() {
    let d = sym::vec(2);
    let f = frame(4, INITIATOR, None, None, "h", &d);
    world().acts[1].data = Some(d.clone());
    let t = ttl();
    let a = address();
    let sock = match sym::choose(4) {
        0 => {
            let b = IPCBuilder::<TcpListener>::new().address(a).client_options(TcpOptions { ttl: t }).on("h", handler(1));
            let c = match block_on(20, b.build_client()) {
                Some(Ok(c)) => c,
                _ => sym::fail("a client connects"),
            };
            std::mem::forget(c);
            tokio::net::env().tcp_connected[0].1.clone()
        }
        1 => {
            let b = IPCBuilder::<UnixListener>::new().address(PathBuf::from("p")).on("h", handler(1));
            let c = match block_on(20, b.build_client()) {
                Some(Ok(c)) => c,
                _ => sym::fail("a client connects"),
            };
            std::mem::forget(c);
            tokio::net::env().unix_connected[0].1.clone()
        }
        k => {
            tokio::net::env().backlog.push(Ok(()));
            if k == 2 {
                let b = IPCBuilder::<TcpListener>::new().address(a).server_options(TcpOptions { ttl: t }).on("h", handler(1));
                tokio::spawn(async move {
                    let _ = b.build_server().await;
                });
            } else {
                let b = IPCBuilder::<UnixListener>::new().address(PathBuf::from("p")).on("h", handler(1));
                tokio::spawn(async move {
                    let _ = b.build_server().await;
                });
            }
            settle();
            tokio::net::env().accepted[0].clone()
        }
    };
    sock.log().readable = f.encode();
    if let Some(w) = sock.log().waker.take() {
        w.wake()
    }
    settle();
    sym::check(world().log.len() == 1 && world().log[0].1 == f, "an event arrives over the socket");
    let out = crate::spec::frames(&sock.log().written);
    sym::check(out.len() == 1 && out[0].re == Some(4) && out[0].data == d, "its answer is written to the socket");
    let e = tokio::net::env();
    for (x, s) in e.tcp_bound.iter().chain(&e.tcp_connected) {
        sym::check(*x == a && s.log().ttl == t, "address and time-to-live come from the builder");
        sym::reach("tcp");
    }
    sym::reach("compared");
}
