//! C17-C21, C28: the encryption layer.
//! features: enc
use crate::kit::*;
use crate::net::*;
use bromine::prelude::encrypted::{EncryptedListener, EncryptedStream, EncryptionOptions, Keys};
use bromine::prelude::*;
use bromine::protocol::{AsyncProtocolStream, AsyncProtocolStreamSplit, AsyncStreamProtocolListener};
use chacha20poly1305::model as aead;
use std::future::Future;
use std::pin::Pin;
use std::task::Poll;
use tokio::io::{AsyncRead, AsyncReadExt, AsyncWrite, AsyncWriteExt, ReadBuf};
use tokio::model::*;
use x25519_dalek::{PublicKey, SharedSecret, StaticSecret};

type Enc = EncryptedStream<MemStream>;
type Listener = EncryptedListener<MemListener>;

/// An encrypted stream over `s` with a fixed key, as it is after the key exchange.
fn enc(s: MemStream) -> Enc {
    let mut e = Enc::new(s, StaticSecret::from([1; 32]).diffie_hellman(&PublicKey::from([2; 32])));
    e.update_key(vec![9; 32].into());
    e
}
/// Two ends of an encrypted connection with different pipes between them, which only the
/// harness connects: (a, what b is sent), (b, what a has sent).
struct Ends {
    a: Enc,
    b: Enc,
    a_out: Pipe,
    a_in: Pipe,
    b_out: Pipe,
    b_in: Pipe,
}
fn apart() -> Ends {
    let (a, a_in, a_out) = lone();
    let (b, b_in, b_out) = lone();
    Ends { a: enc(a), b: enc(b), a_out, a_in, b_out, b_in }
}
fn connected() -> (Enc, Enc, Pipe) {
    let (a, b) = pair();
    let p = a.w.0.clone();
    (enc(a), enc(b), p)
}
/// `n` bytes, the first and last few of them symbolic.
fn bytes(n: usize) -> Vec<u8> {
    let mut v: Vec<u8> = (0..n).map(|i| i as u8).collect();
    for i in [0, 1, n.saturating_sub(1)] {
        if i < n {
            v[i] = sym::u8();
        }
    }
    v
}
fn same(a: &[u8], b: &[u8]) -> bool {
    a.len() == b.len() && (0..a.len()).fold(0, |r, i| r | (a[i] ^ b[i])) == 0
}
/// Runs a future to its end, or stops when nothing moves.
fn now<F: Future>(f: F) -> Option<F::Output> {
    block_on(400, f)
}
fn done<F: Future>(f: F, what: &'static str) -> F::Output {
    match now(f) {
        Some(v) => v,
        None => sym::fail(what),
    }
}
fn cut(o: &Pipe, far: usize) {
    let k = 1 + sym::choose(sym::bound(3, 9));
    match sym::choose(sym::bound(5, 6)) {
        0 => o.d().rcut = Cut::Slow(k * 7),
        1 => o.d().wcut = Cut::Slow(k * 300),
        2 => o.d().rcut = Cut::At([k, k + 1, far]),
        3 => o.d().wcut = Cut::At([k, k + 1, far]),
        4 => o.d().wcut = Cut::Max(k * 11),
        _ => o.d().rcut = Cut::Max(k),
    }
}
const SIZES: [usize; 10] = [1, 1024, 7, 1023, 1025, 0, 2047, 2048, 300, 5000];

/// What was written and flushed comes out at the other end: any sequence of writes with flushes
/// between, buffers of any size at the reader, and a transport that cuts the stream as it likes.
/// @bounds 2 writes of 0, 1, 7, 1023, 1024 or 1025 bytes (contents symbolic at their ends), flushed in between or not; reads of 1, 64, 1023 or 4096 bytes; transport cut at 15 kinds of places on either side
/// @deep 3 writes of up to 5000 bytes, 54 kinds of cuts
/// @shards 8 8
/// @seconds 300 3000
/// @also C28
#[no_mangle]
pub fn c17_writes() {
    let (mut a, mut b, o) = connected();
    cut(&o, 1040);
    let mut all = Vec::new();
    for i in 0..sym::bound(2, 3) {
        let d = bytes(SIZES[sym::choose(sym::bound(6, 10))]);
        all.extend_from_slice(&d);
        match done(a.write_all(&d), "a write to a transport that accepts data completes") {
            Ok(()) => {}
            Err(_) => sym::fail("a write to a working transport succeeds"),
        }
        if i == 0 && sym::flag() {
            sym::check(done(a.flush(), "a flush completes").is_ok(), "a flush succeeds");
        }
    }
    sym::check(done(a.flush(), "a flush completes").is_ok(), "a flush succeeds");
    let size = [4096, 1023, 64, 1][sym::choose(if all.len() > 200 { 3 } else { 4 })];
    let mut got = Vec::new();
    let mut buf = vec![0u8; size];
    while got.len() < all.len() {
        match done(b.read(&mut buf), "what was flushed can be read") {
            Ok(n) => {
                sym::check(n > 0, "a read of available data returns some");
                got.extend_from_slice(&buf[..n]);
            }
            Err(_) => sym::fail("reading what was written succeeds"),
        }
    }
    sym::check(same(&got, &all), "what is read is what was written, in order");
    sym::check(now(b.read(&mut buf)).is_none(), "nothing is read that was not written");
    sym::reach("all read");
}

/// Large writes, at once or in pieces.
/// @bounds 2 writes of 1, 4096, 65535, 65536, 70000 or 140000 bytes, flushed in between or not; reads of 1000, 4096, 65536 or 200000 bytes; the transport moves everything, 1000, 4096 or 65536 bytes at a time
/// @shards 4 8
#[no_mangle]
pub fn c17_large() {
    aead::trust_transport();
    let (mut a, mut b, o) = connected();
    match sym::choose(4) {
        0 => {}
        1 => o.d().wcut = Cut::Slow(1000),
        2 => o.d().rcut = Cut::Max(4096),
        _ => o.d().wcut = Cut::Slow(65536),
    }
    const L: [usize; 6] = [65535, 65536, 140000, 4096, 70000, 1];
    let n = [sym::choose(6), sym::choose(sym::bound(3, 6))];
    let mut all = Vec::new();
    for i in 0..2 {
        let d = big(L[n[i]], i as u8);
        all.extend_from_slice(&d);
        sym::check(matches!(done(a.write_all(&d), "a write completes"), Ok(())), "a write to a working transport succeeds");
        if i == 0 && sym::flag() {
            sym::check(done(a.flush(), "a flush completes").is_ok(), "a flush succeeds");
        }
    }
    sym::check(done(a.flush(), "a flush completes").is_ok(), "a flush succeeds");
    let mut got = Vec::new();
    let mut buf = vec![0u8; [4096, 200000, 65536, 1000][sym::choose(sym::bound(2, 4))]];
    while got.len() < all.len() {
        match done(b.read(&mut buf), "what was flushed can be read") {
            Ok(n) => {
                sym::check(n > 0, "a read of available data returns some");
                got.extend_from_slice(&buf[..n]);
            }
            Err(_) => sym::fail("reading what was written succeeds"),
        }
    }
    sym::check(got == all, "what is read is what was written, in order");
    sym::check(now(b.read(&mut buf)).is_none(), "nothing is read that was not written");
    sym::reach("all read");
}
/// Writes of more than a megabyte.
/// @bounds one write of 1048577 or 2200000 bytes; the transport moves everything or 100000 bytes at a time; reads of 65536 or all bytes
/// @steps 3000000000
/// @shards 4 4
/// @seconds 300 1000
#[no_mangle]
pub fn c17_huge() {
    aead::trust_transport();
    let (mut a, mut b, o) = connected();
    if sym::flag() {
        o.d().wcut = Cut::Max(100000);
    }
    let n = [1048577, 2200000][sym::choose(2)];
    let d = big(n, 1);
    sym::check(matches!(done(a.write_all(&d), "a write completes"), Ok(())), "a write to a working transport succeeds");
    sym::check(done(a.flush(), "a flush completes").is_ok(), "a flush succeeds");
    let mut got = Vec::new();
    let mut buf = vec![0u8; [65536, n][sym::choose(2)]];
    while got.len() < n {
        match done(b.read(&mut buf), "what was flushed can be read") {
            Ok(n) => {
                sym::check(n > 0, "a read of available data returns some");
                got.extend_from_slice(&buf[..n]);
            }
            Err(_) => sym::fail("reading what was written succeeds"),
        }
    }
    sym::check(got == d, "what is read is what was written, in order");
    sym::reach("all read");
}
/// A long life of a connection.
/// @bounds 700 packages in each direction, or 66000 in one, of 1 byte each
/// @steps 4000000000
/// @seconds 400 2000
/// @shards 2 2
#[no_mangle]
pub fn c17_long() {
    aead::trust_transport();
    let long = sym::flag();
    let n = if long { 66000u32 } else { 700 };
    let (a, b) = pair();
    let pipes = [a.w.0.clone(), b.w.0.clone()];
    let (mut a, mut b) = (enc(a), enc(b));
    let w = waker(MAIN);
    let mut cx = std::task::Context::from_waker(&w);
    let mut hop = |a: &mut Enc, b: &mut Enc, o: &Pipe, x: u8| {
        let p = Pin::new(&mut *a).poll_write(&mut cx, &[x]).is_ready();
        let q = Pin::new(&mut *a).poll_flush(&mut cx).is_ready();
        sym::check(p && q, "writing and flushing to a transport that takes everything completes");
        let mut buf = [0u8; 4];
        let mut rb = ReadBuf::new(&mut buf);
        let r = Pin::new(&mut *b).poll_read(&mut cx, &mut rb);
        sym::check(matches!(r, Poll::Ready(Ok(()))) && rb.filled() == &[x], "what was flushed can be read");
        o.d().data.clear();
        o.d().pos = 0;
    };
    for i in 0..n {
        hop(&mut a, &mut b, &pipes[0], i as u8);
        if !long {
            hop(&mut b, &mut a, &pipes[1], !i as u8);
        }
    }
    sym::reach("all read");
}

/// A read returns what there is as soon as anything was flushed, is not disturbed by cancelled
/// reads, and a buffer without room takes nothing.
/// @bounds 2 flushed pieces of 1 to 3 symbolic bytes, reads of 0 to 4 bytes, the pieces arriving at any byte
/// @also C28
#[no_mangle]
pub fn c17_reads() {
    let mut e = apart();
    let mut all = Vec::new();
    let mut wire = Vec::new();
    for _ in 0..2 {
        let d = sym::vec(1 + sym::choose(3));
        sym::check(matches!(now(e.a.write_all(&d)), Some(Ok(()))), "a write succeeds");
        sym::check(matches!(now(e.a.flush()), Some(Ok(()))), "a flush succeeds");
        all.extend_from_slice(&d);
        wire.push((all.len(), e.a_out.d().drain()));
    }
    let k = sym::choose(wire[0].1.len());
    let mut got = Vec::new();
    // a part of the first package
    e.b_in.d().push(&wire[0].1[..k]);
    let mut buf = vec![0u8; sym::choose(5)];
    {
        // this read is given up
        let r = now(e.b.read(&mut buf));
        match r {
            None => sym::check(buf.len() > 0, "a read without room does not wait"),
            Some(Ok(n)) => sym::check(n == 0 && buf.len() == 0, "nothing is read of an incomplete package"),
            Some(Err(_)) => sym::fail("an incomplete package is no error yet"),
        }
    }
    e.b_in.d().push(&wire[0].1[k..]);
    let mut size = 1 + sym::choose(4);
    for i in 0..2 {
        if i == 1 {
            e.b_in.d().push(&wire[1].1);
            size = 4;
        }
        while got.len() < wire[i].0 {
            let mut buf = vec![0u8; size];
            match done(e.b.read(&mut buf), "available data is returned at once") {
                Ok(n) => {
                    sym::check(n > 0, "a read of available data returns some");
                    got.extend_from_slice(&buf[..n]);
                }
                Err(_) => sym::fail("reading what was written succeeds"),
            }
        }
    }
    sym::check(same(&got, &all), "what is read is what was written, in order");
    sym::reach("all read");
}

/// Both directions at once, with the halves split and driven in any order.
/// @bounds 1 message of 0 to 2 symbolic bytes in each direction, the two halves of both ends driven in any order (8 choices)
/// @deep 10 choices, transport pending before every transfer
/// @shards 4 8
#[no_mangle]
pub fn c17_duplex() {
    let (a, b) = pair();
    if sym::bound(0, 1) == 1 {
        for p in [&a.r.0, &a.w.0] {
            p.d().rcut = Cut::Slow(16);
            p.d().wcut = Cut::Slow(16);
        }
    }
    let (mut ar, mut aw) = enc(a).protocol_into_split();
    let (mut br, mut bw) = enc(b).protocol_into_split();
    let (x, y) = (sym::vec(1 + sym::choose(2)), sym::vec(1 + sym::choose(2)));
    let (xs, ys) = (x.len(), y.len());
    let (x2, y2) = (x.clone(), y.clone());
    let mut jobs: Vec<Job<Vec<u8>>> = vec![
        Job::new(0, async move {
            let _ = aw.write_all(&x2).await;
            let _ = aw.flush().await;
            std::mem::forget(aw);
            Vec::new()
        }),
        Job::new(1, async move {
            let _ = bw.write_all(&y2).await;
            let _ = bw.flush().await;
            std::mem::forget(bw);
            Vec::new()
        }),
        Job::new(2, async move {
            let mut v = vec![0; ys];
            let r = ar.read_exact(&mut v).await;
            std::mem::forget(ar);
            if r.is_ok() {
                v
            } else {
                Vec::new()
            }
        }),
        Job::new(3, async move {
            let mut v = vec![0; xs];
            let r = br.read_exact(&mut v).await;
            std::mem::forget(br);
            if r.is_ok() {
                v
            } else {
                Vec::new()
            }
        }),
    ];
    for _ in 0..sym::bound(8, 10) {
        let can: Vec<bool> = jobs.iter().map(|j| j.ready()).collect();
        match pick(&can) {
            Some(i) => {
                jobs[i].step();
            }
            None => break,
        }
    }
    drive(&mut jobs);
    sym::check(jobs.iter().all(|j| j.done()), "both directions get through");
    sym::check(same(jobs[3].out.as_ref().unwrap(), &x), "what one end wrote arrives at the other");
    sym::check(same(jobs[2].out.as_ref().unwrap(), &y), "and the other way round");
    sym::reach("both arrived");
}

fn keys(secret: [u8; 32], known: Vec<PublicKey>, allow_unknown: bool) -> Keys {
    Keys { secret: StaticSecret::from(secret), known_peers: known, allow_unknown }
}
fn public(secret: [u8; 32]) -> PublicKey {
    PublicKey::from(&StaticSecret::from(secret))
}
fn options(k: Keys) -> EncryptionOptions<Opt> {
    EncryptionOptions { keys: k, inner_options: Opt::default() }
}
const A: [u8; 32] = [0x11; 32];
const B: [u8; 32] = [0x2b; 32];

fn enc_server(known: Vec<PublicKey>, allow: bool) {
    let b = IPCBuilder::<Listener>::new()
        .address(7)
        .server_options(options(keys(B, known, allow)))
        .on("req", |c, e| Box::pin(act(0, c, e)));
    tokio::spawn(async move {
        let _ = b.build_server().await;
    });
    settle();
}

/// An IPC server and client work over the encryption: requests, replies and streams of replies.
/// @bounds 1 request of 0 to 2 symbolic bytes or long enough to cross the buffer of the encryption (1024), answered by 0 or 1 emitted event and a response; transport cut at 6 kinds of places
/// @deep 12 kinds of cuts
#[no_mangle]
pub fn c17_ipc() {
    enc_server(vec![public(A)], false);
    let (s, c) = pair();
    match sym::choose(sym::bound(4, 12)) {
        0 => {}
        1 => s.r.0.d().rcut = Cut::Slow(50),
        2 => s.w.0.d().wcut = Cut::Slow(50),
        3 => s.w.0.d().rcut = Cut::At([1, 20, 36]),
        k => {
            s.r.0.d().rcut = Cut::At([k * 4, k * 9, 90 + k]);
            s.w.0.d().rcut = Cut::At([k * 4, k * 9, 90 + k]);
        }
    }
    net().to_connect.push(c);
    give(s);
    let ctx = done(
        IPCBuilder::<Listener>::new().address(7).client_options(options(keys(A, vec![public(B)], false))).build_client(),
        "an authorised client connects",
    );
    let ctx = match ctx {
        Ok(c) => c,
        Err(_) => sym::fail("an authorised client connects"),
    };
    let req = bytes([0, 2, 980, 1100][sym::choose(4)]);
    let rep = bytes([1, 1300][sym::choose(2)]);
    world().acts[0].data = Some(rep.clone());
    let more = sym::flag();
    if more {
        world().acts[0].emits = vec![(false, vec![5])];
    }
    let (c2, r2) = (ctx.clone(), req.clone());
    let got = done(
        async move {
            let mut s = c2.emit("req", BytePayload::new(r2)).stream_replies().await?;
            let mut v = Vec::new();
            while let Some(e) = futures_next(&mut s).await {
                v.push(e?);
            }
            Ok::<_, IPCError>(v)
        },
        "the request is answered",
    );
    let got = match got {
        Ok(v) => v,
        Err(_) => sym::fail("a request over the encryption succeeds"),
    };
    sym::check(world().log.len() == 1 && same(&world().log[0].1.data, &req), "the request arrives as it was sent");
    let n = if more { 1 } else { 0 };
    sym::check(got.len() == n + 1, "every reply arrives");
    sym::check(same(got[n].data_raw(), &rep), "a reply arrives as it was sent");
    sym::reach("answered");
    std::mem::forget(ctx);
}
async fn futures_next<S: futures_core::Stream + Unpin>(s: &mut S) -> Option<S::Item> {
    std::future::poll_fn(|cx| Pin::new(&mut *s).poll_next(cx)).await
}

// ---------------------------------------------------------------------------------------------

/// Splits what was sent into packages.
fn packages(w: &[u8]) -> Vec<Vec<u8>> {
    let mut v = Vec::new();
    let mut i = 0;
    while i + 4 <= w.len() {
        let n = u32::from_be_bytes([w[i], w[i + 1], w[i + 2], w[i + 3]]) as usize;
        if i + 4 + n > w.len() {
            break;
        }
        v.push(w[i..i + 4 + n].to_vec());
        i += 4 + n;
    }
    v
}
/// The packages of `n` flushed messages: 3 bytes each, of which two tell them apart.
fn messages(e: &mut Ends, n: usize) -> (Vec<Vec<u8>>, Vec<Vec<u8>>) {
    let mut plain = Vec::new();
    let mut sealed = Vec::new();
    for i in 0..n {
        let d = vec![i as u8, 0x40 + i as u8, sym::u8()];
        sym::check(matches!(now(e.a.write_all(&d)), Some(Ok(()))), "a write succeeds");
        sym::check(matches!(now(e.a.flush()), Some(Ok(()))), "a flush succeeds");
        plain.push(d);
        sealed.push(e.a_out.d().drain());
    }
    (plain, sealed)
}
/// Reads until nothing more comes: what was read before the first error, everything read, and
/// whether there was an error.
fn read_all(b: &mut Enc, errors: usize) -> (Vec<u8>, Vec<u8>, bool) {
    let (mut first, mut all, mut failed) = (Vec::new(), Vec::new(), 0);
    let mut buf = [0u8; 16];
    loop {
        match now(b.read(&mut buf)) {
            None => break,
            Some(Ok(n)) => {
                if failed == 0 {
                    first.extend_from_slice(&buf[..n]);
                }
                all.extend_from_slice(&buf[..n]);
            }
            Some(Err(_)) => failed += 1,
        }
        if failed > errors {
            break;
        }
    }
    (first, all, failed > 0)
}
fn prefix(got: &[u8], plain: &[Vec<u8>]) -> bool {
    let all = plain.concat();
    got.len() <= all.len() && got.len() % 3 == 0 && same(got, &all[..got.len()])
}
/// Whether `got` are some of the messages, none twice, in their order.
fn in_order(got: &[u8], plain: &[Vec<u8>]) -> bool {
    let mut i = 0;
    for g in got.chunks(3) {
        while i < plain.len() && !same(g, &plain[i]) {
            i += 1;
        }
        if i == plain.len() {
            return false;
        }
        i += 1;
    }
    true
}

/// One byte of what was sent is changed, in any way.
/// @bounds 2 packages of 3 bytes (one symbolic), any single byte changed to any other value
/// @deep 3 packages
/// @steps 60000000
#[no_mangle]
pub fn c18_changed() {
    sym::alloc_limit(1 << 18);
    let mut e = apart();
    let (plain, sealed) = messages(&mut e, sym::bound(2, 3));
    let mut w = sealed.concat();
    let k = sym::choose(w.len());
    let x = sym::u8();
    sym::assume(x != 0);
    w[k] ^= x;
    e.b_in.d().push(&w);
    e.b_in.d().close();
    let (first, all, failed) = read_all(&mut e.b, 6);
    sym::check(prefix(&first, &plain), "only what was sent is delivered");
    sym::check(first.len() <= k / (3 + 20) * 3, "nothing of a changed package is delivered");
    sym::check(in_order(&all, &plain), "also after an error only what was sent is delivered");
    sym::check(failed, "the change is noticed");
    sym::reach("read");
}
/// Packages dropped, repeated and exchanged.
/// @bounds 3 packages, any sequence of 3 of them
/// @deep 3 packages, any sequence of 4 of them
#[no_mangle]
pub fn c18_order() {
    let mut e = apart();
    let (plain, sealed) = messages(&mut e, 3);
    let mut good = 0;
    let mut ok = true;
    for i in 0..sym::bound(3, 4) {
        let k = sym::choose(3);
        e.b_in.d().push(&sealed[k]);
        ok &= k == i;
        if ok {
            good += 1;
        }
    }
    e.b_in.d().close();
    let (first, all, failed) = read_all(&mut e.b, 6);
    sym::check(same(&first, &plain[..good].concat()), "exactly the packages that come in their order are delivered");
    sym::check(in_order(&all, &plain), "no package is delivered twice or before one sent earlier");
    sym::check(failed, "the end or the disorder is an error");
    if good == 3 {
        sym::reach("all in order");
    } else {
        sym::reach("out of order");
    }
}
/// Any bytes at all instead of, or before, what was sent.
/// @bounds 0 to 1 genuine packages, then 1, 4, 5, 20, 23 or 24 arbitrary bytes, then the genuine package
/// @deep up to 48 arbitrary bytes
/// @shards 8 8
#[no_mangle]
pub fn c18_forged() {
    sym::alloc_limit(1 << 18);
    let mut e = apart();
    let (plain, sealed) = messages(&mut e, 2);
    let before = sym::choose(2);
    if before == 1 {
        e.b_in.d().push(&sealed[0]);
    }
    let n = sym::choose(sym::bound(6, 49));
    let f = sym::vec(if sym::bound(0, 1) == 1 { n } else { [1, 4, 5, 20, 23, 24][n] });
    // the genuine package itself is not a forgery
    let g = &sealed[before];
    if f.len() >= g.len() {
        sym::assume(!same(&f[..g.len()], g));
    } else {
        sym::assume(f.len() > 0 && !same(&f, &g[..f.len()]));
    }
    e.b_in.d().push(&f);
    e.b_in.d().push(g);
    e.b_in.d().close();
    let (first, _, failed) = read_all(&mut e.b, 0);
    sym::check(same(&first, &plain[..before].concat()), "nothing the peer did not send is delivered");
    sym::check(failed, "the forgery is noticed");
    sym::reach("read");
}
/// Packages of different sizes, also larger than the buffers, changed, dropped, repeated or exchanged.
/// @bounds 3 packages of 1, 1500 and 3 bytes (or 1100, 3 and 5000); one byte at one of 7 places of any of them (the first of the length field among them) changed to any other value; or any 3 of them in any order; or one of them cut short at either end
/// @shards 2 4
#[no_mangle]
pub fn c18_sizes() {
    sym::alloc_limit(1 << 18);
    let mut e = apart();
    let sizes = [[1, 1500, 3], [1100, 3, 5000]][sym::choose(2)];
    let mut plain: Vec<Vec<u8>> = Vec::new();
    let mut sealed: Vec<Vec<u8>> = Vec::new();
    for (i, n) in sizes.iter().enumerate() {
        let d = big(*n, 17 * i as u8 + 1);
        sym::check(matches!(now(e.a.write_all(&d)), Some(Ok(()))), "a write succeeds");
        sym::check(matches!(now(e.a.flush()), Some(Ok(()))), "a flush succeeds");
        plain.push(d);
        sealed.push(e.a_out.d().drain());
    }
    let mut sent = sealed.clone();
    let mut good = 3;
    match sym::choose(3) {
        0 => {
            let k = sym::choose(3);
            let n = sent[k].len();
            let at = [0, 4, 5, n / 2, n - 17, n - 16, n - 1][sym::choose(7)];
            let x = sym::u8();
            sym::assume(x != 0);
            sent[k][at] ^= x;
            good = k;
        }
        1 => {
            let p = [sym::choose(3), sym::choose(3), sym::choose(3)];
            good = (0..3).take_while(|i| p[*i] == *i).count();
            sent = p.iter().map(|k| sealed[*k].clone()).collect();
        }
        _ => {
            let k = sym::choose(3);
            if sym::flag() {
                sent[k].pop();
            } else {
                // a shorter package, its length changed accordingly
                let n = sent[k].len() - 5;
                sent[k].truncate(4 + n);
                sent[k][..4].copy_from_slice(&(n as u32).to_be_bytes());
            }
            good = k;
        }
    }
    e.b_in.d().push(&sent.concat());
    e.b_in.d().close();
    let mut got = Vec::new();
    let mut buf = vec![0u8; 2000];
    let failed = loop {
        match now(e.b.read(&mut buf)) {
            None => break false,
            Some(Ok(n)) => got.extend_from_slice(&buf[..n]),
            Some(Err(_)) => break true,
        }
    };
    sym::check(same(&got, &plain[..good].concat()), "exactly the packages before the first wrong one are delivered");
    sym::check(failed, "the end or the change is an error");
    sym::reach("read");
}
/// The stream ends in the middle of a package, or announces more than ever comes.
/// @bounds 2 packages cut at any byte, where the stream ends or fails in 4 ways; any announced length before an early end
/// @also C17
#[no_mangle]
pub fn c18_truncated() {
    sym::alloc_limit(1 << 18);
    let mut e = apart();
    let (plain, sealed) = messages(&mut e, 2);
    let mut w = sealed.concat();
    let whole;
    if sym::flag() {
        let k = sym::choose(w.len());
        w.truncate(k);
        whole = k / sealed[0].len();
    } else {
        let l = sym::u32();
        sym::assume(l > 100);
        w.truncate(sealed[0].len());
        w.extend_from_slice(&l.to_be_bytes());
        w.extend_from_slice(&sealed[1][4..]);
        whole = 1;
    }
    e.b_in.d().push(&w);
    let (first, _, failed) = read_all(&mut e.b, 6);
    sym::check(!failed, "an incomplete package is waited for");
    e.b_in.d().end();
    let (more, _, failed) = read_all(&mut e.b, 6);
    sym::check(failed, "the early end is an error");
    sym::check(more.is_empty(), "nothing of an incomplete package is delivered");
    sym::check(same(&first, &plain[..whole].concat()), "the packages before are delivered");
    sym::reach("read");
}
/// Packages sent back to the one who wrote them.
/// @bounds 1 package of 3 bytes reflected
#[no_mangle]
pub fn c18_reflected() {
    let mut e = apart();
    let (_, sealed) = messages(&mut e, 1);
    e.a_in.d().push(&sealed[0]);
    e.a_in.d().close();
    let (first, all, _) = read_all(&mut e.a, 6);
    sym::check(first.is_empty() && all.is_empty(), "an end does not accept its own packages as the peer's");
}

// ---------------------------------------------------------------------------------------------

/// No (key, nonce) pair is used for two packages, whatever is written, flushed, fails or is
/// given up.
/// @bounds 5 operations out of: write 1, write 1100, flush, shutdown, change of the key, each polled once or until it ends; the transport full after 0, 30 or 1200 bytes and failing after 20 bytes, or not
/// @deep 6 operations
/// @shards 8 8
/// @seconds 300 3000
#[no_mangle]
pub fn c19_sequence() {
    let (s, _i, o) = lone();
    let mut e = enc(s);
    match sym::choose(4) {
        0 => {}
        1 => o.d().fail_at = Some(20),
        2 => o.d().window = 30,
        _ => o.d().window = 0,
    }
    let mut key = 9;
    for _ in 0..sym::bound(4, 5) {
        let k = sym::choose(5);
        let full = sym::flag();
        match k {
            0 | 1 => {
                let d = vec![7u8; if k == 0 { 1 } else { 1100 }];
                let mut f = Box::pin(e.write(&d));
                poll_some(full, f.as_mut());
            }
            2 => {
                let mut f = Box::pin(e.flush());
                poll_some(full, f.as_mut());
            }
            3 => {
                let mut f = Box::pin(e.shutdown());
                poll_some(full, f.as_mut());
            }
            _ => {
                o.d().open_window(usize::MAX);
                // only between packages, as the key exchange does
                if let Some(Ok(())) = now(e.flush()) {
                    key += 1;
                    e.update_key(vec![key; 32].into());
                    sym::reach("key changed");
                }
            }
        }
    }
    o.d().open_window(usize::MAX);
    let _ = now(e.flush());
    sym::check(aead::nonce_reuses() == 0, "no key and nonce are used for two packages");
    if aead::encryptions() > 2 {
        sym::reach("several packages");
    }
}
fn poll_some<T>(full: bool, f: Pin<&mut dyn Future<Output = T>>) {
    if full {
        let _ = now(f);
    } else {
        let _ = poll_main(0, f);
    }
}

/// A server and a client as they come out of the key exchange; the pipes from client to server
/// and back.
fn handshake(ka: Keys, kb: Keys) -> (Option<IPCResult<Enc>>, Option<IPCResult<Enc>>, Pipe, Pipe) {
    let (a, b) = pair();
    let (up, down) = (a.w.0.clone(), b.w.0.clone());
    let (c, s) = shake(a, b, ka, kb);
    (c, s, up, down)
}
fn shake(a: MemStream, b: MemStream, ka: Keys, kb: Keys) -> (Option<IPCResult<Enc>>, Option<IPCResult<Enc>>) {
    let mut jobs: Vec<Job<IPCResult<Enc>>> = vec![
        Job::new(0, async move { Enc::from_client_key_exchange(a, &ka).await }),
        Job::new(1, async move { Enc::from_server_key_exchange(b, &kb).await }),
    ];
    drive(&mut jobs);
    let mut i = jobs.into_iter();
    (i.next().unwrap().out, i.next().unwrap().out)
}
fn both(r: (Option<IPCResult<Enc>>, Option<IPCResult<Enc>>, Pipe, Pipe)) -> (Enc, Enc, Pipe, Pipe) {
    match r {
        (Some(Ok(a)), Some(Ok(b)), u, d) => (a, b, u, d),
        _ => sym::fail("a key exchange of peers that know each other succeeds"),
    }
}
/// Sends a byte and receives it.
fn across(a: &mut Enc, b: &mut Enc, x: u8) {
    sym::check(matches!(now(a.write_all(&[x])), Some(Ok(()))), "a write succeeds");
    sym::check(matches!(now(a.flush()), Some(Ok(()))), "a flush succeeds");
    let mut r = [0];
    match done(b.read(&mut r), "what was flushed can be read") {
        Ok(1) => sym::check(r[0] == x, "the channel works after the key exchange"),
        _ => sym::fail("the channel works after the key exchange"),
    }
}

/// The key exchange included: one side sends after it, also on several connections between the
/// same peers, which have keys of their own.
/// @bounds 2 connections between the same two peers, 1 to 2 packages from either the client or the server after the key exchange
#[no_mangle]
pub fn c19_exchange() {
    let side = sym::flag();
    let (sa, sb) = (A, B);
    let mut data_keys = Vec::new();
    for _ in 0..2 {
        let n0 = aead::encryptions();
        let (mut a, mut b, _, _) = both(handshake(keys(sa, vec![public(sb)], false), keys(sb, vec![public(sa)], false)));
        sym::check(aead::encryptions() == n0 + 1, "the key exchange sends one package");
        let init = aead::key(n0);
        for i in 0..1 + sym::choose(2) {
            if side {
                across(&mut a, &mut b, i as u8);
            } else {
                across(&mut b, &mut a, i as u8);
            }
        }
        let n1 = aead::encryptions();
        for i in n0 + 1..n1 {
            sym::check(!same(&aead::key(i), &init), "the key of the exchange protects nothing else");
            for j in n0 + 1..i {
                sym::check(same(&aead::key(i), &aead::key(j)), "the key stays the same after the exchange");
                sym::check(!same(&aead::nonce(i), &aead::nonce(j)), "no nonce is used twice");
            }
        }
        data_keys.push(aead::key(n0 + 1));
        std::mem::forget((a, b));
    }
    sym::check(!same(&data_keys[0], &data_keys[1]), "every connection has a key of its own");
    sym::reach("compared");
}
/// Also in the long run.
/// @bounds 65537 packages with one key
/// @steps 4000000000
/// @seconds 400 2000
#[no_mangle]
pub fn c19_long() {
    let (s, _i, o) = lone();
    let mut e = enc(s);
    aead::count_nonces();
    let w = waker(MAIN);
    let mut cx = std::task::Context::from_waker(&w);
    for _ in 0..65537u32 {
        let a = Pin::new(&mut e).poll_write(&mut cx, &[1]).is_ready();
        let b = Pin::new(&mut e).poll_flush(&mut cx).is_ready();
        sym::check(a && b, "writing and flushing to a transport that takes everything completes");
        o.d().data.clear();
    }
    let (n, reused) = aead::counted();
    sym::check(n == 65537 && reused == 0, "no nonce repeats in a long run");
    sym::reach("counted");
}
/// The same pair in both directions of a connection.
/// @bounds 1 package in each direction
#[no_mangle]
pub fn c19_directions() {
    let mut e = apart();
    sym::check(matches!(now(e.a.write_all(&[1])), Some(Ok(()))), "a write succeeds");
    sym::check(matches!(now(e.a.flush()), Some(Ok(()))), "a flush succeeds");
    sym::check(matches!(now(e.b.write_all(&[2])), Some(Ok(()))), "a write succeeds");
    sym::check(matches!(now(e.b.flush()), Some(Ok(()))), "a flush succeeds");
    sym::check(aead::nonce_reuses() == 0, "the two directions do not share a key and nonce");
}
/// The same pair for the secrets of two connections between the same peers.
/// @bounds 2 key exchanges between the same two peers
#[no_mangle]
pub fn c19_initial() {
    for _ in 0..2 {
        let r = both(handshake(keys(A, vec![public(B)], false), keys(B, vec![public(A)], false)));
        std::mem::forget(r);
    }
    sym::check(aead::nonce_reuses() == 0, "the secrets of two connections are not encrypted with the same key and nonce");
}

// ---------------------------------------------------------------------------------------------

/// A peer with any key, at either side: accepted exactly if allowed, refused by name otherwise,
/// before anything secret is sent.
/// @bounds any 32-byte key presented to a server or a client that knows 0 to 2 keys (any) and allows unknown peers or not
/// @also C21
#[no_mangle]
pub fn c20_authorised() {
    let presented: [u8; 32] = sym::bytes();
    let n = sym::choose(3);
    let known: Vec<[u8; 32]> = (0..n).map(|_| sym::bytes()).collect();
    let allow = sym::flag();
    let is_known = known.iter().fold(false, |r, k| r | same(k, &presented));
    let k = keys(B, known.iter().map(|k| PublicKey::from(*k)).collect(), allow);
    let (s, i, o) = lone();
    i.d().push(&presented);
    let server = sym::flag();
    let mut f: Pin<Box<dyn Future<Output = IPCResult<Enc>>>> = if server {
        Box::pin(async move { Enc::from_server_key_exchange(s, &k).await })
    } else {
        Box::pin(async move { Enc::from_client_key_exchange(s, &k).await })
    };
    let r = now(f.as_mut());
    let sent = o.d().data.len();
    let ok = allow || is_known;
    match r {
        Some(Err(IPCError::UnknownPeer(p))) => {
            sym::check(!ok, "an authorised peer is not refused");
            sym::check(same(p.as_bytes(), &presented), "the refusal names the key that was presented");
            sym::check(aead::encryptions() == 0, "nothing secret is sent to an unauthorised peer");
            sym::check(sent == if server { 0 } else { 32 }, "an unauthorised peer is sent no more than the public key");
            sym::reach("refused");
        }
        Some(Err(_)) => sym::fail("a key exchange with a working peer does not fail otherwise"),
        Some(Ok(_)) => {
            sym::check(server, "a client waits for the secret");
            sym::check(ok, "only authorised peers are accepted");
            sym::check(same(&o.d().data[..32], public(B).as_bytes()), "the own key is presented");
            sym::reach("accepted");
        }
        None => {
            sym::check(!server, "the server does not wait for more than the key");
            sym::check(ok, "an unauthorised server is refused at once");
            sym::check(same(&o.d().data, public(B).as_bytes()), "the own key is presented");
            sym::reach("waiting");
        }
    }
}
/// Two real peers: both succeed and agree, or the one that does not know the other fails.
/// @bounds any secrets (each repeated in 32 bytes), each side knowing the other's key, another one or none; transport cut in 3 ways; then one byte in each direction
#[no_mangle]
pub fn c20_agree() {
    let (sa, sb) = ([sym::u8(); 32], [sym::u8(); 32]);
    let other = public([sym::u8(); 32]);
    let list = |p: PublicKey| match sym::choose(3) {
        0 => vec![],
        1 => vec![p],
        _ => vec![other, p],
    };
    let (la, lb) = (list(public(sb)), list(public(sa)));
    let (ua, ub) = (sym::flag(), sym::flag());
    let (oka, okb) = (ua || !la.is_empty(), ub || !lb.is_empty());
    let (a, b) = pair();
    match sym::choose(3) {
        0 => {}
        1 => {
            a.r.0.d().rcut = Cut::Slow(5);
            b.r.0.d().wcut = Cut::Slow(9);
        }
        _ => {
            a.r.0.d().rcut = Cut::At([1, 32, 36]);
            b.r.0.d().rcut = Cut::At([31, 32, 33]);
        }
    }
    let (ra, rb) = shake(a, b, keys(sa, la, ua), keys(sb, lb, ub));
    match (ra, rb) {
        (Some(Ok(mut a)), Some(Ok(mut b))) => {
            sym::check(oka && okb, "both sides have to be authorised");
            across(&mut a, &mut b, sym::u8());
            across(&mut b, &mut a, sym::u8());
            sym::reach("agreed");
        }
        (ra, rb) => {
            sym::check(!(oka && okb), "peers that know each other get a connection");
            if !okb {
                sym::check(matches!(rb, Some(Err(IPCError::UnknownPeer(p))) if same(p.as_bytes(), public(sa).as_bytes())), "an unknown client is refused by name");
                sym::check(!matches!(ra, Some(Ok(_)) | None), "the refused client is told by the end of the connection");
            } else {
                sym::check(matches!(ra, Some(Err(IPCError::UnknownPeer(p))) if same(p.as_bytes(), public(sb).as_bytes())), "an unknown server is refused by name");
            }
            sym::reach("refused");
        }
    }
}
/// Somebody between the two changes what they say, or ends the connection.
/// @bounds one byte of the exchange (either direction) changed in any way, or the connection ended before it, unknown peers allowed or not
/// @also C18
#[no_mangle]
pub fn c20_interfered() {
    let allow = sym::flag();
    let (c, c_in, c_out) = lone();
    let (s, s_in, s_out) = lone();
    let (ka, kb) = (keys(A, vec![public(B)], allow), keys(B, vec![public(A)], allow));
    let x = sym::u8();
    sym::assume(x != 0);
    let up = sym::flag();
    let at = if up { sym::choose(32) } else { sym::choose(32 + 52) };
    let end = sym::flag();
    let mut jobs: Vec<Job<IPCResult<Enc>>> = vec![
        Job::new(0, async move { Enc::from_client_key_exchange(c, &ka).await }),
        Job::new(1, async move { Enc::from_server_key_exchange(s, &kb).await }),
    ];
    drive(&mut jobs);
    for dir in [true, false] {
        let mut w = if dir { c_out.d().drain() } else { s_out.d().drain() };
        let to = if dir { &s_in } else { &c_in };
        if dir == up && at < w.len() {
            if end {
                w.truncate(at);
            } else {
                w[at] ^= x;
            }
        }
        to.d().push(&w);
        drive(&mut jobs);
        to.d().close();
        drive(&mut jobs);
    }
    sym::check(jobs[0].done() && jobs[1].done(), "an exchange that cannot go on fails");
    let ok = |j: &Job<IPCResult<Enc>>| matches!(j.out, Some(Ok(_)));
    sym::check(!ok(&jobs[0]), "a client whose exchange was interfered with does not get a connection");
    if end && up {
        sym::check(!ok(&jobs[1]), "a server that did not get a whole key does not make a connection");
    }
    if up && !end && !allow {
        sym::check(!ok(&jobs[1]), "a key that is not known is refused");
        sym::check(aead::encryptions() == 0, "nothing secret is sent");
    }
    sym::reach("failed");
}

// ---------------------------------------------------------------------------------------------

/// Connections that fail, and then one that must work.
/// @bounds 0 to 2 connections that present an unknown key, end or fail after 0, 1 or 31 bytes, or end before they are answered; then an authorised client with a request
/// @also C20
#[no_mangle]
pub fn c21_failed() {
    enc_server(vec![public(A)], false);
    let n = sym::choose(3);
    let mut keep = Vec::new();
    for _ in 0..n {
        let (i, o) = incoming();
        match sym::choose(4) {
            0 => {
                let k: [u8; 32] = sym::bytes();
                sym::assume(!same(&k, public(A).as_bytes()));
                i.d().push(&k);
            }
            1 => {
                i.d().push(&sym::vec([0, 1, 31][sym::choose(3)]));
                i.d().end();
            }
            2 => {
                i.d().push(public(A).as_bytes());
                o.d().fail_at = Some([0, 5, 32, 40][sym::choose(4)]);
            }
            _ => {
                i.d().push(public(A).as_bytes());
                i.d().close();
                o.d().reader_gone = true;
            }
        }
        settle();
        keep.push((i, o));
    }
    serve_one(keep);
}
/// Many connections that fail, and then one that must work.
/// @bounds 3, 40, 300 or 1030 connections that all present an unknown key, all end early, all go away before they are answered, or do the three in turn; then an authorised client with a request
/// @deep also 6 and 13 connections
/// @shards 4 8
/// @seconds 300 3000
#[no_mangle]
pub fn c21_many() {
    enc_server(vec![public(A)], false);
    let n = [3, 40, 300, 1030, 6, 13][sym::choose(sym::bound(4, 6))];
    let kind = sym::choose(4);
    let mut keep = Vec::new();
    for k in 0..n {
        let (i, o) = incoming();
        match if kind == 3 { k % 3 } else { kind } {
            0 => i.d().push(&[0x3c; 32]),
            1 => {
                i.d().push(&public(A).as_bytes()[..k % 32]);
                i.d().close();
            }
            _ => {
                o.d().fail_at = Some(0);
                i.d().push(public(A).as_bytes());
                i.d().close();
            }
        }
        settle();
        keep.push((i, o));
    }
    serve_one(keep);
}
/// An authorised client connects and is served.
fn serve_one(keep: Vec<(Pipe, Pipe)>) {
    let (s, c) = pair();
    net().to_connect.push(c);
    give(s);
    let ctx = match now(
        IPCBuilder::<Listener>::new().address(7).client_options(options(keys(A, vec![public(B)], false))).build_client(),
    ) {
        Some(Ok(c)) => c,
        _ => sym::fail("an authorised client is served after others failed"),
    };
    let x = sym::u8();
    world().acts[0].data = Some(vec![x]);
    match now(async { ctx.emit("req", BytePayload::new(vec![1])).await_reply().await }) {
        Some(Ok(e)) => sym::check(same(e.data_raw(), &[x]), "its requests are answered"),
        _ => sym::fail("its requests are answered"),
    }
    sym::reach("served");
    std::mem::forget((ctx, keep));
}

// ---------------------------------------------------------------------------------------------

/// Flush and shutdown mean that everything is out; giving up an operation loses nothing.
/// @bounds 4 operations out of: write 1 byte (symbolic) or 1030, flush, shutdown (last), each given up after the first poll or after the transport took more, or run to its end; the transport takes 0, 10, 1040 or all bytes at first
/// @deep 5 operations
/// @shards 8 8
/// @seconds 300 3000
/// @also C17
#[no_mangle]
pub fn c28_cancel() {
    let (s, _i, o) = lone();
    let (r, r_in, _) = lone();
    let mut e = enc(s);
    let mut far = enc(r);
    o.d().window = [usize::MAX, 0, 10, 1040][sym::choose(4)];
    let mut accepted: Vec<u8> = Vec::new();
    for i in 0..sym::bound(4, 5) {
        let op = sym::choose(4);
        let how = sym::choose(3);
        let c = sym::u8();
        // given up after one poll; after more room and another poll; or run to its end
        let f: Pin<Box<dyn Future<Output = std::io::Result<usize>> + '_>> = match op {
            0 | 1 => {
                let d: Vec<u8> = if op == 0 { vec![c] } else { vec![i as u8; 1030] };
                let e = &mut e;
                Box::pin(async move { e.write(&d).await })
            }
            2 => Box::pin(async { e.flush().await.map(|_| 0) }),
            _ => Box::pin(async { e.shutdown().await.map(|_| 0) }),
        };
        let mut f = f;
        let mut r = poll_main(0, f.as_mut());
        if r.is_pending() && how > 0 {
            o.d().open_window(if how == 1 { o.d().window.saturating_add(15) } else { usize::MAX });
            r = if how == 1 {
                poll_main(0, f.as_mut())
            } else {
                match now(f.as_mut()) {
                    Some(v) => Poll::Ready(v),
                    None => sym::fail("an operation completes when the transport takes the bytes"),
                }
            };
        }
        drop(f);
        match r {
            Poll::Ready(Ok(n)) => {
                if op < 2 {
                    accepted.extend(std::iter::repeat(if op == 0 { c } else { i as u8 }).take(n));
                } else {
                    sym::check(plain_len(&o.d().data) == accepted.len(), "a flush is complete when all accepted bytes are out");
                    sym::check(o.d().flushed == o.d().data.len(), "a flush flushes the inner stream");
                    if op == 3 {
                        sym::check(o.d().shutdown, "a shutdown shuts the inner stream down");
                        sym::reach("shut down");
                    } else {
                        sym::reach("flushed");
                    }
                }
            }
            Poll::Ready(Err(_)) => sym::fail("a working transport gives no errors"),
            Poll::Pending => sym::reach("given up"),
        }
        if op == 3 {
            break;
        }
    }
    o.d().open_window(usize::MAX);
    match now(e.shutdown()) {
        Some(Ok(())) => {}
        Some(Err(_)) => sym::fail("the final shutdown succeeds"),
        None => sym::fail("the final shutdown completes"),
    }
    sym::check(o.d().shutdown, "a shutdown shuts the inner stream down");
    r_in.d().push(&o.d().drain());
    r_in.d().close();
    let mut got = Vec::new();
    let mut buf = vec![0; 4096];
    while let Some(Ok(n)) = now(far.read(&mut buf)) {
        sym::check(n > 0, "a read of available data returns some");
        got.extend_from_slice(&buf[..n]);
    }
    sym::check(same(&got, &accepted), "every accepted byte arrives once and in order");
    sym::reach("compared");
}
/// Long writes given up, and continued.
/// @bounds 3 operations out of: write 70000 or 3000 bytes, flush; each given up after the first poll, after the transport took 5000 bytes more, or run to its end; the transport takes 0, 1000, 66000 or all bytes at first
/// @shards 4 8
/// @also C17
#[no_mangle]
pub fn c28_large() {
    aead::trust_transport();
    let (s, _i, o) = lone();
    let (r, r_in, _) = lone();
    let mut e = enc(s);
    let mut far = enc(r);
    o.d().window = [usize::MAX, 0, 1000, 66000][sym::choose(4)];
    let mut accepted: Vec<u8> = Vec::new();
    for i in 0..3 {
        let op = sym::choose(3);
        let how = sym::choose(3);
        let d = big([70000, 3000, 0][op], i);
        let f: Pin<Box<dyn Future<Output = std::io::Result<usize>> + '_>> = match op {
            2 => Box::pin(async { e.flush().await.map(|_| 0) }),
            _ => {
                let (e, d) = (&mut e, &d);
                Box::pin(async move { e.write(d).await })
            }
        };
        let mut f = f;
        let mut r = poll_main(0, f.as_mut());
        if r.is_pending() && how > 0 {
            o.d().open_window(if how == 1 { o.d().window.saturating_add(5000) } else { usize::MAX });
            r = if how == 1 {
                poll_main(0, f.as_mut())
            } else {
                match now(f.as_mut()) {
                    Some(v) => Poll::Ready(v),
                    None => sym::fail("an operation completes when the transport takes the bytes"),
                }
            };
        }
        drop(f);
        match r {
            Poll::Ready(Ok(n)) => {
                sym::check(n <= d.len() && (n > 0 || d.is_empty()), "no more is accepted than was given");
                accepted.extend_from_slice(&d[..n]);
                if op == 2 {
                    sym::check(plain_len(&o.d().data) == accepted.len(), "a flush is complete when all accepted bytes are out");
                    sym::check(o.d().flushed == o.d().data.len(), "a flush flushes the inner stream");
                }
            }
            Poll::Ready(Err(_)) => sym::fail("a working transport gives no errors"),
            Poll::Pending => sym::reach("given up"),
        }
    }
    o.d().open_window(usize::MAX);
    sym::check(matches!(now(e.shutdown()), Some(Ok(()))), "the final shutdown succeeds");
    sym::check(o.d().shutdown, "a shutdown shuts the inner stream down");
    r_in.d().push(&o.d().drain());
    r_in.d().close();
    let mut got = Vec::new();
    let mut buf = vec![0; 8192];
    while let Some(Ok(n)) = now(far.read(&mut buf)) {
        sym::check(n > 0, "a read of available data returns some");
        got.extend_from_slice(&buf[..n]);
    }
    sym::check(got == accepted, "every accepted byte arrives once and in order");
    sym::reach("compared");
}
/// Plaintext bytes in complete packages.
fn plain_len(w: &[u8]) -> usize {
    packages(w).iter().map(|p| p.len() - 20).sum()
}
/// What the transport reports is reported, and nothing panics after it.
/// @bounds the transport fails after 0, 3, 23, 60 or 1044 bytes with any of 6 errors, for good or once (interrupted), or takes nothing, or only its flush and shutdown fail, or only its shutdown; 4 operations out of: write 1, write 1030, flush, shutdown
/// @deep 6 operations
/// @shards 2 8
#[no_mangle]
pub fn c28_errors() {
    let (s, _i, o) = lone();
    let mut e = enc(s);
    let limit = [0, 3, 23, 60, 1044][sym::choose(5)];
    o.d().fail_at = Some(limit);
    let how = sym::choose(9);
    if how >= 7 {
        sym::assume(limit == 0);
        o.d().fail_at = None;
        o.d().flush_fail = how == 7;
        o.d().shut_fail = how == 8;
    } else if how == 6 {
        o.d().fail_zero = true;
    } else {
        use std::io::ErrorKind::*;
        o.d().fail_kind = [ConnectionReset, BrokenPipe, TimedOut, UnexpectedEof, Other, Interrupted][how];
    }
    let mut accepted = 0;
    let mut reported = false;
    for _ in 0..sym::bound(4, 6) {
        if how == 5 && reported {
            // what comes after a package that was sent in part is up to the application
            return sym::reach("interrupted");
        }
        let op = sym::choose(4);
        match op {
            0 | 1 => match done(e.write(&vec![1; [1, 1030][op]]), "a write does not wait for a broken transport") {
                Ok(n) => accepted += n,
                Err(_) => reported = true,
            },
            2 => match done(e.flush(), "a flush does not wait for a broken transport") {
                Ok(()) => sym::check(how != 7 && (reported || plain_len(&o.d().data) == accepted), "a flush that lost bytes is an error"),
                Err(_) => reported = true,
            },
            _ => match done(e.shutdown(), "a shutdown does not wait for a broken transport") {
                Ok(()) => sym::check(how < 7 && (reported || plain_len(&o.d().data) == accepted), "a shutdown that lost bytes is an error"),
                Err(_) => reported = true,
            },
        }
    }
    if reported {
        sym::reach("reported");
        sym::check(plain_len(&o.d().data) <= accepted, "nothing is sent twice");
    } else {
        sym::reach("not reached");
    }
}
/// What the transport reports to a reader is reported, after what came before.
/// @bounds 2 packages of 3 bytes (one symbolic), the second one cut anywhere; the end of the stream or 4 kinds of failures; reads of 1 or 64 bytes, three more after the first error
/// @also C17
#[no_mangle]
pub fn c28_read_errors() {
    let mut e = apart();
    let (plain, sealed) = messages(&mut e, 2);
    let w = sealed.concat();
    let k = sealed[0].len() + sym::choose(sealed[1].len());
    e.b_in.d().push(&w[..k]);
    e.b_in.d().end();
    let eof = e.b_in.d().eof;
    let mut b = [0; 64];
    let n = [1, 64][sym::choose(2)];
    let mut got = Vec::new();
    let mut errors = 0;
    for _ in 0..plain[0].len() + 4 {
        match done(e.b.read(&mut b[..n]), "a read does not wait for a broken transport") {
            Ok(0) => {
                sym::check(eof && k == sealed[0].len() || errors > 0, "an error of the transport is not reported as an end");
                break;
            }
            Ok(m) => {
                sym::check(errors == 0, "nothing is delivered after an error");
                got.extend_from_slice(&b[..m]);
            }
            Err(_) => errors += 1,
        }
    }
    sym::check(same(&got, &plain[0]), "what came before the error is delivered");
    sym::check(errors > 0 || eof && k == sealed[0].len(), "an error of the transport is reported to the reader");
    sym::reach("compared");
}
/// The inner stream needs several polls to flush and to shut down.
/// @bounds 0 to 1 bytes and 1 long write before a flush or shutdown of an inner stream whose flush is pending first
/// @also C17
#[no_mangle]
pub fn c28_flush() {
    let (s, _i, o) = lone();
    let mut e = enc(s);
    o.d().flush_pending = sym::flag();
    if sym::flag() {
        o.d().wcut = Cut::Slow(1 + sym::choose(sym::bound(5, 40)));
    }
    let n = [0, 1, 40][sym::choose(3)];
    let d = bytes(n);
    sym::check(matches!(now(e.write_all(&d)), Some(Ok(()))), "a write succeeds");
    let down = sym::flag();
    let r = if down { now(e.shutdown()) } else { now(e.flush()) };
    sym::check(matches!(r, Some(Ok(()))), "a flush or shutdown completes");
    sym::check(plain_len(&o.d().data) == n, "all accepted bytes are out");
    sym::check(o.d().flushed == o.d().data.len(), "the inner stream was flushed");
    sym::check(o.d().shutdown == down, "the inner stream was shut down if asked to");
    sym::reach("done");
}

// ---------------------------------------------------------------------------------------------

/// Connections and packages that are over leave nothing behind.
/// @bounds 160 packages of 1, 1500 and 3000 bytes in each direction, read at once or in pieces, the transport moving everything or 1000 bytes at a time; or 100 connections whose key exchange fails in 3 ways, or succeeds and that end unused, after an event, or with a package that was changed
/// @shards 4 4
#[no_mangle]
pub fn c29_encrypted() {
    if sym::flag() {
        aead::trust_transport();
        let cuts = [Cut::Whole, Cut::Slow(1000)];
        let (cut, piece) = (cuts[sym::choose(2)], [40, 4096][sym::choose(2)]);
        let (a, b) = pair();
        let pipes = [a.w.0.clone(), b.w.0.clone()];
        for p in &pipes {
            p.d().rcut = cut;
            p.d().wcut = cut;
        }
        let (mut a, mut b) = (enc(a), enc(b));
        crate::leak::constant(160, |k| {
            let n = [1, 1500, 3000][k % 3];
            let (from, to) = if k % 2 == 0 { (&mut a, &mut b) } else { (&mut b, &mut a) };
            let sent = done(
                async {
                    from.write_all(&vec![k as u8; n]).await?;
                    from.flush().await
                },
                "writing and flushing complete",
            );
            sym::check(sent.is_ok(), "writing and flushing succeed");
            let mut left = n;
            while left > 0 {
                let mut buf = vec![0; left.min(piece)];
                match done(to.read(&mut buf), "what was flushed can be read") {
                    Ok(x) if x > 0 => left -= x,
                    _ => sym::fail("what was flushed can be read"),
                }
            }
            for p in &pipes {
                p.d().forget();
            }
        });
        return;
    }
    enc_server(vec![public(A)], false);
    let kind = sym::choose(6);
    crate::leak::constant(100, |k| {
        aead::reset();
        let (s, i, o) = if kind < 3 {
            let (i, o) = incoming();
            match kind {
                0 => i.d().push(&[0x3c; 32]),
                1 => i.d().push(&public(A).as_bytes()[..k % 32]),
                _ => {
                    i.d().push(public(A).as_bytes());
                    o.d().fail_at = Some(k % 60);
                }
            }
            settle();
            i.d().close();
            (None, i, o)
        } else {
            let (c, i, o) = lone();
            let (c2, i2, o2) = lone();
            give(c);
            let mut jobs = vec![Job::new(0, async move { Enc::from_client_key_exchange(c2, &keys(A, vec![public(B)], false)).await })];
            for _ in 0..4 {
                drive(&mut jobs);
                i.d().push(&o2.d().drain());
                i2.d().push(&o.d().drain());
            }
            drive(&mut jobs);
            let mut e = match jobs[0].out.take() {
                Some(Ok(e)) => e,
                _ => sym::fail("an authorised client connects"),
            };
            if kind > 3 {
                let f = crate::spec::frame(7, 1, None, None, "req", &[1]);
                let r = done(
                    async {
                        e.write_all(&f.encode()).await?;
                        e.flush().await
                    },
                    "writing and flushing complete",
                );
                sym::check(r.is_ok(), "writing and flushing succeed");
                let mut w = o2.d().drain();
                if kind == 5 {
                    *w.last_mut().unwrap() ^= 1;
                }
                i.d().push(&w);
                settle();
                sym::check(world().log.len() == usize::from(kind == 4), "an event arrives, and none of a changed package");
            }
            i.d().close();
            (Some(e), i, o)
        };
        settle();
        drop(s);
        sym::check(i.d().reader_gone && o.d().writer_gone, "a connection that is over is closed");
    });
    aead::reset();
}

// ---------------------------------------------------------------------------------------------

/// An encrypted connection whose transport takes nothing for a while: what comes in is received.
/// @bounds an IPC client and server over the encryption; on one side the transport takes 0, 1 or 30 more bytes; 1, 12 or 24 events arrive at that side meanwhile, the last one symbolic, and a reply to an earlier request of the client; then it takes everything
/// @also C17
#[no_mangle]
pub fn c30_encrypted() {
    enc_server(vec![public(A)], false);
    let (s, c) = pair();
    let (to_client, to_server) = (c.r.0.clone(), c.w.0.clone());
    net().to_connect.push(c);
    give(s);
    let b = IPCBuilder::<Listener>::new()
        .address(7)
        .client_options(options(keys(A, vec![public(B)], false)))
        .on("back", |c, e| Box::pin(act(1, c, e)));
    let ctx = match done(b.build_client(), "an authorised client connects") {
        Ok(c) => c,
        Err(_) => sym::fail("an authorised client connects"),
    };
    let n = [1, 12, 24][sym::choose(3)];
    let x = sym::u8();
    let window = [0, 1, 30][sym::choose(3)];
    if sym::flag() {
        // the server cannot send
        to_client.d().hold_after(window);
        for k in 0..n {
            let r = done(ctx.emit("req", BytePayload::new(vec![k as u8, x])), "an event is sent");
            sym::check(r.is_ok(), "an event is sent");
        }
        settle();
        sym::check(world().log.len() == n, "events are received and handled although nothing can be sent");
        sym::check(world().log[n - 1].1.data[1] == x, "the events are unchanged");
        let c2 = ctx.clone();
        let mut j = [Job::new(0, async move { c2.emit("req", BytePayload::new(vec![9])).await_reply().await })];
        drive(&mut j);
        sym::check(world().log.len() == n + 1 && !j[0].done(), "a request arrives although its reply cannot be sent");
        to_client.d().hold_after(usize::MAX);
        drive(&mut j);
        sym::check(matches!(j[0].out, Some(Ok(_))), "everything is sent once it can be");
    } else {
        // the client cannot send; the handler of its request emits events
        world().acts[0].gated = true;
        world().acts[0].emits = vec![(false, vec![x]); n];
        let c2 = ctx.clone();
        let mut j = [Job::new(0, async move { c2.emit("req", BytePayload::new(vec![9])).stream_replies().await })];
        drive(&mut j);
        let mut s = match j[0].out.take() {
            Some(Ok(s)) => s,
            _ => sym::fail("a request is sent"),
        };
        to_server.d().hold_after(window);
        let c2 = ctx.clone();
        let mut j = [Job::new(1, async move { c2.emit("req", BytePayload::new(vec![7; 40])).await })];
        drive(&mut j);
        sym::check(!j[0].done(), "an emit waits for the transport");
        for _ in 0..n {
            open_gate(0);
            settle();
            let r = done(futures_next(&mut s), "a reply is received although nothing can be sent");
            sym::check(matches!(r, Some(Ok(e)) if e.data_raw() == &[x][..]), "a reply is received although nothing can be sent");
        }
        open_gate(0);
        settle();
        let r = done(futures_next(&mut s), "the final reply is received although nothing can be sent");
        sym::check(matches!(r, Some(Ok(_))), "the final reply is received although nothing can be sent");
        to_server.d().hold_after(usize::MAX);
        drive(&mut j);
        sym::check(matches!(j[0].out, Some(Ok(_))), "everything is sent once it can be");
        settle();
        sym::check(world().log.len() == 2, "what was held up is handled");
    }
    sym::reach("done");
    std::mem::forget(ctx);
}
/// The two directions of an encrypted stream do not wait for each other.
/// @bounds the stream as it is or split; its transport takes 0, 1 or 20 bytes of a write of 1, 1500 or 3000 bytes that is to be flushed; 1 or 3 packages of 3 bytes (1 symbolic) arrive, read in pieces of 1 or 64 bytes; or nothing arrives and the read waits while a write and flush complete
/// @also C17 C28
#[no_mangle]
pub fn c30_directions() {
    let mut e = apart();
    let count = [1, 3][sym::choose(2)];
    let (plain, sealed) = messages(&mut e, count);
    let want = plain.concat();
    let out = e.b_out.clone();
    let d = vec![4; [1, 1500, 3000][sym::choose(3)]];
    let late = sym::flag();
    if !late {
        out.d().window = [0, 1, 20][sym::choose(3)];
    }
    let size = [1, 64][sym::choose(2)];
    let mut buf = vec![0; size];
    let mut got = Vec::new();
    macro_rules! both {
        ($r:expr, $w:expr) => {{
            if late {
                sym::check(now($r.read(&mut buf)).is_none(), "nothing is read that was not written");
            }
            let wrote = now(async {
                $w.write_all(&d).await?;
                $w.flush().await
            });
            sym::check(matches!(wrote, Some(Ok(()))) == late, "a write completes once the transport takes it, though nothing can be read");
            e.b_in.d().push(&sealed.concat());
            while got.len() < want.len() {
                match done($r.read(&mut buf), "what arrives is read although nothing can be sent") {
                    Ok(n) if n > 0 => got.extend_from_slice(&buf[..n]),
                    _ => sym::fail("what arrives is read although nothing can be sent"),
                }
            }
            out.d().open_window(usize::MAX);
            sym::check(matches!(now($w.flush()), Some(Ok(()))), "a flush completes once the transport takes it");
        }};
    }
    if sym::flag() {
        let (mut r, mut w) = e.b.protocol_into_split();
        both!(r, w);
        std::mem::forget((r, w));
    } else {
        let mut s = e.b;
        both!(s, s);
        std::mem::forget(s);
    }
    sym::check(same(&got, &want), "what is read is what was written, in order");
    sym::reach("both");
}

// ---------------------------------------------------------------------------------------------

/// Which encryptions the packages in `w` are, in order; everything in it has to be the result of
/// one, after four bytes of length, and what is left at its end the beginning of one.
fn only_sealed(w: &[u8]) -> Vec<usize> {
    let mut v = Vec::new();
    let mut i = 0;
    while i + 4 <= w.len() {
        let n = u32::from_be_bytes([w[i], w[i + 1], w[i + 2], w[i + 3]]) as usize;
        let Some(k) = (0..aead::encryptions()).filter(|k| !v.contains(k)).find(|k| {
            let s = aead::sealed(*k);
            let m = n.min(w.len() - i - 4);
            s.len() == n && same(&w[i + 4..i + 4 + m], &s[..m])
        }) else {
            sym::fail("nothing is sent but public keys and packages that were encrypted");
        };
        v.push(k);
        i += 4 + n;
    }
    // part of a length at the end says nothing
    v
}
/// The key exchange shows the public keys and packages, and only the secret is under the first key.
/// @bounds any secrets (each repeated in 32 bytes) of two real peers, one of which may not know the other; 0 to 2 writes of 1 or 1030 bytes (the first symbolic) from either side after it; the transport from the server fails after 20 or 60 bytes or not
/// @also C20
#[no_mangle]
pub fn c31_exchange() {
    let (sa, sb) = ([sym::u8(); 32], [sym::u8(); 32]);
    sym::assume(sa[0] != sb[0]);
    let (la, lb) = match sym::choose(3) {
        0 => (vec![], vec![public(sa)]),
        1 => (vec![public(sb)], vec![]),
        _ => (vec![public(sb)], vec![public(sa)]),
    };
    let strange = (la.is_empty(), lb.is_empty());
    let (a, b) = pair();
    let (up, down) = (a.w.0.clone(), b.w.0.clone());
    down.d().fail_at = [None, Some(20), Some(60)][sym::choose(3)];
    let broken = down.d().fail_at.is_some();
    let (ra, rb) = shake(a, b, keys(sa, la, false), keys(sb, lb, false));
    sym::check(same(&up.d().data, public(sa).as_bytes()), "a client shows its public key and nothing else");
    let d = down.d().data.clone();
    if strange.1 {
        sym::check(d.is_empty() && aead::encryptions() == 0, "an unknown client is shown nothing");
        return sym::reach("unknown client");
    }
    let m = d.len().min(32);
    sym::check(same(&d[..m], &public(sb).as_bytes()[..m]), "a server shows its public key first");
    let used = only_sealed(&d[m..]);
    sym::check(used.len() <= 1, "the key exchange sends one package");
    if broken || strange.0 {
        return sym::reach("broken off");
    }
    let (mut a, mut b) = match (ra, rb) {
        (Some(Ok(a)), Some(Ok(b))) => (a, b),
        _ => sym::fail("a key exchange of peers that know each other succeeds"),
    };
    sym::check(used.len() == 1, "the key exchange sends one package");
    let agreed = StaticSecret::from(sa).diffie_hellman(&public(sb));
    sym::check(same(&aead::key(used[0]), &agreed.to_bytes()), "the secret is sent under the key both agreed on");
    let secret = aead::plaintext(used[0]).to_vec();
    sym::check(secret.len() == 32, "a secret of 32 bytes is sent");
    let (u0, d0) = (up.d().data.len(), d.len());
    let x = sym::u8();
    let mut want = [Vec::new(), Vec::new()];
    for k in 0..sym::choose(3) {
        let side = sym::choose(2);
        let mut t = vec![k as u8; [1, 1030][sym::choose(2)]];
        t[0] = x;
        let e = if side == 0 { &mut a } else { &mut b };
        let r = done(
            async {
                e.write_all(&t).await?;
                e.flush().await
            },
            "writing and flushing complete",
        );
        sym::check(r.is_ok(), "writing and flushing succeed");
        want[side].extend_from_slice(&t);
    }
    for (side, w) in [&up.d().data[u0..], &down.d().data[d0..]].iter().enumerate() {
        let mut plain = Vec::new();
        for k in only_sealed(w) {
            sym::check(k > used[0] && same(&aead::key(k), &secret), "what is written is sent under the secret of the connection");
            plain.extend_from_slice(aead::plaintext(k));
        }
        sym::check(same(&plain, &want[side]), "the packages hold what was written");
    }
    sym::reach("compared");
    std::mem::forget((a, b));
}
/// Whatever happens to a write, nothing goes out that was not encrypted.
/// @bounds 4 operations out of: write 1 byte (symbolic) or 1030, flush, shutdown, each given up after the first poll or run as far as it gets; the transport takes 0, 3, 10, 1040 or all bytes at first, or fails after 0, 3, 23 or 1044 once or for good; then it takes everything
/// @deep 5 operations
/// @shards 4 8
/// @also C28
#[no_mangle]
pub fn c31_writes() {
    let (s, _i, o) = lone();
    let mut e = enc(s);
    let how = sym::choose(3);
    if how == 0 {
        o.d().window = [usize::MAX, 0, 3, 10, 1040][sym::choose(5)];
    } else {
        o.d().fail_at = Some([0, 3, 23, 1044][sym::choose(4)]);
        if how == 1 {
            o.d().fail_kind = std::io::ErrorKind::Interrupted;
        }
    }
    let mut offered: Vec<u8> = Vec::new();
    let mut failed = false;
    for i in 0..sym::bound(4, 5) {
        let op = sym::choose(4);
        let c = sym::u8();
        let d: Vec<u8> = if op == 0 { vec![c] } else { vec![i as u8; 1030] };
        let f: Pin<Box<dyn Future<Output = std::io::Result<usize>> + '_>> = match op {
            0 | 1 => {
                let (e, d) = (&mut e, &d);
                Box::pin(async move { e.write(d).await })
            }
            2 => Box::pin(async { e.flush().await.map(|_| 0) }),
            _ => Box::pin(async { e.shutdown().await.map(|_| 0) }),
        };
        let mut f = f;
        let mut r = poll_main(0, f.as_mut());
        if r.is_pending() && sym::flag() {
            o.d().open_window(usize::MAX);
            r = poll_main(0, f.as_mut());
        }
        drop(f);
        match r {
            Poll::Ready(Ok(n)) => offered.extend_from_slice(&d[..if op < 2 { n } else { 0 }]),
            Poll::Ready(Err(_)) => {
                // whether an operation that failed took its bytes is up to it
                failed = true;
                break;
            }
            Poll::Pending => {}
        }
        if op == 3 {
            break;
        }
    }
    o.d().open_window(usize::MAX);
    if !failed {
        failed = !matches!(now(e.flush()), Some(Ok(())));
    }
    let mut w = o.d().data.clone();
    if failed && how == 1 {
        // the rest of a package that failed is up to the application
        w.truncate(o.d().data.len().min([0, 3, 23, 1044].into_iter().rev().find(|n| *n <= w.len()).unwrap_or(0)));
    }
    let mut plain = Vec::new();
    for k in only_sealed(&w) {
        sym::check(same(&aead::key(k), &[9; 32]), "what is written is sent under the secret of the connection");
        plain.extend_from_slice(aead::plaintext(k));
    }
    if !failed {
        sym::check(same(&plain, &offered), "the packages hold what was written");
        sym::reach("all sent");
    } else {
        sym::reach("failed");
    }
    std::mem::forget(e);
}
/// The same for whole endpoints: requests, answers, what is given up, and the end.
/// @bounds an IPC client and server over the encryption; 3 emits or requests of 1 byte (symbolic) or 1100 bytes, one of which may be given up before its reply, may fail to be encoded, or whose handler fails; the client stopped or not; the server's connection ends or a malformed package comes; transport cut in 3 ways
/// @shards 4 4
#[no_mangle]
pub fn c31_ipc() {
    enc_server(vec![public(A)], false);
    let (s, c) = pair();
    let (up, down) = (c.w.0.clone(), c.r.0.clone());
    match sym::choose(3) {
        0 => {}
        1 => up.d().wcut = Cut::Slow(50),
        _ => down.d().wcut = Cut::Max(7),
    }
    net().to_connect.push(c);
    give(s);
    let b = IPCBuilder::<Listener>::new().address(7).client_options(options(keys(A, vec![public(B)], false)));
    let ctx = match done(b.build_client(), "an authorised client connects") {
        Ok(c) => c,
        Err(_) => sym::fail("an authorised client connects"),
    };
    let x = sym::u8();
    let odd = sym::choose(3);
    let how = sym::choose(4);
    world().acts[0].err = how == 3;
    for k in 0..3 {
        let mut t = vec![k as u8; [1, 1100][sym::choose(2)]];
        t[0] = x;
        let name = if k == odd && how == 1 { "q".repeat(65536) } else { "req".to_string() };
        let c = ctx.clone();
        let mut j = [Job::new(k, async move { c.emit(name.as_str(), BytePayload::new(t)).await_reply().await.map(|_| ()) })];
        if k == odd && how == 2 {
            j[0].step();
            j[0].cancel();
        }
        drive(&mut j);
    }
    match sym::choose(3) {
        0 => {
            let _ = done(ctx.clone().stop(), "stopping completes");
        }
        1 => {
            down.d().push(&[0, 0, 0, 4, 1, 2, 3, 4]);
            up.d().push(&[0, 0, 0, 4, 1, 2, 3, 4]);
        }
        _ => {}
    }
    let (nu, nd) = (up.d().data.len(), down.d().data.len());
    settle();
    for (w, own) in [(&up.d().data, A), (&down.d().data, B)] {
        sym::check(w.len() > 32 && same(&w[..32], public(own).as_bytes()), "the key exchange begins with the public key");
    }
    let cut = |w: &Vec<u8>, n: usize| w[32..if w[..n].ends_with(&[0, 0, 0, 4, 1, 2, 3, 4]) { n - 8 } else { n }].to_vec();
    let mut sent = only_sealed(&cut(&up.d().data, nu));
    let back = only_sealed(&cut(&down.d().data, nd));
    sym::check(!sent.is_empty() && back.len() > 1, "the events are sent");
    sent.extend(&back[1..]);
    let secret = aead::plaintext(back[0]);
    sym::check(sent.iter().all(|k| same(&aead::key(*k), secret)), "events are sent under the secret of the connection");
    sym::reach("compared");
    std::mem::forget(ctx);
}
/// Nor when much is written at once.
/// @bounds 2 writes of 1, 4097, 16385, 70000, 270000 or 1100000 bytes, flushed after each or not; the transport takes everything, or 60000 bytes at a time
/// @steps 2000000000
/// @shards 4 4
/// @also C17
#[no_mangle]
pub fn c31_large() {
    let (s, _i, o) = lone();
    let mut e = enc(s);
    if sym::flag() {
        o.d().wcut = Cut::Max(60000);
    }
    let (first, second) = ([1, 4097, 16385, 70000, 270000, 1100000][sym::choose(6)], [1, 70000][sym::choose(2)]);
    let (mut d, t) = (big(first, 3), big(second, 77));
    d[0] = sym::u8();
    let between = sym::flag();
    let r = done(
        async {
            e.write_all(&d).await?;
            if between {
                e.flush().await?;
            }
            e.write_all(&t).await?;
            e.flush().await
        },
        "writing and flushing complete",
    );
    sym::check(r.is_ok(), "writing and flushing succeed");
    let mut plain = Vec::new();
    for k in only_sealed(&o.d().data) {
        sym::check(same(&aead::key(k), &[9; 32]), "what is written is sent under the secret of the connection");
        plain.extend_from_slice(aead::plaintext(k));
    }
    d.extend_from_slice(&t);
    sym::check(same(&plain, &d), "the packages hold what was written");
    sym::reach("compared");
    std::mem::forget(e);
}

// ---------------------------------------------------------------------------------------------

/// Reads and writes of an encrypted stream that move between tasks and are polled without need.
/// @bounds 2 operations out of: write 1 byte (symbolic) or 1030, flush, shutdown, each polled until it waits and then perhaps given up for another one; the transport takes 0, 10 or 1040 bytes at first; or a read of a package that arrives in 3 pieces; 6 polls by either of two wakers, some without having been woken
/// @deep 3 operations, 8 such polls
/// @shards 4 8
/// @also C28
#[no_mangle]
pub fn c32_encrypted() {
    use crate::polled::Hop;
    let mut hop = Hop::new(sym::bound(5, 8));
    if sym::flag() {
        let mut e = apart();
        let (plain, sealed) = messages(&mut e, 1);
        let (a, b) = ([1, 4, 9][sym::choose(3)], [12, sealed[0].len() - 1][sym::choose(2)]);
        let mut buf = [0; 8];
        let mut r = None;
        for w in [&sealed[0][..a], &sealed[0][a..b], &sealed[0][b..]] {
            sym::check(r.is_none(), "a read waits for a whole package");
            e.b_in.d().push(w);
            let x = &mut e.b;
            r = hop.go(|k| {
                let w = waker(MAIN + k);
                reset_main(k);
                let mut rb = ReadBuf::new(&mut buf);
                match Pin::new(&mut *x).poll_read(&mut std::task::Context::from_waker(&w), &mut rb) {
                    Poll::Ready(Ok(())) => Poll::Ready(rb.filled().len()),
                    Poll::Ready(Err(_)) => sym::fail("reading what was written succeeds"),
                    Poll::Pending => Poll::Pending,
                }
            });
        }
        sym::check(r == Some(3) && same(&buf[..3], &plain[0]), "what was written is read by whoever polls last");
        sym::reach("read");
        return;
    }
    let (s, _i, o) = lone();
    let mut e = enc(s);
    o.d().window = [0, 10, 1040][sym::choose(3)];
    let c = sym::u8();
    let mut accepted = 0;
    for n in 0..sym::bound(2, 3) {
        let op = sym::choose(4);
        let d = [vec![c], vec![2; 1030], vec![], vec![]][op].clone();
        let mut step = |k: usize| {
            let w = waker(MAIN + k);
            reset_main(k);
            let cx = &mut std::task::Context::from_waker(&w);
            match op {
                0 | 1 => Pin::new(&mut e).poll_write(cx, &d),
                2 => Pin::new(&mut e).poll_flush(cx).map_ok(|_| 0),
                _ => Pin::new(&mut e).poll_shutdown(cx).map_ok(|_| 0),
            }
        };
        let mut r = hop.go(&mut step);
        if r.is_none() && (n > 0 || sym::flag()) {
            o.d().open_window(usize::MAX);
            r = hop.go(&mut step);
            sym::check(r.is_some(), "an operation that can go on is woken, whoever polled it last");
        }
        match r {
            Some(Ok(m)) => accepted += m,
            Some(Err(_)) => sym::fail("a working transport gives no errors"),
            None => {}
        }
        hop.fresh();
        if op == 3 {
            return sym::reach("shut down");
        }
    }
    o.d().open_window(usize::MAX);
    sym::check(matches!(now(e.flush()), Some(Ok(()))), "a flush completes");
    sym::check(plain_len(&o.d().data) == accepted, "all accepted bytes are out");
    sym::reach("written");
    std::mem::forget(e);
}

// ---------------------------------------------------------------------------------------------

/// `make` turns all of at least 32 bytes that are newly drawn into a secret.
fn judge_secret(mut make: impl FnMut() -> Vec<u8>) {
    let x = sym::vec(128);
    rand::feed(&x);
    let a = make();
    let n = rand::drawn();
    sym::check(a.len() == 32, "a secret has 32 bytes");
    sym::check(n >= 32, "a secret is made of at least 32 random bytes");
    let next = make();
    sym::check(rand::drawn() == 2 * n, "every secret is made of new random bytes");
    if n == 32 {
        // two different draws give two different secrets: nothing of the randomness is lost
        sym::check(!same(&a, &next) | same(&x[..n], &x[n..2 * n]), "different random bytes make different secrets");
    }
    // each of the random bytes counts, and only they do
    let k = sym::choose(n);
    let mut y = x[..2 * n].to_vec();
    y[k] = sym::u8();
    rand::feed(&y);
    let b = make();
    let matters = !same(&a, &b) | (y[k] == x[k]);
    sym::check(matters | (n > 32), "every random byte matters");
    rand::feed(&y);
    sym::check(same(&b, &make()), "a secret is made of its random bytes");
    rand::feed(&[]);
    sym::reach("compared");
}
/// Secrets are made of 32 random bytes that were not used before, and of all of them.
/// @bounds any random bytes; utils::generate_secret and the secret of default options, each made twice, with any one of the bytes changed in any way
#[no_mangle]
pub fn c33_generated() {
    if sym::flag() {
        judge_secret(|| bromine::utils::generate_secret().to_bytes().to_vec());
    } else {
        judge_secret(|| EncryptionOptions::<Opt>::default().keys.secret.to_bytes().to_vec());
    }
}
/// The same for the secret a server makes for a connection, which is the key from then on.
/// @bounds any random bytes, two connections of the same client each, with any one of the bytes changed in any way
/// @also C19
#[no_mangle]
pub fn c33_connection() {
    judge_secret(|| {
        let (s, i, _o) = lone();
        i.d().push(public(A).as_bytes());
        let n = aead::encryptions();
        let k = keys(B, vec![public(A)], false);
        let mut e = match done(Enc::from_server_key_exchange(s, &k), "a key exchange with a known client completes") {
            Ok(e) => e,
            Err(_) => sym::fail("a key exchange with a known client succeeds"),
        };
        sym::check(aead::encryptions() == n + 1, "the secret is sent");
        let secret = aead::plaintext(n).to_vec();
        let sent = done(
            async {
                e.write_all(&[1]).await?;
                e.flush().await
            },
            "writing and flushing complete",
        );
        sym::check(sent.is_ok() && same(&aead::key(n + 1), &secret), "the secret is the key of the connection");
        secret
    });
}
/// Who did not configure any keys trusts nobody.
/// @bounds any 32-byte key presented to a server or a client with default options (a builder that was given none), or whose options have only a secret
/// @also C20
#[no_mangle]
pub fn c33_defaults() {
    let presented: [u8; 32] = sym::bytes();
    let o = EncryptionOptions::<Opt>::default();
    sym::check(o.keys.known_peers.is_empty() && !o.keys.allow_unknown, "default options trust nobody");
    let server = sym::flag();
    if sym::flag() {
        let (s, i, out) = lone();
        i.d().push(&presented);
        let r = if server { now(Enc::from_server_key_exchange(s, &o.keys)) } else { now(Enc::from_client_key_exchange(s, &o.keys)) };
        sym::check(matches!(r, Some(Err(IPCError::UnknownPeer(p))) if same(p.as_bytes(), &presented)), "an unknown peer is refused by name");
        sym::check(out.d().data.len() == if server { 0 } else { 32 } && aead::encryptions() == 0, "an unknown peer is shown nothing");
        return sym::reach("refused");
    }
    let (s, c) = pair();
    if server {
        let b = IPCBuilder::<Listener>::new().address(7).on("req", |c, e| Box::pin(act(0, c, e)));
        tokio::spawn(async move {
            let _ = b.build_server().await;
        });
        settle();
        give(s);
        c.w.0.d().push(&presented);
        settle();
        sym::check(c.r.0.d().data.is_empty() && aead::encryptions() == 0, "an unknown client is shown nothing");
        sym::check(c.r.0.d().writer_gone, "an unknown client is sent away");
        return sym::reach("sent away");
    }
    s.w.0.d().push(&presented);
    net().to_connect.push(c);
    let r = done(IPCBuilder::<Listener>::new().address(7).build_client(), "a client with a server nobody knows comes to an end");
    sym::check(matches!(r, Err(IPCError::UnknownPeer(p)) if same(p.as_bytes(), &presented)), "a client refuses a server it does not know");
    sym::reach("client");
}
