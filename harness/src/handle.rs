//! C12, C13, C15, C26: what an endpoint does with the events it receives.
use crate::kit::*;
use crate::net::*;
use crate::spec::{self, frame, Frame, END, ERROR, INITIATOR, RESPONSE};
use bromine::error_event::ErrorEventData;
use bromine::event::Event;
use bromine::payload::FromPayload;
use bromine::prelude::*;
use tokio::model::*;

pub struct Provided;
impl Provided {
    async fn a(ctx: &Context, e: Event) -> IPCResult<Response> {
        act(5, ctx, e).await
    }
    async fn b(ctx: &Context, e: Event) -> IPCResult<Response> {
        act(6, ctx, e).await
    }
}
impl NamespaceProvider for Provided {
    fn name() -> &'static str {
        "p"
    }
    fn register(handler: &mut EventHandler) {
        events!(handler, "a" => Self::a, "b" => Self::b);
    }
}
/// The registrations, some of them replaced by later ones.
fn registered() -> Builder {
    builder()
        .on("b", handler(9))
        .on("a", handler(1))
        .namespace("n")
        .on("b", handler(8))
        .build()
        .namespace("n")
        .on("c", handler(10))
        .on("a", handler(3))
        .on("c", handler(4))
        .build()
        .on("b", handler(2))
        .add_namespace(namespace!(Provided))
        .namespace("k")
        .build()
}
fn expected(ns: Option<&str>, name: &str) -> Option<usize> {
    match (ns, name) {
        (None, "a") => Some(1),
        (None, "b") => Some(2),
        (Some("n"), "a") => Some(3),
        (Some("n"), "c") => Some(4),
        (Some("p"), "a") => Some(5),
        (Some("p"), "b") => Some(6),
        _ => None,
    }
}
const NS: [Option<&str>; 6] = [None, Some("n"), Some("zz"), Some("p"), Some("k"), Some("a")];
const NAMES: [&str; 6] = ["a", "b", "c", "zz", "n", "ab"];

/// Events of any kind, with any id, reach the handler of their namespace and name.
/// @bounds two events; 6 names x 6 namespaces (registered, replaced, unknown, of a provider); kinds Initiator, Response, Error; ids, reference ids and 2 payload bytes symbolic; client and server
/// @deep three events
/// @shards 4 8
/// @seconds 200 3000
/// @also C25
#[no_mangle]
pub fn c12_dispatch() {
    let (i, _o, c) = endpoint(registered());
    let n = sym::bound(2, 3);
    let mut want = Vec::new();
    for k in 0..n {
        let (ns, name) = if k == 0 {
            (NS[sym::choose(6)], NAMES[sym::choose(6)])
        } else {
            [(None, "a"), (Some("n"), "a"), (Some("zz"), "a"), (Some("p"), "a")][sym::choose(4)]
        };
        let kind = if k == 0 { [INITIATOR, RESPONSE, ERROR][sym::choose(3)] } else { INITIATOR };
        // nobody waits for a reply
        let re = if kind == INITIATOR { None } else { Some(5) };
        let mut data = vec![k as u8];
        data.extend_from_slice(&sym::bytes::<2>());
        let f = frame(sym::u64(), kind, re, ns, name, &data);
        i.d().push(&f.encode());
        if sym::flag() {
            settle();
        }
        if let Some(t) = expected(ns, name) {
            want.push((t, f));
        }
    }
    settle();
    let got = &world().log;
    sym::check(got.len() == want.len(), "every event runs its one handler and no other");
    for (t, f) in &want {
        match got.iter().find(|(_, g)| g.data.first() == f.data.first()) {
            Some((u, g)) => {
                sym::check(u == t, "the handler registered last for this namespace and name runs");
                sym::check(g == f, "the handler gets the event as it was received");
            }
            None => sym::fail("the handler of a registered event runs"),
        }
    }
    if want.len() == n {
        sym::reach("all handled");
    }
    if want.is_empty() {
        sym::reach("none handled");
    }
    drop(c);
}
/// No name or namespace but the registered ones reaches a handler.
/// @bounds one event; name any 0..3 ASCII bytes, namespace none or any 0..2 ASCII bytes; handlers registered for 2 names without and 4 with a namespace
/// @shards 4 8
/// @also C25
#[no_mangle]
pub fn c12_names() {
    let (i, o, c) = endpoint(registered());
    let text = |max: usize| {
        let v = sym::vec(sym::choose(max + 1));
        for b in &v {
            sym::assume(*b < 128);
        }
        String::from_utf8(v).unwrap()
    };
    let name = text(3);
    let ns = if sym::flag() { Some(text(2)) } else { None };
    // an empty namespace is none
    let eff = ns.as_deref().filter(|n| !n.is_empty());
    let want = expected(eff, &name);
    let f = frame(7, INITIATOR, None, ns.as_deref(), &name, &[1]);
    i.d().push(&f.encode());
    settle();
    let got = &world().log;
    match want {
        Some(t) => {
            sym::check(got.len() == 1 && got[0].0 == t, "the handler registered last for this namespace and name runs");
            sym::check(got[0].1.name == f.name && got[0].1.data == f.data, "the handler gets the event as it was received");
            sym::reach("handled");
        }
        None => {
            sym::check(got.is_empty(), "an event nobody registered for runs nothing");
            sym::reach("unknown");
        }
    }
    let a = frame(8, INITIATOR, None, None, "a", &[2]);
    i.d().push(&a.encode());
    settle();
    sym::check(world().log.last() == Some(&(1, a)), "the connection goes on");
    sent(&o);
    drop(c);
}
/// Names that differ in one byte, or in length, from a long registered one.
/// @bounds registered `handler` without and `Handler` with a namespace; every change of one byte to any other ASCII byte, every prefix, every one-byte extension
#[no_mangle]
pub fn c12_near() {
    let b = builder().on("handler", handler(1)).namespace("space").on("Handler", handler(2)).build();
    let (i, _o, c) = endpoint(b);
    let base = [&b"handler"[..], b"Handler"][sym::choose(2)];
    let ns = [None, Some(&b"space"[..])][sym::choose(2)];
    let change = |v: &[u8]| {
        let mut v = v.to_vec();
        match sym::choose(3) {
            0 => {
                let b = sym::u8();
                sym::assume(b < 128);
                let k = sym::choose(v.len());
                v[k] = b;
            }
            1 => {
                let k = sym::choose(v.len());
                v.truncate(k);
            }
            _ => {
                let b = sym::u8();
                sym::assume(b < 128);
                v.push(b);
            }
        }
        v
    };
    let (mut n, mut s) = (base.to_vec(), ns.map(|s| s.to_vec()));
    match sym::choose(3) {
        0 => n = change(&n),
        1 => s = s.map(|s| change(&s)),
        _ => {}
    }
    let eff = s.as_deref().filter(|s| !s.is_empty());
    let want = match eff {
        None if n == b"handler" => Some(1),
        Some(s) if s == b"space" && n == b"Handler" => Some(2),
        _ => None,
    };
    let mut f = frame(7, INITIATOR, None, None, "", &[1]);
    f.name = n;
    f.ns = s;
    i.d().push(&f.encode());
    settle();
    let got = &world().log;
    sym::check(got.len() == want.is_some() as usize, "an event nobody registered for runs nothing");
    if let Some(t) = want {
        sym::check(got[0].0 == t, "the handler registered last for this namespace and name runs");
        sym::reach("handled");
    } else {
        sym::reach("unknown");
    }
    drop(c);
}
/// Names that look special are names like any other.
/// @bounds handlers for the names empty, `*`, `end`, `a` and ` a`; namespaces `*`, ` *`, `Ä` and `n/a`, one without a name, and one without handlers; one event of 9 names and 9 namespaces, of type Initiator or Response, on a client or a server
/// @also C25
#[no_mangle]
pub fn c12_special() {
    let b = builder().on("", handler(1)).on("*", handler(2)).on("end", handler(3)).on("a", handler(4));
    let b = b.namespace("*").on("", handler(5)).on("a", handler(6)).build();
    let b = b.namespace("").on("a", handler(7)).on("b", handler(8)).build().namespace("e").build();
    let b = b.on(" a", handler(9)).namespace(" *").on(" a", handler(10)).build().namespace("Ä").on("a", handler(11)).build();
    let b = b.namespace("n/a").on("a\n", handler(12)).build();
    let (i, o, c) = endpoint(b);
    const N: [&str; 9] = ["", "*", "end", "a", "b", "error", "*a", " a", "a\n"];
    let k = sym::choose(9);
    let n = sym::choose(9);
    let ns = [None, Some("*"), Some("e"), Some("u"), Some(""), Some(" *"), Some("Ä"), Some("ä"), Some("n/a")][n];
    let want = match (n, k) {
        (0, 0..=3) | (4, 0..=3) => Some(k + 1),
        (0, 7) | (4, 7) => Some(9),
        (1, 0) => Some(5),
        (1, 3) => Some(6),
        (5, 7) => Some(10),
        (6, 3) => Some(11),
        (8, 8) => Some(12),
        _ => None,
    };
    let f = if sym::flag() { frame(sym::u64(), INITIATOR, None, ns, N[k], &[sym::u8()]) } else { frame(sym::u64(), RESPONSE, Some(6), ns, N[k], &[sym::u8()]) };
    i.d().push(&f.encode());
    settle();
    let got = &world().log;
    sym::check(got.len() == want.is_some() as usize, "an event nobody registered for runs nothing");
    if let Some(t) = want {
        sym::check(got[0].0 == t && got[0].1.id == f.id && got[0].1.data == f.data && got[0].1.name == f.name, "the handler registered last for this namespace and name runs");
        sym::reach("handled");
    } else {
        sym::reach("unknown");
    }
    sym::check(sent(&o).len() == 1, "each event gets one answer");
    drop(c);
}
/// A handler registered for error events replaces the built-in one, and only for them.
/// @bounds one event named error or not, of every kind but End; payload symbolic (6 bytes)
#[no_mangle]
pub fn c12_error_handler() {
    let custom = sym::flag();
    let b = if custom { registered().on("error", handler(7)) } else { registered() };
    let (i, o, c) = endpoint(b);
    let ns = NS[sym::choose(3)];
    let kind = [INITIATOR, RESPONSE, ERROR][sym::choose(3)];
    let f = frame(sym::u64(), kind, if kind == INITIATOR { None } else { Some(77) }, ns, "error", &sym::bytes::<6>());
    i.d().push(&f.encode());
    i.d().push(&frame(9, INITIATOR, None, None, "a", &[1]).encode());
    settle();
    let l = &world().log;
    if custom && ns.is_none() {
        sym::check(l.len() == 2 && l[0] == (7, f), "the own handler for error events runs");
    } else {
        sym::check(l.len() == 1, "no other handler runs for an error event");
    }
    sym::check(l[l.len() - 1].0 == 1, "the connection goes on after an error event");
    sym::check(sent(&o).len() == 2, "each event gets one answer");
    sym::reach("compared");
    drop(c);
}

fn any_act(marker: u8) -> Act {
    let n = sym::choose(3);
    Act {
        emits: (0..n).map(|k| (sym::flag(), vec![marker, k as u8, sym::u8()])).collect(),
        gated: false,
        err: sym::flag(),
        fault: 0,
        data: if sym::flag() { Some(vec![marker, 100, sym::u8(), sym::u8()]) } else { None },
    }
}
/// The faults that carry a text.
const TEXT: [usize; 5] = [0, 3, 4, 6, 8];
/// Compares the frames sent for one handled event with what its handler did.
fn judge(id: u64, a: &Act, out: &[Frame]) {
    sym::check(out.len() == a.emits.len() + 1, "the emitted events and one final event are sent");
    for (k, (ns, d)) in a.emits.iter().enumerate() {
        let f = &out[k];
        sym::check(f.kind == RESPONSE && f.re == Some(id), "what a handler emits refers to the event it handles");
        sym::check(f.ns.as_deref() == if *ns { Some(&b"m"[..]) } else { None } && f.name == b"out" && f.data == *d, "what a handler emits is sent as it is");
    }
    let t = &out[a.emits.len()];
    sym::check(t.re == Some(id), "the final event refers to the handled event");
    if a.err {
        sym::check(t.kind == ERROR, "a failed handler is answered by an error event");
        match ErrorEventData::from_payload(&t.data[..]) {
            Ok(d) => {
                sym::check(d.code == 500, "the error has code 500");
                sym::check(if TEXT.contains(&a.fault) { d.message.contains("boom") } else { !d.message.is_empty() }, "the error tells what failed");
            }
            Err(_) => sym::fail("the error event carries error data"),
        }
        sym::check(t.name == b"error" && t.ns.is_none(), "an error event is named so");
        sym::reach("error");
    } else {
        sym::check(t.kind == END, "a handled event is answered by an end event");
        let d: &[u8] = match &a.data {
            Some(d) => d,
            None => &[],
        };
        sym::check(&t.data[..] == d, "the end event carries the handler's response");
        sym::reach("end");
    }
}
/// One event, and everything a handler may do with it.
/// @bounds up to two emits (with and without namespace), Ok with and without payload, 10 errors (of every kind, one with a code of its own); id and payloads symbolic; all kinds; transport takes everything, or n bytes at a time after being pending
/// @shards 2 4
/// @also C12
#[no_mangle]
pub fn c13_terminal() {
    let (i, o, c) = endpoint(registered());
    o.d().wcut = [Cut::Whole, Cut::Slow(7)][sym::choose(2)];
    o.d().flush_pending = sym::flag();
    let mut a = any_act(1);
    if a.err && a.emits.len() < 2 {
        a.fault = sym::choose(FAULTS);
    }
    world().acts[1] = a.clone();
    world().acts[3] = a.clone();
    let kind = [INITIATOR, RESPONSE, ERROR][sym::choose(3)];
    let known = sym::flag();
    let ns = if sym::flag() { Some("n") } else { None };
    let f = frame(sym::u64(), kind, if kind == INITIATOR { None } else { Some(77) }, ns, if known { "a" } else { "zz" }, &sym::bytes::<1>());
    i.d().push(&f.encode());
    settle();
    let out = sent(&o);
    judge(f.id, if known { &a } else { &world().acts[15] }, &out);
    drop(c);
}
/// Several events whose handlers overlap in every order.
/// @bounds two events handled concurrently; one handler emits up to once, the other once; each ends with any outcome; the first 9 scheduling choices among the handlers' progress and the ready tasks; transport takes 9 bytes at a time after being pending, or everything
/// @deep the first 14 scheduling choices, up to two emits
/// @shards 4 16
/// @seconds 250 3000
#[no_mangle]
pub fn c13_concurrent() {
    let (c, i, o) = client(registered());
    o.d().wcut = [Cut::Whole, Cut::Slow(9)][sym::choose(2)];
    let ids = [sym::u64(), sym::u64()];
    // an id is unique
    sym::assume(ids[0] != ids[1]);
    let n = [sym::choose(sym::bound(2, 3)), 1];
    for t in [1, 2] {
        world().acts[t] = Act {
            emits: (0..n[t - 1]).map(|k| (false, vec![t as u8, k as u8, sym::u8()])).collect(),
            gated: true,
            err: sym::flag(),
        fault: 0,
            data: Some(vec![t as u8, 100]),
        };
    }
    i.d().push(&frame(ids[0], INITIATOR, None, None, "a", &[]).encode());
    i.d().push(&frame(ids[1], INITIATOR, None, None, "b", &[]).encode());
    settle();
    let tasks = spawned();
    for _ in 0..sym::bound(9, 14) {
        let w = &world().waiting;
        let g = &world().gate;
        match pick(&[w[1] && !g[1], w[2] && !g[2], ready(tasks - 2), ready(tasks - 1)]) {
            Some(0) => open_gate(1),
            Some(1) => open_gate(2),
            Some(k) => {
                poll_task(tasks - 4 + k);
            }
            None => break,
        }
    }
    for _ in 0..4 {
        open_gate(1);
        open_gate(2);
        settle();
    }
    let out = sent(&o);
    sym::check(out.len() == n[0] + n[1] + 2, "every emit and one final event for each handled event is sent");
    for t in [1usize, 2] {
        let mine: Vec<Frame> = out.iter().filter(|f| f.re == Some(ids[t - 1])).cloned().collect();
        judge(ids[t - 1], &world().acts[t].clone(), &mine);
    }
    drop(c);
}
/// An End event nobody waits for is never answered or handled.
/// @bounds one End event with any id, reference or none, any name and namespace of the sets
/// @also C08
#[no_mangle]
pub fn c13_dangling_end() {
    let (i, o, c) = endpoint(registered());
    let re = if sym::flag() { Some([0, 5, u64::MAX][sym::choose(3)]) } else { None };
    let f = frame(sym::u64(), END, re, NS[sym::choose(3)], ["a", "end", "error", "zz"][sym::choose(4)], &sym::bytes::<2>());
    i.d().push(&f.encode());
    settle();
    sym::check(world().log.is_empty(), "an end event runs no handler");
    sym::check(o.d().data.is_empty(), "an end event is not answered");
    i.d().push(&frame(3, INITIATOR, None, None, "a", &[]).encode());
    settle();
    sym::check(world().log.len() == 1, "the connection goes on after an end event");
    sym::reach("end");
    drop(c);
}
/// Two endpoints that are left alone come to rest, whatever event one of them received.
/// @bounds a client and a server; one event with any type, 3 ids, reference or none, name among handled, unknown, error and end, payload of 8 symbolic bytes
#[no_mangle]
pub fn c13_quiesce() {
    server(registered());
    let (a, b) = pair();
    let to_client = a.r.0.clone();
    let seen = (a.w.0.clone(), to_client.clone());
    net().to_connect.push(a);
    let c = match block_on(8, registered().build_client()) {
        Some(Ok(c)) => c,
        _ => sym::fail("a client connects"),
    };
    give(b);
    settle();
    let kind = sym::choose(4) as u8;
    let re = if sym::flag() { Some(5) } else { None };
    let id = [5, 0, u64::MAX - 1][sym::choose(3)];
    let f = frame(id, kind, re, NS[sym::choose(3)], ["a", "zz", "error", "end"][sym::choose(4)], &sym::bytes::<8>());
    to_client.d().push(&f.encode());
    settle();
    let there = spec::frames(&seen.0.d().data);
    sym::check(there.len() == (kind != END) as usize, "the event is answered once, and an end event not at all");
    sym::check(spec::frames(&seen.1.d().data).len() <= 2, "an answer is not answered for ever");
    sym::reach("at rest");
    drop(c);
}

/// Any bytes that are not a frame.
fn garbage() -> Vec<u8> {
    match sym::choose(5) {
        0 => {
            // the header does not fit
            let mut b = sym::vec(10);
            sym::assume(u64::from_be_bytes([b[0], b[1], b[2], b[3], b[4], b[5], b[6], b[7]]) < u16::from_be_bytes([b[8], b[9]]) as u64);
            b.extend_from_slice(&[0; 4]);
            b
        }
        1 => {
            let f = frame(sym::u64(), 4 + sym::choose(2) as u8, None, None, "a", &[]);
            f.encode()
        }
        2 => {
            let mut b = frame(1, INITIATOR, None, None, "a", &[]).encode();
            b[10] = sym::u8();
            sym::assume(b[10] != 0);
            b
        }
        3 => {
            // the name ends after the header does
            let mut b = frame(1, INITIATOR, None, None, "a", &[2, 3]).encode();
            let n = b.len() - 4;
            b[n] = sym::u8();
            sym::assume(b[n] > 1);
            b
        }
        _ => {
            let mut f = frame(1, INITIATOR, None, None, "a", &[]);
            f.name = sym::vec(2);
            sym::assume(std::str::from_utf8(&f.name).is_err());
            f.encode()
        }
    }
}
/// One of a server's connections goes bad; the others and later ones are served.
/// @bounds two connections and a third one later; 5 classes of malformed frames with symbolic bytes, truncation of a frame at every offset followed by the end or 4 kinds of failures of the transport, immediate end; events before and after it on each connection
/// @shards 2 4
#[no_mangle]
pub fn c15_isolation() {
    server(registered());
    world().acts[1].data = Some(vec![7]);
    let conns = [incoming(), incoming()];
    settle();
    let bad = sym::choose(2);
    let good = 1 - bad;
    let before = sym::flag();
    if before {
        conns[bad].0.d().push(&frame(10, INITIATOR, None, None, "a", &[10]).encode());
    }
    let eof = sym::choose(2);
    if eof == 0 {
        conns[bad].0.d().push(&garbage());
        conns[bad].0.d().push(&frame(11, INITIATOR, None, None, "a", &[11]).encode());
    } else {
        let f = frame(11, INITIATOR, None, Some("n"), "a", &[11]).encode();
        let k = sym::choose(f.len());
        conns[bad].0.d().push(&f[..k]);
        conns[bad].0.d().end();
    }
    if sym::flag() {
        settle();
    }
    conns[good].0.d().push(&frame(12, INITIATOR, None, None, "a", &[12]).encode());
    settle();
    let third = incoming();
    third.0.d().push(&frame(13, INITIATOR, None, None, "a", &[13]).encode());
    settle();
    let log: Vec<u8> = world().log.iter().map(|(_, f)| f.data[0]).collect();
    sym::check(!log.contains(&11), "nothing is handled after the malformed frame");
    sym::check(log.contains(&10) == before, "what came before the malformed frame is handled");
    sym::check(log.contains(&12), "the other connection is served");
    sym::check(log.contains(&13), "new connections are accepted");
    sym::check(sent(&conns[bad].1).len() == before as usize, "only the events before the malformed frame are answered");
    sym::check(sent(&conns[good].1).len() == 1 && sent(&third.1).len() == 1, "the others get their answers");
    sym::check(conns[bad].0.d().reader_gone && conns[bad].1.d().writer_gone, "the bad connection is closed");
    sym::check(!conns[good].0.d().reader_gone && !conns[good].1.d().writer_gone, "the other connection stays open");
    sym::reach("compared");
}
/// The same for a client: it stops reading, and emitting still works.
/// @bounds the malformed frames of c15_isolation at the first or second position
#[no_mangle]
pub fn c15_client() {
    let (c, i, o) = client(registered());
    let before = sym::flag();
    if before {
        i.d().push(&frame(10, INITIATOR, None, None, "a", &[10]).encode());
    }
    i.d().push(&garbage());
    i.d().push(&frame(11, INITIATOR, None, None, "a", &[11]).encode());
    settle();
    sym::check(world().log.len() == before as usize, "exactly what came before the malformed frame is handled");
    sym::check(i.d().reader_gone, "the connection is not read any more");
    sym::check(sent(&o).len() == before as usize, "what came before is answered");
    match block_on(50, c.emit("x", BytePayload::new(sym::vec(2)))) {
        Some(Ok(_)) => {}
        _ => sym::fail("the sending half still works"),
    }
    sym::check(sent(&o).len() == 1, "the event is sent");
    sym::reach("compared");
}
/// A transport that fails while answers are written does not disturb other connections.
/// @bounds the failing connection fails at every offset of two answers
/// @also C16
#[no_mangle]
pub fn c15_write_failure() {
    server(registered());
    let conns = [incoming(), incoming()];
    conns[0].1.d().fail_at = Some(sym::choose(sym::bound(40, 80)));
    world().acts[1].emits = vec![(false, vec![1])];
    conns[0].0.d().push(&frame(10, INITIATOR, None, None, "a", &[10]).encode());
    conns[1].0.d().push(&frame(11, INITIATOR, None, None, "a", &[11]).encode());
    settle();
    sym::check(world().log.len() == 2, "both events are handled");
    sym::check(sent(&conns[1].1).len() == 2, "the other connection gets its answers");
    conns[0].0.d().push(&frame(12, INITIATOR, None, None, "b", &[12]).encode());
    settle();
    sym::check(world().log.len() == 3, "the connection is still read");
    sym::reach("compared");
}

/// Handlers that run on two threads.
/// @bounds two events, whose handlers emit once and of which one ends in any way; two threads run whatever task is ready; every interleaving with up to 2 interruptions, each before any atomic access
/// @deep up to 3 interruptions, both end in any way
/// @shards 4 8
/// @seconds 250 3000
/// @threads
/// @also C14
#[no_mangle]
pub fn c13_threads() {
    let (i, o, c) = endpoint(registered());
    settle();
    for k in 1..3 {
        world().acts[k] = Act { emits: vec![(k == 1, vec![k as u8])], gated: false, err: (k == 1 || sym::bound(0, 1) == 1) && sym::flag(), fault: 0, data: None };
        i.d().push(&frame(10 + k as u64, INITIATOR, None, None, ["", "a", "b"][k], &[k as u8]).encode());
    }
    if sym::flag() {
        // both handlers are about to run
        while poll_task(if c.is_some() { 0 } else { 1 }) {}
    }
    sym::turns(sym::bound(2, 3), vec![Box::new(worker), Box::new(worker)]);
    settle();
    let f = sent(&o);
    sym::check(f.len() == 4 && world().log.len() == 2, "every event is handled once and answered");
    for k in 1..3 {
        let id = 10 + k as u64;
        let mine: Vec<&Frame> = f.iter().filter(|f| f.re == Some(id)).collect();
        let kind = if world().acts[k].err { ERROR } else { END };
        sym::check(mine.len() == 2 && mine[0].kind == RESPONSE && mine[0].data == [k as u8] && mine[1].kind == kind, "each event is answered by its own events, the final one last");
        sym::check(world().log.iter().filter(|(t, f)| *t == k && f.id == id).count() == 1, "each event reaches its handler");
    }
    sym::reach("compared");
    drop(c);
}
/// A client is stopped at any moment; nothing is handled after that.
/// @bounds two events around the moment of stopping, 4 scheduling choices between them; stopped from the context, a clone, or twice
/// @deep 6 scheduling choices
#[no_mangle]
pub fn c26_stop() {
    let (c, i, o) = client(registered());
    i.d().rcut = [Cut::Whole, Cut::Slow(5)][sym::choose(2)];
    i.d().push(&frame(10, INITIATOR, None, None, "a", &[10]).encode());
    for _ in 0..sym::bound(4, 6) {
        poll_task(sym::choose(2));
    }
    let keep = c.clone();
    match sym::choose(3) {
        0 => match block_on(3, c.stop()) {
            Some(Ok(())) => {}
            _ => sym::fail("stopping works"),
        },
        1 => {
            let d = c.clone();
            drop(c);
            match block_on(3, d.stop()) {
                Some(Ok(())) => {}
                _ => sym::fail("stopping a clone works"),
            }
        }
        _ => {
            let d = c.clone();
            match block_on(3, c.stop()) {
                Some(Ok(())) => {}
                _ => sym::fail("stopping works"),
            }
            match block_on(3, d.stop()) {
                Some(Ok(())) => sym::reach("stopped twice"),
                _ => sym::fail("stopping again is harmless"),
            }
        }
    }
    settle();
    let n = world().log.len();
    sym::check(i.d().reader_gone, "the receiving half is released");
    i.d().push(&frame(11, INITIATOR, None, None, "a", &[11]).encode());
    settle();
    sym::check(world().log.len() == n && n <= 1, "nothing is handled after stopping");
    sym::check(sent(&o).len() == n, "what was handled before is answered");
    drop(keep);
    sym::reach("stopped");
}
/// A client nobody stops keeps receiving, whatever happens to its contexts.
/// @bounds contexts cloned and dropped before, between and after two events
#[no_mangle]
pub fn c26_not_stopped() {
    let (c, i, o) = client(registered());
    let mut all = vec![c.clone(), c];
    for k in 0..2u8 {
        if sym::flag() {
            all.pop();
        }
        i.d().push(&frame(10 + k as u64, INITIATOR, None, None, "a", &[k]).encode());
        if sym::flag() {
            settle();
        }
    }
    settle();
    sym::check(world().log.len() == 2, "a client that was not stopped handles all events");
    sym::check(sent(&o).len() == 2, "and answers them");
    sym::reach("received");
}
fn stopping(b: Builder) -> Builder {
    b.on("stop", |ctx, e| {
        Box::pin(async move {
            world().log.push((15, frame_of(&e)));
            ctx.clone().stop().await?;
            let again = e.data_raw().first() == Some(&1);
            if again {
                ctx.clone().stop().await?;
            }
            ctx.emit("out", BytePayload::new(vec![7])).await?;
            ctx.response(BytePayload::new(vec![8]))
        })
    })
}
/// A client is stopped by one of its own handlers; a server's handler cannot stop it.
/// @bounds client and server; an event before, the event whose handler stops once or twice, an event after; more scheduling choices (3) while the handler runs
#[no_mangle]
pub fn c26_handler() {
    let (i, o, c) = endpoint(stopping(registered()));
    if sym::flag() {
        i.d().push(&frame(10, INITIATOR, None, None, "a", &[10]).encode());
        settle();
    }
    let n = world().log.len();
    sym::check(sent(&o).len() == n, "an event before is answered");
    i.d().push(&frame(11, INITIATOR, None, None, "stop", &[sym::choose(2) as u8]).encode());
    for _ in 0..3 {
        poll_task(sym::choose(spawned().min(4)));
    }
    settle();
    let f = sent(&o);
    sym::check(world().log.len() == n + 1, "the handler that stops is called once");
    sym::check(f.len() == 2 && f[0].data == [7] && f[0].re == Some(11) && f[1].kind == END && f[1].re == Some(11) && f[1].data == [8], "the handler that stops goes on and is answered");
    sym::check(i.d().reader_gone == c.is_some(), "the receiving half of a client is released, that of a server is not");
    i.d().push(&frame(12, INITIATOR, None, None, "a", &[12]).encode());
    settle();
    if let Some(c) = c {
        sym::check(world().log.len() == n + 1 && sent(&o).is_empty(), "nothing is handled after stopping");
        sym::check(matches!(block_on(20, c.emit("e", BytePayload::new(vec![1]))), Some(Ok(_))), "a stopped client still sends");
        sym::check(sent(&o).len() == 1, "a stopped client still sends");
        sym::check(matches!(block_on(3, c.stop()), Some(Ok(()))), "stopping again is harmless");
        sym::reach("client");
    } else {
        sym::check(world().log.len() == n + 2 && sent(&o).len() == 1, "a server goes on");
        sym::reach("server");
    }
}
/// What else goes on when a client is stopped goes on.
/// @bounds stopped while: any part of a frame has arrived; a handler runs, which then emits and ends in any way; a request waits; a stream of replies is full; events are being sent piecewise
/// @shards 1 2
#[no_mangle]
pub fn c26_meanwhile() {
    let (c, i, o) = client(registered());
    settle();
    let stop = |c: &Context| match block_on(3, c.clone().stop()) {
        Some(Ok(())) => {}
        _ => sym::fail("stopping works"),
    };
    let limit = std::time::Duration::from_secs(5);
    match sym::choose(5) {
        0 => {
            let b = frame(10, INITIATOR, None, None, "a", &[10]).encode();
            let k = sym::choose(b.len());
            i.d().push(&b[..k]);
            settle();
            stop(&c);
            settle();
            i.d().push(&b[k..]);
            settle();
            sym::check(world().log.is_empty() && sent(&o).is_empty(), "an event that was not complete is not handled after stopping");
            sym::reach("frame");
        }
        1 => {
            world().acts[1] = Act { emits: vec![(sym::flag(), vec![1])], gated: true, err: sym::flag(), fault: 0, data: Some(vec![2]) };
            i.d().push(&frame(10, INITIATOR, None, None, "a", &[10]).encode());
            settle();
            let emitted = sym::flag();
            if emitted {
                open_gate(1);
                settle();
            }
            stop(&c);
            settle();
            for _ in 0..2 {
                open_gate(1);
                settle();
            }
            let f = sent(&o);
            let kind = if world().acts[1].err { ERROR } else { END };
            sym::check(f.len() == 2 && f[0].data == [1] && f[1].kind == kind && f[1].re == Some(10), "a handler that runs when the client is stopped is answered");
            sym::reach("handler");
        }
        2 => {
            let mut job = [Job::new(2, c.emit("q", BytePayload::new(vec![1])).await_reply().with_timeout(limit))];
            drive(&mut job);
            let id = sent(&o)[0].id;
            stop(&c);
            drive(&mut job);
            i.d().push(&frame(10, END, Some(id), None, "a", &[10]).encode());
            drive(&mut job);
            sym::check(!job[0].done(), "nothing is received after stopping");
            advance(limit);
            drive(&mut job);
            sym::check(matches!(job[0].out, Some(Err(IPCError::Timeout))), "a request that waits when the client is stopped times out");
            sym::reach("request");
        }
        3 => {
            let mut s = match block_on(20, c.emit("q", BytePayload::new(vec![1])).stream_replies().with_timeout(limit)) {
                Some(Ok(s)) => s,
                _ => sym::fail("a stream of replies is opened"),
            };
            let id = sent(&o)[0].id;
            for k in 0..12 {
                i.d().push(&frame(10, RESPONSE, Some(id), None, "a", &[k]).encode());
            }
            settle();
            stop(&c);
            settle();
            sym::check(i.d().reader_gone, "the receiving half is released while a stream is full");
            let mut got = 0;
            use futures_core::Stream;
            while let Some(Some(Ok(e))) = block_on(3, std::future::poll_fn(|cx| std::pin::Pin::new(&mut s).poll_next(cx))) {
                sym::check(e.data_raw() == &[got][..], "replies that were received are not lost by stopping");
                got += 1;
            }
            sym::check(got > 0, "replies that were received are not lost by stopping");
            sym::reach("stream");
        }
        _ => {
            o.d().wcut = Cut::Slow(9);
            let mut job = [Job::new(2, c.emit("e", BytePayload::new(vec![1, 2, 3])))];
            for _ in 0..sym::choose(5) {
                job[0].step();
            }
            stop(&c);
            settle();
            drive(&mut job);
            let f = sent(&o);
            sym::check(matches!(job[0].out, Some(Ok(_))) && f.len() == 1 && f[0].data == [1, 2, 3], "an event that is being sent is sent whole");
            sym::reach("emit");
        }
    }
    settle();
    sym::check(i.d().reader_gone, "the receiving half is released");
    i.d().push(&frame(20, INITIATOR, None, None, "b", &[20]).encode());
    settle();
    sym::check(world().log.iter().all(|(_, f)| f.id != 20), "nothing is handled after stopping");
}
/// Stopping one connection of a pool stops no other.
/// @bounds pools of 2 and 3 connections; any of them is stopped, from its guard or a clone
/// @also C24
#[no_mangle]
pub fn c26_pool() {
    let n = 2 + sym::choose(2);
    let ends: Vec<(Pipe, Pipe)> = (0..n).map(|_| outgoing()).collect();
    let p = match block_on(40, registered().build_pooled_client(n)) {
        Some(Ok(p)) => p,
        _ => sym::fail("a pool is built"),
    };
    settle();
    let g: Vec<_> = (0..n).map(|_| p.acquire()).collect();
    let k = sym::choose(n);
    let c: Context = if sym::flag() { (*g[k]).clone() } else { (*g[k].clone()).clone() };
    sym::check(matches!(block_on(3, c.stop()), Some(Ok(()))), "stopping works");
    settle();
    let gone = ends.iter().filter(|e| e.0.d().reader_gone).count();
    sym::check(gone == 1, "one connection of the pool is released");
    for (x, e) in ends.iter().enumerate() {
        e.0.d().push(&frame(10 + x as u64, INITIATOR, None, None, "a", &[x as u8]).encode());
    }
    settle();
    sym::check(world().log.len() == n - 1, "the other connections go on");
    for e in &ends {
        sym::check(sent(&e.1).len() == !e.0.d().reader_gone as usize, "the other connections go on");
    }
    sym::reach("compared");
}
/// A thread stops the client while another receives.
/// @bounds two events in the pipe; stop on one thread, or on two at once; every interleaving with up to 2 interruptions (1 if there are two), each before any atomic access
/// @deep up to 3 interruptions (2)
/// @shards 4 8
/// @seconds 250 3000
/// @threads
#[no_mangle]
pub fn c26_threads() {
    let (c, i, o) = client(registered());
    settle();
    for k in 0..2 {
        i.d().push(&frame(10 + k, INITIATOR, None, None, "a", &[k as u8]).encode());
    }
    let (mut x, mut y) = (None, None);
    let (d, e) = (c.clone(), c.clone());
    let mut l: Vec<Box<dyn FnOnce()>> = vec![Box::new(worker)];
    l.push(body(&mut x, move |x| *x = block_on_at(1, d.stop())));
    let twice = sym::flag();
    if twice {
        l.push(body(&mut y, move |y| *y = block_on_at(2, e.stop())));
    } else {
        y = Some(Ok(()));
    }
    sym::turns(sym::bound(2, 3) - twice as usize, l);
    sym::check(matches!(x, Some(Ok(()))) && matches!(y, Some(Ok(()))), "stopping works, once or twice");
    settle();
    let n = world().log.len();
    sym::check(i.d().reader_gone, "the receiving half is released");
    i.d().push(&frame(20, INITIATOR, None, None, "a", &[9]).encode());
    settle();
    sym::check(world().log.len() == n && n <= 2 && sent(&o).len() == n, "nothing is handled after stopping, everything before is answered");
    sym::reach("stopped");
}
