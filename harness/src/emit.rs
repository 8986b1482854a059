//! C07, C14, C16: what is sent.
use crate::kit::*;
use crate::net::*;
use crate::spec::{self, Frame, INITIATOR};
use bromine::bytes::Bytes;
use bromine::event::Event;
use bromine::payload::IntoPayload;
use bromine::prelude::*;
use std::time::Duration;
use tokio::model::*;

fn new_event(k: usize) -> u64 {
    let d = Bytes::new();
    match k {
        0 => Event::initiator(None, String::new(), d).id(),
        1 => Event::response(None, "n".into(), d, 1).id(),
        2 => Event::end(Some("n".into()), String::new(), d, 2).id(),
        _ => Event::error(None, String::new(), d, 3).id(),
    }
}
/// A few events under any readings of the clock.
/// @bounds 3 events of any type; every clock reading (32 bits of seconds, nanoseconds), also going backwards
/// @deep 4 events
#[no_mangle]
pub fn c07_clock() {
    crate::env::clock_symbolic();
    let n = sym::bound(3, 4);
    let ids: Vec<u64> = (0..n).map(|_| new_event(sym::choose(4))).collect();
    for i in 0..n {
        for j in 0..i {
            sym::check(ids[i] != ids[j], "two events have different ids whatever the clock shows");
        }
    }
    sym::reach("compared");
}
/// Long histories: the first and the last of many events, under any readings of the clock.
/// @bounds histories of 2, 17, 257, 1025 and 65537 events; the clock shows anything for the first, the second and the last, and stands still in between
/// @deep histories of up to 2^20+1 events
/// @steps 4000000000
/// @shards 4 8
/// @seconds 300 3000
#[no_mangle]
pub fn c07_many() {
    let n = [2, 17, 257, 1025, 65537, 1 << 20 | 1][sym::choose(sym::bound(5, 6))];
    crate::env::clock_symbolic();
    let first = new_event(0);
    let second = new_event(1);
    crate::env::clock_fixed();
    let mut same = false;
    for _ in 2..n {
        let x = new_event(0);
        same |= x == first || x == second;
    }
    sym::check(!same, "no later event has the id of the first or second");
    crate::env::clock_symbolic();
    let last = new_event(0);
    sym::check(first != last && second != last, "ids do not come back however many events there were");
    sym::reach("compared");
}
/// All ids of a history while the clock stands still.
/// @bounds 2000 events
/// @deep 70000 events
/// @steps 4000000000
#[no_mangle]
pub fn c07_still() {
    let n = sym::bound(2000, 70000);
    let mut ids: Vec<u64> = (0..n).map(|_| new_event(0)).collect();
    ids.sort_unstable();
    sym::check(ids.windows(2).all(|w| w[0] != w[1]), "all ids differ while the clock stands still");
    sym::reach("compared");
}
/// Events created on several threads at once.
/// @bounds 2 threads with 2 events each, or 3 threads with 1 each; every interleaving with up to 4 interruptions, each before any atomic access of the other threads
/// @deep 3 events on each of 2 threads, 2 on each of 3; 5 interruptions
/// @shards 4 8
/// @seconds 250 3000
/// @threads
#[no_mangle]
pub fn c07_threads() {
    let (t, n) = [(2, sym::bound(2, 3)), (3, sym::bound(1, 2))][sym::choose(2)];
    let n = if sym::NATIVE { 300_000 } else { n };
    if sym::flag() {
        // whatever is set up at the first event is there already
        new_event(0);
    }
    let mut out: Vec<Vec<u64>> = vec![Vec::new(); t];
    let bodies = out.iter_mut().map(|o| {
        let o: &'static mut Vec<u64> = unsafe { &mut *(o as *mut _) };
        o.reserve(n);
        Box::new(move || o.extend((0..n).map(|k| new_event(k % 4)))) as Box<dyn FnOnce()>
    });
    sym::threads(sym::bound(4, 5), bodies.collect());
    let mut ids = out.concat();
    ids.sort_unstable();
    sym::check(ids.len() == t * n && ids.windows(2).all(|w| w[0] != w[1]), "events of different threads have different ids");
    sym::reach("compared");
}
/// The ids of emitted events are those on the wire and differ.
/// @bounds three emits of one context, clones and requests, any clock readings
#[no_mangle]
pub fn c07_emitted() {
    let (c, _i, o) = client(builder());
    crate::env::clock_symbolic();
    let mut ids = Vec::new();
    for k in 0..3 {
        let x = if sym::flag() { c.clone() } else { c.clone().clone() };
        match block_on(20, x.emit("e", BytePayload::new(vec![k]))) {
            Some(Ok(i)) => ids.push(i),
            _ => sym::fail("an event is emitted"),
        }
    }
    let f = sent(&o);
    sym::check(f.len() == 3, "three events are sent");
    for i in 0..3 {
        sym::check(f[i].id == ids[i], "emitting returns the id on the wire");
        for j in 0..i {
            sym::check(ids[i] != ids[j], "emitted events have different ids");
        }
    }
    sym::reach("compared");
}

fn emit(c: &Context, k: usize, data: Vec<u8>) -> Job<IPCResult<u64>> {
    let p = BytePayload::new(data);
    if k == 1 {
        Job::new(k, c.emit_to("ns", "two", p))
    } else {
        Job::new(k, c.emit(["one", "two", "three"][k], p))
    }
}
fn find<'a>(f: &'a [Frame], k: usize) -> Vec<usize> {
    (0..f.len()).filter(|i| f[*i].data.first() == Some(&(k as u8))).collect()
}
/// Emits that overlap, and some that are cancelled.
/// @bounds three emits; the transport takes everything, 1, 7, 20 or any number of bytes, pending before or not, flush pending or not; the first 8 scheduling choices among polling each of them and cancelling one; a fourth emit afterwards
/// @deep 12 scheduling choices
/// @shards 8 16
/// @seconds 300 3000
#[no_mangle]
pub fn c14_interleaving() {
    let (c, _i, o) = client(builder());
    o.d().wcut = [Cut::Slow(20), Cut::Slow(7), Cut::Max(7), Cut::Any(2), Cut::Slow(1)][sym::choose(sym::bound(4, 5))];
    o.d().flush_pending = sym::flag();
    let datas: Vec<Vec<u8>> = (0..4).map(|k| [vec![k as u8, sym::u8()], sym::vec(k)].concat()).collect();
    let mut jobs: Vec<Job<IPCResult<u64>>> = (0..3).map(|k| emit(&c, k, datas[k].clone())).collect();
    let cancel = sym::choose(4);
    let mut cancelled = false;
    // which were complete when another one began
    let mut before: Vec<(usize, usize)> = Vec::new();
    for _ in 0..sym::bound(8, 12) {
        let can = cancel < 3 && !cancelled && jobs[cancel].started() && !jobs[cancel].done();
        match pick(&[jobs[0].ready(), jobs[1].ready(), jobs[2].ready(), can]) {
            Some(3) => {
                jobs[cancel].cancel();
                cancelled = true;
            }
            Some(k) => {
                if !jobs[k].started() {
                    before.extend((0..3).filter(|j| jobs[*j].done()).map(|j| (j, k)));
                }
                jobs[k].step();
            }
            None => break,
        }
    }
    drive(&mut jobs);
    let mut last = [emit(&c, 0, datas[3].clone())];
    drive(&mut last);
    let f = sent(&o);
    for k in 0..3 {
        let at = find(&f, k);
        if cancelled && k == cancel {
            sym::check(at.len() <= 1, "a cancelled emit sends its event at most once");
            sym::reach("cancelled");
        } else {
            match &jobs[k].out {
                Some(Ok(id)) => {
                    sym::check(at.len() == 1, "every emit sends its event once");
                    sym::check(f[at[0]].id == *id, "the event has the id that was returned");
                }
                _ => sym::fail("every emit completes"),
            }
        }
        if let Some(i) = at.first() {
            sym::check(f[*i].data == datas[k], "concurrent emits do not mix their bytes");
        }
    }
    sym::check(matches!(last[0].out, Some(Ok(_))) && f.last().map_or(false, |f| f.data == datas[3]), "a later event follows whole");
    for (a, b) in before {
        if let (Some(x), Some(y)) = (find(&f, a).first(), find(&f, b).first()) {
            sym::check(x < y, "an emit that was complete before another began comes first");
        }
    }
    sym::check(o.d().flushed == o.d().data.len(), "everything is flushed");
    sym::reach("compared");
}
/// Emits on two threads at once.
/// @bounds two emits, with or without a third before; the transport takes everything, or 20 bytes at a time; every interleaving with up to 2 interruptions, each before any atomic access
/// @deep up to 4 interruptions
/// @shards 4 8
/// @seconds 250 3000
/// @threads
/// @also C16
#[no_mangle]
pub fn c14_threads() {
    let (c, _i, o) = client(builder());
    o.d().wcut = [Cut::Whole, Cut::Slow(20)][sym::choose(2)];
    let mut jobs = [emit(&c, 0, vec![0, 10]), emit(&c, 1, vec![1, 11])];
    if sym::flag() {
        drive(&mut [emit(&c, 2, vec![2, 12])]);
    }
    let [a, b] = &mut jobs;
    let l = vec![body(a, |j| while j.step() {}), body(b, |j| while j.step() {})];
    sym::turns(sym::bound(2, 4), l);
    drive(&mut jobs);
    let f = sent(&o);
    for k in 0..2 {
        let at = find(&f, k);
        match &jobs[k].out {
            Some(Ok(id)) => {
                sym::check(at.len() == 1 && f[at[0]].id == *id, "every emit sends its event once");
                sym::check(f[at[0]].data == [k as u8, 10 + k as u8], "emits of two threads do not mix their bytes");
            }
            _ => sym::fail("every emit completes"),
        }
    }
    sym::check(o.d().flushed == o.d().data.len(), "everything is flushed");
    sym::reach("compared");
}
/// Events much larger than what a transport takes at once.
/// @bounds two emits of 9000 or 70000 bytes and a small one; the transport takes 1000, 4096, 8192 or 65536 bytes at a time, pending before each; the first 6 scheduling choices among polling each of them and cancelling one; a fourth emit afterwards
/// @deep 9 scheduling choices
/// @shards 4 8
/// @also C16
#[no_mangle]
pub fn c14_large() {
    let (c, _i, o) = client(builder());
    o.d().wcut = [Cut::Slow(1000), Cut::Slow(4096), Cut::Slow(8192), Cut::Slow(65536)][sym::choose(4)];
    let n = [9000, 70000][sym::choose(2)];
    let datas = [[vec![0], big(n, 1)].concat(), [vec![1], big(n, 2)].concat(), vec![2, sym::u8()], vec![3, sym::u8()]];
    let mut jobs: Vec<Job<IPCResult<u64>>> = (0..3).map(|k| emit(&c, k, datas[k].clone())).collect();
    let cancel = [0, 3][sym::choose(2)];
    let mut cancelled = false;
    for _ in 0..sym::bound(6, 9) {
        let can = cancel < 3 && !cancelled && jobs[cancel].started() && !jobs[cancel].done();
        match pick(&[jobs[0].ready(), jobs[1].ready(), jobs[2].ready(), can]) {
            Some(3) => {
                jobs[cancel].cancel();
                cancelled = true;
            }
            Some(k) => {
                jobs[k].step();
            }
            None => break,
        }
    }
    drive(&mut jobs);
    let mut last = [emit(&c, 0, datas[3].clone())];
    drive(&mut last);
    let f = sent(&o);
    for k in 0..3 {
        let at = find(&f, k);
        if cancelled && k == cancel {
            sym::check(at.len() <= 1, "a cancelled emit sends its event at most once");
            sym::reach("cancelled");
        } else {
            sym::check(matches!(jobs[k].out, Some(Ok(_))) && at.len() == 1, "every emit sends its event once");
        }
        if let Some(i) = at.first() {
            sym::check(f[*i].data == datas[k], "concurrent emits do not mix their bytes");
        }
    }
    sym::check(f.last().map_or(false, |f| f.data == datas[3]), "a later event follows whole");
    sym::check(o.d().flushed == o.d().data.len(), "everything is flushed");
    sym::reach("compared");
}
/// Emits of handlers and of the application at the same time.
/// @bounds a handler with one emit and its final event, and one emit of the application; 7 scheduling choices; the transport takes 9 bytes at a time after being pending
/// @deep 12 scheduling choices
/// @also C13
#[no_mangle]
pub fn c14_handler() {
    let (c, i, o) = client(builder().on("a", handler(1)));
    o.d().wcut = Cut::Slow(9);
    world().acts[1] = Act { emits: vec![(true, vec![1, 1])], gated: false, err: sym::flag(), fault: 0, data: None };
    i.d().push(&spec::frame(5, INITIATOR, None, None, "a", &[]).encode());
    let mut job = [emit(&c, 0, vec![0, 9])];
    for _ in 0..sym::bound(7, 12) {
        let n = spawned();
        match pick(&[job[0].ready(), ready(0), ready(n - 1) && n > 2]) {
            Some(0) => {
                job[0].step();
            }
            Some(1) => {
                poll_task(0);
            }
            Some(_) => {
                poll_task(n - 1);
            }
            None => break,
        }
    }
    drive(&mut job);
    let f = sent(&o);
    sym::check(f.len() == 3, "three whole events are sent");
    sym::check(f.iter().filter(|f| f.re == Some(5)).count() == 2 && find(&f, 0).len() == 1, "each of them once");
    sym::reach("compared");
}

/// One emit against any behaviour of the transport.
/// @bounds payload of 0..3 or 1100 bytes, with a namespace, or an event of one byte of name and nothing else; the transport takes everything, any number of bytes (2 choices), 1 or 7 bytes at a time, pending before or not; flush pending or not; it fails at any of the first 48 bytes with an error, after 0, 1, 9 or 30 bytes by accepting none, or not at all; the flush fails or not
/// @shards 2 4
/// @also C14
#[no_mangle]
pub fn c16_complete() {
    let (c, i, o) = client(builder());
    o.d().wcut = [Cut::Whole, Cut::Any(sym::bound(2, 5)), Cut::Slow(1), Cut::Max(7), Cut::Slow(7)][sym::choose(5)];
    o.d().flush_pending = sym::flag();
    let (ns, name, d) = match sym::choose(5) {
        4 => (None, "n", vec![]),
        3 => (Some("ns"), "name", vec![7; 1100]),
        n => (Some("ns"), "name", sym::vec(n)),
    };
    let fail = sym::choose(4);
    match fail {
        0 => (),
        1 => o.d().flush_fail = true,
        2 => o.d().fail_at = Some(sym::choose(49)),
        _ => {
            o.d().fail_at = Some([0, 1, 9, 30][sym::choose(4)]);
            o.d().fail_zero = true;
        }
    }
    let mut job = [Job::new(0, match ns {
        None => c.emit(name, BytePayload::new(d.clone())),
        Some(s) => c.emit_to(s, name, BytePayload::new(d.clone())),
    })];
    drive_long(&mut job);
    match &job[0].out {
        Some(Ok(id)) => {
            sym::check(o.d().flushed == o.d().data.len(), "a successful emit has flushed its bytes");
            let f = sent(&o);
            let want = spec::frame(*id, INITIATOR, None, ns, name, &d);
            sym::check(f.len() == 1 && f[0] == want, "a successful emit has written exactly its event");
            sym::check(fail != 1, "an emit whose flush failed is not successful");
            sym::reach("success");
        }
        Some(Err(IPCError::IoError(_))) => {
            sym::check(fail != 0, "an emit fails only if the transport does");
            sym::reach("failure");
        }
        Some(Err(_)) => sym::fail("a failure of the transport is reported as such"),
        None => sym::fail("an emit completes when the transport goes on"),
    }
    drop(i);
}
/// One large emit, and one after it.
/// @bounds payload of 8100..8200, 65400..65600 or 140000 bytes; the transport takes everything or 1000, 4096 or 65536 bytes at a time, pending or not; it fails after 0, 1, 1000, 4096, 8192, 65535, 65536 or 139999 bytes or not at all, with an error or by accepting no bytes
/// @shards 2 4
/// @also C14
#[no_mangle]
pub fn c16_large() {
    let (c, _i, o) = client(builder());
    o.d().wcut = [Cut::Whole, Cut::Slow(1000), Cut::Max(4096), Cut::Slow(65536)][sym::choose(4)];
    o.d().flush_pending = sym::flag();
    let d = big([8150, 8192, 65480, 65535, 65536, 140000][sym::choose(6)], 3);
    let fail = sym::flag();
    if fail {
        o.d().fail_zero = sym::flag();
        o.d().fail_at = Some([0, 1, 1000, 4096, 8192, 65535, 65536, 139999][sym::choose(8)]);
    }
    let mut job = [Job::new(0, c.emit("name", BytePayload::new(d.clone())))];
    drive_long(&mut job);
    let want = |id: u64| spec::frame(id, INITIATOR, None, None, "name", &d);
    match &job[0].out {
        Some(Ok(id)) => {
            sym::check(o.d().flushed == o.d().data.len(), "a successful emit has flushed its bytes");
            let f = sent(&o);
            sym::check(f.len() == 1 && f[0] == want(*id), "a successful emit has written exactly its event");
            sym::reach("success");
            let mut job = [Job::new(0, c.emit("next", BytePayload::new(d.clone())))];
            drive_long(&mut job);
            if let Some(Ok(_)) = job[0].out {
                let f = sent(&o);
                sym::check(f.len() == 1 && f[0].data == d && f[0].name == b"next", "the next emit has written exactly its event");
            } else {
                sym::check(fail, "an emit fails only if the transport does");
            }
        }
        Some(Err(IPCError::IoError(_))) => {
            sym::check(fail, "an emit fails only if the transport does");
            let written = o.d().data.clone();
            sym::check(written.len() <= want(0).encode().len(), "no more than the event is written");
            sym::reach("failure");
        }
        Some(Err(_)) => sym::fail("a failure of the transport is reported as such"),
        None => sym::fail("an emit completes when the transport goes on"),
    }
}
fn drive_long<T>(j: &mut [Job<T>]) {
    for _ in 0..4000 {
        if !j[0].step() {
            break;
        }
    }
}
/// A peer that closed its end is noticed; a transport that accepts nothing is waited for.
/// @bounds reader gone before or after 0..3 accepted bytes; or the window opens later
/// @also C14
#[no_mangle]
pub fn c16_blocked() {
    let (c, i, o) = client(builder());
    o.d().window = sym::choose(4);
    let mut job = [Job::new(0, c.emit("name", BytePayload::new(sym::vec(2))))];
    drive(&mut job);
    sym::check(!job[0].done(), "an emit waits for the transport");
    if sym::flag() {
        o.d().reader_gone = true;
        o.d().wake_writer();
        drive(&mut job);
        sym::check(matches!(job[0].out, Some(Err(IPCError::IoError(_)))), "a closed connection is reported");
        sym::reach("closed");
    } else {
        o.d().open_window(usize::MAX);
        drive(&mut job);
        sym::check(matches!(job[0].out, Some(Ok(_))) && sent(&o).len() == 1, "a blocked emit goes on when it can");
        sym::reach("opened");
    }
    drop(i);
}
struct Bad;
impl IntoPayload for Bad {
    fn into_payload(self, _: &Context) -> IPCResult<Bytes> {
        Err(IPCError::from("cannot be encoded"))
    }
}
/// Events that cannot be encoded are reported and nothing of them is sent.
/// @bounds payload refused or a name of 65536 bytes; plain emit, request or stream of replies; a good event after it
#[no_mangle]
pub fn c16_not_encodable() {
    let (c, _i, o) = client(builder());
    let bad = sym::flag();
    let long = "x".repeat(65536);
    let failed = match (sym::choose(3), bad) {
        (0, true) => matches!(block_on(50, c.emit("n", Bad)), Some(Err(_))),
        (1, true) => matches!(block_on(50, c.emit("n", Bad).await_reply()), Some(Err(_))),
        (_, true) => matches!(block_on(50, c.emit("n", Bad).stream_replies()), Some(Err(_))),
        (0, false) => matches!(block_on(50, c.emit(&long, BytePayload::new(vec![]))), Some(Err(_))),
        (1, false) => matches!(block_on(50, c.emit(&long, BytePayload::new(vec![])).await_reply()), Some(Err(_))),
        (_, false) => matches!(block_on(50, c.emit(&long, BytePayload::new(vec![])).stream_replies()), Some(Err(_))),
    };
    sym::check(failed, "an event that cannot be encoded is an error");
    sym::check(o.d().data.is_empty(), "nothing of it is sent");
    sym::check(matches!(block_on(50, c.emit("n", BytePayload::new(sym::vec(1)))), Some(Ok(_))), "the connection is not affected");
    sym::check(sent(&o).len() == 1, "the next event is sent");
    advance(Duration::from_secs(1));
    sym::reach("compared");
}
