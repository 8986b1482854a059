//! C01-C06: the wire format.
use crate::net::*;
use crate::spec::{self, Frame, Parsed};
use bromine::bytes::Bytes;
use bromine::event::Event;
use bromine::prelude::{IPCError, IPCResult};
use tokio::model::block_on;

/// A valid UTF-8 string of `n` bytes, any of them.
pub fn text(n: usize) -> String {
    match String::from_utf8(sym::vec(n)) {
        Ok(s) => s,
        Err(_) => {
            sym::assume(false);
            String::new()
        }
    }
}
/// A namespace of up to `n` bytes; an empty one is no namespace.
pub fn namespace(n: usize) -> Option<String> {
    match sym::choose(n + 1) {
        0 => None,
        k => Some(text(k)),
    }
}
/// An event made by one of the public constructors, and the frame it stands for.
pub fn event(kind: usize, ns: Option<String>, name: String, data: Vec<u8>) -> (Event, Frame) {
    let re = sym::u64();
    let mut f = spec::frame(0, kind as u8, if kind == 0 { None } else { Some(re) }, ns.as_deref(), &name, &data);
    let d = Bytes::from(data);
    let e = match kind {
        0 => Event::initiator(ns, name, d),
        1 => Event::response(ns, name, d, re),
        2 => Event::end(ns, name, d, re),
        _ => Event::error(ns, name, d, re),
    };
    f.id = e.id();
    (e, f)
}
pub fn decode(r: &mut &[u8]) -> IPCResult<Event> {
    match block_on(8, Event::from_async_read(r)) {
        Some(r) => r,
        None => sym::fail("decoding from memory does not stall"),
    }
}

/// Every event survives encoding and decoding, also as one of several in a stream.
/// @bounds 4 types, any id and reference id, namespace of 0 to 2 bytes or none, name of 0 to 2 bytes (all UTF-8), payload of 0, 1, 3 or 9 bytes (all), followed by a second event
/// @deep namespace of up to 3, name of up to 3 bytes, payload of up to 17
/// @shards 4 8
/// @seconds 300 3000
/// @also C02
#[no_mangle]
pub fn c01_roundtrip() {
    let kind = sym::choose(4);
    let ns = namespace(sym::bound(2, 3));
    let name = text(sym::choose(sym::bound(3, 4)));
    let data = sym::vec([0, 1, 3, 9, 2, 17][sym::choose(sym::bound(4, 6))]);
    let (e, f) = event(kind, ns, name, data);
    sym::check(spec::same(&e, &f), "an event has the fields it was made of");
    let (e2, f2) = event((kind + 1) % 4, Some("n".into()), text(1), sym::vec(2));
    let mut all = match e.into_bytes() {
        Ok(b) => b.to_vec(),
        Err(_) => sym::fail("a small event can be encoded"),
    };
    all.extend_from_slice(&e2.into_bytes().unwrap());
    let mut r = &all[..];
    match decode(&mut r) {
        Ok(d) => sym::check(spec::same(&d, &f), "the first event decodes to what was encoded"),
        Err(_) => sym::fail("the first event decodes"),
    }
    match decode(&mut r) {
        Ok(d) => sym::check(spec::same(&d, &f2), "the second event decodes to what was encoded"),
        Err(_) => sym::fail("the second event decodes"),
    }
    sym::check(r.is_empty(), "decoding takes exactly the bytes of the event");
    sym::reach("both events compared");
}

fn ascii(n: usize) -> String {
    // the first and the last bytes are symbolic
    let mut v = vec![b'x'; n];
    for i in [0, 1, n.saturating_sub(2), n.saturating_sub(1)] {
        if i < n {
            v[i] = sym::u8();
            sym::assume(v[i] < 128);
        }
    }
    String::from_utf8(v).unwrap()
}
/// About `n` bytes of characters of 2 to 4 bytes; the last one is any of three.
fn wide(n: usize) -> String {
    let c = ['\u{e9}', '\u{20ac}', '\u{1f980}'];
    let mut s = String::new();
    while s.len() + 8 <= n {
        s.push(c[s.len() % 3]);
    }
    if s.len() > 0 {
        s.push(c[sym::choose(3)]);
    }
    s
}
const LENS: [usize; 14] = [0, 1, 127, 128, 255, 256, 257, 511, 1024, 4096, 8193, 32767, 32768, 65000];
const DLENS: [usize; 14] = [0, 255, 256, 1023, 1024, 4095, 8192, 65535, 65536, 65537, 70000, 131072, 262144, 300001];

/// The same for long names, namespaces and payloads, with contents symbolic at the ends.
/// @bounds names and namespaces (also of several bytes per character) of 0 to 8193 bytes, payloads of 0 to 70000 bytes, at the boundaries of the length fields; first and last bytes symbolic
/// @deep names of up to 65000, payloads of up to 300001 bytes
/// @also C02
/// @shards 2 8
/// @seconds 300 3000
#[no_mangle]
pub fn c01_long() {
    let which = sym::choose(4);
    let n = sym::choose(sym::bound(11, 14));
    let (ns, name, data) = match which {
        3 => (Some(wide(LENS[n])).filter(|s| !s.is_empty()), wide(LENS[n] / 3), sym::vec(1)),
        0 => (None, ascii(LENS[n]), sym::vec(2)),
        1 => (if n == 0 { None } else { Some(ascii(LENS[n])) }, ascii(3), sym::vec(2)),
        _ => {
            let mut d = vec![0x5a; DLENS[n]];
            let l = d.len();
            for i in [0, 1, l / 2, l.saturating_sub(2), l.saturating_sub(1)] {
                if i < l {
                    d[i] = sym::u8();
                }
            }
            (Some("n".into()), ascii(1), d)
        }
    };
    let (e, f) = event(1, ns, name, data);
    let b = match e.into_bytes() {
        Ok(b) => b,
        Err(_) => sym::fail("an event whose names fit can be encoded"),
    };
    sym::check(spec::eq(&b, &f.encode()), "the bytes are the specified ones");
    let mut r = &b[..];
    match decode(&mut r) {
        Ok(d) => sym::check(spec::same(&d, &f), "a long event decodes to what was encoded"),
        Err(_) => sym::fail("a long event decodes"),
    }
    sym::check(r.is_empty(), "decoding takes exactly the bytes of the event");
    sym::reach("compared");
}

/// Events of many megabytes.
/// @bounds payloads of 1048577, 5000000 and 17000000 bytes, of which one of 6 is symbolic; followed by a small event; arriving at once or in pieces of 1 MiB
/// @steps 1000000000
/// @shards 4 4
/// @seconds 300 1000
/// @also C05
#[no_mangle]
pub fn c01_huge() {
    let n = [1048577, 5000000, 17000000][sym::choose(3)];
    let at = [0, 1, n / 2, 65536, n - 2, n - 1][sym::choose(6)];
    let mut d = crate::kit::big(n, 3);
    d[at] = sym::u8();
    let (e, f) = event(1, None, "n".into(), d);
    let mut b = match e.into_bytes() {
        Ok(b) => b.to_vec(),
        Err(_) => sym::fail("an event whose names fit can be encoded"),
    };
    sym::check(b.len() == Frame { data: Vec::new(), ..f.clone() }.encode().len() + n, "the frame has the specified length");
    let next = spec::frame(5, 1, None, None, "next", &[9]);
    b.extend_from_slice(&next.encode());
    let mut s = &b[..];
    match decode(&mut s) {
        Ok(g) => {
            let g = crate::kit::frame_of(&g);
            sym::check(g.id == f.id && g.name == f.name && g.data.len() == n, "a long event decodes to what was encoded");
            sym::check(g.data[at] == f.data[at] && g.data[..at] == f.data[..at] && g.data[at + 1..] == f.data[at + 1..], "a long event decodes to what was encoded");
        }
        Err(_) => sym::fail("a long event decodes"),
    }
    match decode(&mut s) {
        Ok(g) => sym::check(spec::same(&g, &next), "the next event is found where it begins"),
        Err(_) => sym::fail("the next event is found where it begins"),
    }
    sym::reach("compared");
}

/// The encoding is byte for byte the specified one.
/// @bounds 4 types, any ids, namespace and name of 0 to 2 bytes (all UTF-8), payload of 0 to 3 bytes
/// @deep namespace and name of up to 3, payload of up to 7 bytes
/// @seconds 300 3000
/// @shards 2 8
#[no_mangle]
pub fn c02_layout() {
    let kind = sym::choose(4);
    let ns = namespace(sym::bound(2, 3));
    let name = text(sym::choose(sym::bound(3, 4)));
    let data = sym::vec(sym::choose(sym::bound(4, 8)));
    let (e, f) = event(kind, ns, name, data);
    match e.into_bytes() {
        Ok(b) => sym::check(spec::eq(&b, &f.encode()), "the bytes are the specified ones"),
        Err(_) => sym::fail("a small event can be encoded"),
    }
    sym::reach("compared");
}
/// And the specified bytes decode to the event they describe, whatever id they carry.
/// @bounds 4 types, any ids, reference id or none, namespace and name of 0 to 2 bytes (all UTF-8), payload of 0 to 2 bytes
/// @deep namespace and name of up to 3, payload of up to 5 bytes
/// @seconds 300 3000
/// @shards 2 8
/// @also C01
#[no_mangle]
pub fn c02_decode() {
    let kind = sym::choose(4);
    let re = if sym::flag() { Some(sym::u64()) } else { None };
    let ns = namespace(sym::bound(2, 3));
    let name = text(sym::choose(sym::bound(3, 4)));
    let data = sym::vec(sym::choose(sym::bound(3, 6)));
    let f = spec::frame(sym::u64(), kind as u8, re, ns.as_deref(), &name, &data);
    let b = f.encode();
    let mut r = &b[..];
    match decode(&mut r) {
        Ok(d) => sym::check(spec::same(&d, &f), "specified bytes decode to the event they describe"),
        Err(_) => sym::fail("specified bytes decode"),
    }
    sym::reach("compared");
}

fn utf8(b: &[u8]) -> bool {
    std::str::from_utf8(b).is_ok()
}
/// Compares what the decoder makes of `b` with the specification.
fn judge(b: &[u8]) {
    let mut r = b;
    let got = decode(&mut r);
    let used = b.len() - r.len();
    match spec::parse(b) {
        Parsed::Frame(f, n) if utf8(&f.name) && f.ns.as_ref().map_or(true, |n| utf8(n)) => {
            match got {
                Ok(e) => {
                    sym::check(spec::same(&e, &f), "an accepted frame means what the specification says");
                    sym::check(used == n, "exactly the frame is taken from the stream");
                    sym::reach("accepted");
                }
                Err(_) => sym::fail("a well-formed frame is accepted"),
            }
        }
        Parsed::Frame(_, n) => {
            sym::check(got.is_err(), "a name that is not UTF-8 is rejected");
            sym::check(used <= n, "no more than the frame is taken");
            sym::reach("not utf-8");
        }
        Parsed::Short => {
            sym::check(got.is_err(), "a truncated frame is rejected");
            sym::reach("truncated");
        }
        Parsed::Bad => {
            sym::check(got.is_err(), "a malformed frame is rejected");
            sym::reach("malformed");
        }
    }
}
/// Any byte string at all.
/// @bounds all byte strings of up to 29 bytes
/// @deep all byte strings of up to 31 bytes
/// @reach truncated
/// @reach malformed
/// @reach accepted
/// @shards 4 8
/// @seconds 300 3000
#[no_mangle]
pub fn c03_arbitrary() {
    sym::alloc_limit(1 << 18);
    let n = sym::choose(sym::bound(30, 32));
    let b = sym::vec(n);
    judge(&b);
}
/// Any header of a fitting length that refers to another event, so that this part is reached.
/// @bounds all headers of 11 to 27 bytes that begin with 0 and claim a reference id, payload of 0 to 2 bytes
/// @deep all headers of 11 to 29 bytes
/// @reach malformed
/// @reach accepted
/// @reach not utf-8
/// @shards 4 8
/// @seconds 300 3000
#[no_mangle]
pub fn c03_header() {
    sym::alloc_limit(1 << 18);
    let n = 11 + sym::choose(sym::bound(17, 19));
    let d = sym::choose(3);
    let mut h = sym::vec(n);
    h[0] = 0;
    if n > 12 {
        h[12] = 0xff;
    }
    let mut b = spec::encode_raw(&h, &sym::vec(d));
    b.push(sym::u8());
    judge(&b);
}
/// Any announced lengths before a valid header.
/// @bounds all 10 bytes of announced lengths before a valid header and 6 arbitrary bytes
/// @deep 12 arbitrary bytes after the header
/// @reach truncated
/// @reach malformed
/// @reach accepted
/// @shards 2 8
/// @seconds 300 3000
#[no_mangle]
pub fn c03_lengths() {
    sym::alloc_limit(1 << 18);
    let f = spec::frame(sym::u64(), 0, None, None, "ab", &[]);
    let mut b = sym::vec(10);
    b.extend_from_slice(&f.header());
    b.extend_from_slice(&sym::vec(sym::bound(6, 12)));
    judge(&b);
}
/// Peers of another major version are told apart from corruption.
/// @bounds all versions
#[no_mangle]
pub fn c03_version() {
    let f = spec::frame(sym::u64(), 0, None, None, "ab", &[1]);
    let mut b = f.encode();
    let v: [u8; 3] = sym::bytes();
    b[10..13].copy_from_slice(&v);
    let mut r = &b[..];
    match decode(&mut r) {
        Ok(_) => sym::check(v[0] == 0, "another major version is refused"),
        Err(IPCError::UnsupportedVersion(_)) => {
            sym::check(v[0] != 0, "the own major version is understood");
            sym::reach("refused");
        }
        Err(_) => sym::fail("a version mismatch is reported as such"),
    }
}

/// Header fields this version does not know are skipped.
/// @bounds 4 types, any minor and patch version, 0 to 4 arbitrary further header bytes, names of 0 to 2 and payloads of 0 to 2 bytes, followed by a second event
/// @deep 0 to 11 further bytes
/// @shards 2 8
/// @seconds 300 3000
/// @also C03
#[no_mangle]
pub fn c04_extension() {
    let kind = sym::choose(4);
    let re = if sym::flag() { Some(sym::u64()) } else { None };
    let ns = namespace(1);
    let name = text(sym::choose(3));
    let data = sym::vec(sym::choose(3));
    let f = spec::frame(sym::u64(), kind as u8, re, ns.as_deref(), &name, &data);
    let mut h = f.header();
    h[1] = sym::u8();
    h[2] = sym::u8();
    h.extend_from_slice(&sym::vec(sym::choose(sym::bound(5, 12))));
    let mut b = spec::encode_raw(&h, &data);
    let next = spec::frame(sym::u64(), 1, Some(3), None, "nx", &sym::bytes::<2>());
    b.extend_from_slice(&next.encode());
    let mut r = &b[..];
    match decode(&mut r) {
        Ok(e) => sym::check(spec::same(&e, &f), "unknown trailing header fields change nothing"),
        Err(_) => sym::fail("a header with unknown trailing fields is accepted"),
    }
    match decode(&mut r) {
        Ok(e) => sym::check(spec::same(&e, &next), "the next event is found after an extended header"),
        Err(_) => sym::fail("the next event is found after an extended header"),
    }
    sym::reach("compared");
}

/// However long the part of the header is that this version does not know.
/// @bounds 15 to 65000 further header bytes (12 lengths) of any kind at both ends, names of up to 300 bytes, payload of 0, 3 or 1000 bytes; followed by a second event
/// @shards 2 4
/// @also C03
#[no_mangle]
pub fn c04_long() {
    let long = "x".repeat(300);
    let name = ["n", long.as_str()][sym::choose(2)];
    let data = match sym::choose(3) {
        0 => vec![],
        1 => sym::vec(3),
        _ => crate::kit::big(1000, 9),
    };
    let f = spec::frame(sym::u64(), sym::choose(4) as u8, Some(sym::u64()), Some("ns"), name, &data);
    let mut h = f.header();
    h[1] = sym::u8();
    h[2] = sym::u8();
    let n = [15, 16, 63, 64, 127, 128, 255, 256, 1000, 4096, 32768, 65000][sym::choose(12)];
    let mut x = crate::kit::big(n, 1);
    for i in [0, 1, n - 1] {
        x[i] = sym::u8();
    }
    h.extend_from_slice(&x);
    let mut b = spec::encode_raw(&h, &data);
    let next = spec::frame(sym::u64(), 1, Some(3), None, "nx", &sym::bytes::<2>());
    b.extend_from_slice(&next.encode());
    let mut r = &b[..];
    match decode(&mut r) {
        Ok(e) => sym::check(spec::same(&e, &f), "unknown trailing header fields change nothing"),
        Err(_) => sym::fail("a header with unknown trailing fields is accepted"),
    }
    match decode(&mut r) {
        Ok(e) => sym::check(spec::same(&e, &next), "the next event is found after an extended header"),
        Err(_) => sym::fail("the next event is found after an extended header"),
    }
    sym::reach("compared");
}

/// How the transport cuts the stream does not matter.
/// @bounds 2 events (symbolic contents); pieces of up to 1 to 9 bytes, pending between them or not; one cut at any place; three cuts at any place with distances of up to 12 and 3
/// @deep distances of up to 40 and 12
/// @shards 2 8
/// @seconds 300 3000
#[no_mangle]
pub fn c05_segments() {
    let a = spec::frame(sym::u64(), 1, Some(sym::u64()), Some("n"), &text(2), &sym::vec(3));
    let b = spec::frame(sym::u64(), 0, None, None, "z", &sym::vec(1));
    let mut all = a.encode();
    all.extend_from_slice(&b.encode());
    let p = Pipe::new();
    p.d().push(&all);
    p.d().rcut = match sym::choose(4) {
        0 => Cut::Slow(1 + sym::choose(9)),
        1 => Cut::Max(1 + sym::choose(9)),
        2 => {
            let c = sym::choose(all.len());
            Cut::At([c, c, c])
        }
        _ => {
            let c = sym::choose(all.len());
            let d = c + 1 + sym::choose(sym::bound(12, 40));
            Cut::At([c, d, d + 1 + sym::choose(sym::bound(3, 12))])
        }
    };
    let mut r = MemRead(p);
    for f in [&a, &b] {
        match block_on(400, Event::from_async_read(&mut r)) {
            Some(Ok(e)) => sym::check(spec::same(&e, f), "the event does not depend on how the stream is cut"),
            Some(Err(_)) => sym::fail("an event that arrives in pieces is accepted"),
            None => sym::fail("the decoder is woken when more bytes arrive"),
        }
    }
    sym::reach("compared");
}
/// A stream that ends inside a frame never yields an event.
/// @bounds an event (4 types, symbolic contents) cut at any place, arriving in 3 ways, with the end of the stream or 4 kinds of failures after it
/// @also C15
#[no_mangle]
pub fn c05_truncated() {
    let a = spec::frame(sym::u64(), sym::choose(4) as u8, Some(sym::u64()), Some("n"), &text(2), &sym::vec(3));
    let all = a.encode();
    let k = sym::choose(all.len());
    let p = Pipe::new();
    p.d().push(&all[..k]);
    p.d().rcut = [Cut::Whole, Cut::Slow(1), Cut::Max(3)][sym::choose(3)];
    let mut r = MemRead(p.clone());
    let mut fut = Box::pin(Event::from_async_read(&mut r));
    match block_on(400, fut.as_mut()) {
        None => sym::reach("waits for the rest"),
        Some(_) => sym::fail("an incomplete frame is waited for"),
    }
    p.d().end();
    match block_on(400, fut.as_mut()) {
        Some(Err(_)) => sym::reach("rejected"),
        Some(Ok(_)) => sym::fail("a stream that ends inside a frame yields no event"),
        None => sym::fail("the end of the stream is noticed"),
    }
}

/// Large events in pieces.
/// @bounds payload of 4000..4200, 8192, 65536 or 140000 bytes; pieces of 512, 1000, 4096 or 65536 bytes, pending between them or not; followed by a small event; or cut at any of 6 places, where the stream ends or fails
#[no_mangle]
pub fn c05_large() {
    let n = [4050, 4096, 8192, 65536, 140000][sym::choose(5)];
    let d = crate::kit::big(n, 0);
    let a = spec::frame(sym::u64(), 1, Some(sym::u64()), Some("n"), "large", &d);
    let b = spec::frame(sym::u64(), 0, None, None, "z", &sym::vec(1));
    let mut all = a.encode();
    let k = all.len();
    let cut = if sym::flag() { Some([k - 1, k - n / 2, k - n + 1, k - n, 4096, n][sym::choose(6)]) } else { None };
    match cut {
        Some(c) => all.truncate(c),
        None => all.extend_from_slice(&b.encode()),
    }
    let p = Pipe::new();
    p.d().push(&all);
    let m = [512, 1000, 4096, 65536][sym::choose(4)];
    p.d().rcut = if sym::flag() { Cut::Slow(m) } else { Cut::Max(m) };
    let mut r = MemRead(p.clone());
    let mut fut = Box::pin(Event::from_async_read(&mut r));
    let got = block_on(1000, fut.as_mut());
    if let Some(c) = cut {
        if c < k {
            sym::check(got.is_none(), "an incomplete frame is waited for");
            p.d().end();
            sym::check(matches!(block_on(1000, fut.as_mut()), Some(Err(_))), "a stream that ends inside a frame yields no event");
            return sym::reach("truncated");
        }
    }
    drop(fut);
    match got {
        Some(Ok(e)) => sym::check(spec::same(&e, &a), "the event does not depend on how the stream is cut"),
        _ => sym::fail("an event that arrives in pieces is accepted"),
    }
    if cut.is_none() {
        match block_on(1000, Event::from_async_read(&mut r)) {
            Some(Ok(e)) => sym::check(spec::same(&e, &b), "the next event is found after a large one"),
            _ => sym::fail("the next event is found after a large one"),
        }
    }
    sym::reach("compared");
}
/// What does not fit the length fields is refused rather than sent as something else.
/// @bounds names and namespaces (and both together, also of several bytes per character) of 10 lengths around 65536 and 131072 plus 0 to 1 bytes
/// @deep plus 0 to 23 bytes
/// @shards 4 8
/// @seconds 300 3000
#[no_mangle]
pub fn c06_oversize() {
    const L: [usize; 10] = [65500, 65534, 65535, 65536, 65537, 65559, 70000, 131071, 131072, 131075];
    let l = L[sym::choose(10)] + if sym::flag() { sym::choose(sym::bound(2, 24)) } else { 0 };
    let long = ascii(l);
    let (ns, name) = match sym::choose(5) {
        3 => (None, wide(l)),
        4 => (Some(wide(l)), wide(9)),
        0 => (None, long),
        1 => (Some(long), "b".to_string()),
        _ => (Some(ascii(l / 2)), ascii(l - l / 2)),
    };
    let (e, f) = event(sym::choose(4), ns, name, sym::vec(1));
    match e.into_bytes() {
        Ok(b) => {
            let mut r = &b[..];
            match decode(&mut r) {
                Ok(d) => sym::check(spec::same(&d, &f), "what is encoded is what was meant"),
                Err(_) => sym::fail("what is encoded can be decoded"),
            }
            sym::check(r.is_empty(), "no bytes are left over");
            sym::reach("encoded");
        }
        Err(_) => {
            sym::check(f.header().len() > 65535, "only what does not fit is refused");
            sym::reach("refused");
        }
    }
}
