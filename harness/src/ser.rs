//! C23: payloads serialized with serde.
//! features: ser
use crate::kit::*;
use crate::net::*;
use crate::spec::frame;
use bromine::payload::{DynamicSerializer, FromPayload, IntoPayload, SerdePayload, TandemPayload, TryIntoBytes};
use bromine::prelude::*;
use serde::de::DeserializeOwned;
use serde::Serialize;
use std::cell::UnsafeCell;
use tokio::model::block_on;

/// The formats and their ids on the wire.
fn format(k: usize) -> DynamicSerializer {
    match k {
        0 => DynamicSerializer::Messagepack,
        1 => DynamicSerializer::Bincode,
        2 => DynamicSerializer::Postcard,
        _ => DynamicSerializer::Json,
    }
}
/// ASCII text without the characters JSON escapes.
fn text(n: usize) -> String {
    let v = sym::vec(n);
    let ok = v.iter().fold(true, |r, c| r & (*c < 0x7f) & (*c >= 0x20) & (*c != b'"') & (*c != b'\\'));
    sym::assume(ok);
    String::from_utf8(v).unwrap()
}
fn trip<T: Serialize + DeserializeOwned + Clone + PartialEq>(k: usize, v: T) -> Vec<u8> {
    let b = match SerdePayload::new(format(k), v.clone()).try_into_bytes() {
        Ok(b) => b.to_vec(),
        Err(_) => sym::fail("a value is serialized"),
    };
    sym::check(b.len() > 0 && b[0] as usize == k, "a serialized payload starts with the id of its format");
    match SerdePayload::<T>::from_payload(&b[..]) {
        Ok(p) => sym::check(p.data() == v, "a serialized payload round-trips"),
        Err(_) => sym::fail("a serialized payload decodes"),
    }
    match T::from_payload(&b[..]) {
        Ok(p) => sym::check(p == v, "a serialized payload decodes to the value itself"),
        Err(_) => sym::fail("a serialized payload decodes to the value itself"),
    }
    b
}

/// Values of several shapes in each format.
/// @bounds any bool, any u8, any option of a u8, any pair of u8 and text of 0 to 2 characters, lists of 0 to 2 u8, (u8, (u8, bool)), and unit, in the 4 formats
/// @deep texts and lists of up to 4
/// @shards 4 8
#[no_mangle]
pub fn c23_values() {
    let k = sym::choose(4);
    let n = sym::bound(3, 5);
    match sym::choose(7) {
        0 => {
            trip(k, sym::flag());
        }
        1 => {
            trip(k, sym::u8());
        }
        2 => {
            trip(k, if sym::flag() { Some(sym::u8()) } else { None });
        }
        3 => {
            trip(k, (sym::u8(), text(sym::choose(n))));
        }
        4 => {
            trip(k, sym::vec(sym::choose(n)));
        }
        5 => {
            trip(k, (sym::u8(), (sym::u8(), sym::flag())));
        }
        _ => {
            trip(k, ());
        }
    }
    sym::reach("compared");
}
/// Wide integers, where the binary formats order bytes differently.
/// @bounds any u16, u32, u64 or i16 in the 3 binary formats
#[no_mangle]
pub fn c23_integers() {
    let k = sym::choose(3);
    match sym::choose(4) {
        0 => {
            let v = sym::u16();
            let b = trip(k, v);
            if k == 1 {
                sym::check(b[1..] == v.to_le_bytes(), "bincode writes integers as it always did");
            }
        }
        1 => {
            trip(k, sym::u32());
        }
        2 => {
            trip(k, sym::u64());
        }
        _ => {
            trip(k, sym::u16() as i16);
        }
    }
    sym::reach("compared");
}
/// ASCII text of `n` characters that JSON does not escape.
fn long(n: usize, seed: u8) -> String {
    big(n, seed).iter().map(|b| (b'A' + b % 26) as char).collect()
}
/// Texts and lists around the lengths at which formats change how they announce them.
/// @bounds texts and lists of 15, 16, 31, 32, 127, 128, 255, 256, 257 and 1000 elements (and texts of 65535, 65536 and 65537) with one symbolic element at the end and followed by any u8, in the 4 formats
/// @deep also lists of 65535, 65536 and 65537
/// @shards 8 8
#[no_mangle]
pub fn c23_sizes() {
    let k = sym::choose(4);
    let n = [15, 16, 31, 32, 127, 128, 255, 256, 257, 1000, 65535, 65536, 65537][sym::choose(13)];
    let x = sym::u8();
    if n > 1000 && sym::bound(1, 0) == 1 || sym::flag() {
        let mut t = long(n - 1, 3);
        t.push_str(&text(1));
        let b = trip(k, (t, x));
        sym::check(b.len() > n, "a text is sent in full");
    } else {
        let mut v = big(n - 1, 5);
        v.push(sym::u8());
        let b = trip(k, (v, x));
        sym::check(b.len() > n, "a list is sent in full");
    }
    sym::reach("compared");
}

#[derive(Serialize, serde::Deserialize, Clone, PartialEq)]
enum Kind {
    Unit,
    One(u8),
    Two(u8, bool),
    Named { a: u8, b: Option<u8> },
}
#[derive(Serialize, serde::Deserialize, Clone, PartialEq)]
struct Shape {
    id: u8,
    name: String,
    kinds: Vec<Kind>,
    map: std::collections::BTreeMap<String, u8>,
    skipped: Option<Box<Shape>>,
}
/// Structures, enumerations, maps and numbers.
/// @bounds structures of any u8, text, all kinds of enumeration variants with any contents, a map of up to 2 entries, optionally nested; the extreme numbers of each width and sign, texts outside of ASCII and with escapes; in the 4 formats
/// @shards 8 8
#[no_mangle]
pub fn c23_shapes() {
    let k = sym::choose(4);
    match sym::choose(4) {
        0 => {
            let kinds = match sym::choose(5) {
                0 => vec![],
                1 => vec![Kind::Unit, Kind::One(sym::u8())],
                2 => vec![Kind::Two(sym::u8(), sym::flag())],
                3 => vec![Kind::Named { a: 7, b: if sym::flag() { Some(sym::u8()) } else { None } }, Kind::Unit],
                _ => vec![Kind::Named { a: sym::u8(), b: None }],
            };
            let mut map = std::collections::BTreeMap::new();
            for i in 0..sym::choose(3) {
                map.insert(["x", "yy"][i].to_string(), sym::u8());
            }
            let one = Shape { id: sym::u8(), name: text(1), kinds, map, skipped: None };
            if sym::flag() {
                let two = Shape { id: 3, name: "outer".into(), kinds: vec![Kind::Unit], map: Default::default(), skipped: Some(Box::new(one)) };
                trip(k, two);
            } else {
                trip(k, one);
            }
        }
        1 => {
            let v = [0, 1, 9, 10, 23, 24, 99, 100, 127, 128, 255, 256, 999, 1000, 32767, 32768, 65535, 65536, 1 << 31, (1 << 32) - 1, 1 << 32, 1 << 53, (1 << 53) + 1, (1 << 63) - 1, 1 << 63, u64::MAX][sym::choose(26)];
            trip(k, (v, (v as u32, v as u16), v as u8));
        }
        2 => {
            let v = [0, -1, -32, -33, -127, -128, -129, -32768, -32769, -(1i64 << 31), -(1i64 << 31) - 1, i64::MIN, i64::MAX, 127, 128][sym::choose(15)];
            trip(k, (v, (v as i32, v as i16), v as i8));
        }
        _ => {
            let t = ["", "\u{e9}", "\u{20ac}\u{1f980}", "\"\\/\n\t\u{1}\u{7f}", "\0", "a\u{0}b", "null"][sym::choose(7)];
            trip(k, (t.to_string(), t.chars().next(), vec![t.to_string(); 2]));
        }
    }
    sym::reach("compared");
}
/// Which number stands for which format.
/// @bounds any number
#[no_mangle]
pub fn c23_ids() {
    let n = sym::u64() as usize;
    match DynamicSerializer::from_primitive(n) {
        Ok(f) => {
            sym::check(n < 4, "an unknown format id is an error");
            let mut want = 0;
            for k in 1..4 {
                if n == k {
                    want = k;
                }
            }
            sym::check(f == format(want), "the id of a format stands for it");
            sym::reach("known");
        }
        Err(_) => {
            sym::check(n >= 4, "the id of an enabled format is known");
            sym::reach("unknown");
        }
    }
}
fn foreign<T: DeserializeOwned + Serialize + Clone + PartialEq>(b: &[u8]) {
    match T::from_payload(b) {
        Ok(v) => {
            sym::check(b.len() > 0 && b[0] < 4, "an unknown format id is an error");
            trip((b[0] & 3) as usize, v);
            sym::reach("accepted");
        }
        Err(_) => sym::reach("refused"),
    }
}
/// Any bytes where a value is expected, in the binary formats.
/// @bounds all byte strings of up to 11 bytes with any format id but JSON's and no bytes 0xca and 0xcb (floating point numbers) in MessagePack, decoded as u16, text, list of u8, option, pair
/// @deep all byte strings of up to 12 bytes
/// @shards 8 8
/// @seconds 300 3000
#[no_mangle]
pub fn c23_foreign() {
    sym::alloc_limit(2 << 20);
    let n = sym::choose(sym::bound(12, 13));
    let mut b = sym::vec(n);
    if n > 0 {
        let k = sym::choose(4);
        if k == 3 {
            sym::assume(b[0] > 3);
        } else {
            b[0] = k as u8;
            if k == 0 {
                // no floating point numbers, whose conversion is not encoded
                let ok = b.iter().fold(true, |r, x| r & (*x != 0xca) & (*x != 0xcb));
                sym::assume(ok);
            }
        }
    }
    match sym::choose(5) {
        0 => foreign::<u16>(&b),
        1 => foreign::<String>(&b),
        2 => foreign::<Vec<u8>>(&b),
        3 => foreign::<Option<u8>>(&b),
        _ => foreign::<(u8, String)>(&b),
    }
}
/// Any bytes where JSON is expected.
/// @bounds all byte strings of up to 3 bytes after the format id, decoded as u8, text, bool
/// @deep all byte strings of up to 4 bytes
/// @shards 4 8
/// @seconds 300 3000
#[no_mangle]
pub fn c23_json() {
    sym::alloc_limit(2 << 20);
    let n = sym::choose(sym::bound(4, 5));
    let mut b = vec![3u8];
    b.extend_from_slice(&sym::vec(n));
    match sym::choose(3) {
        0 => {
            if let Ok(v) = u8::from_payload(&b[..]) {
                trip(3, v);
                sym::reach("accepted");
            }
        }
        1 => {
            if let Ok(v) = bool::from_payload(&b[..]) {
                trip(3, v);
            }
        }
        _ => {
            if let Ok(v) = String::from_payload(&b[..]) {
                sym::check(v.len() + 2 <= n, "a text is no longer than its bytes");
            }
        }
    }
    sym::reach("decoded");
}

struct G(UnsafeCell<Vec<(u8, String)>>);
unsafe impl Sync for G {}
static SEEN: G = G(UnsafeCell::new(Vec::new()));

async fn answer(ctx: &Context, e: Event) -> IPCResult<Response> {
    let (n, s) = e.payload::<(u8, String)>()?;
    unsafe { (*SEEN.0.get()).push((n, s.clone())) };
    ctx.response((s, n))
}
/// Peers with any two default formats understand each other, and each sends in its own.
/// @bounds 4 x 4 default formats (and none configured), a request and a response of a symbolic byte and text of 1 character; also inside a tandem
#[no_mangle]
pub fn c23_endpoints() {
    let (ks, kc) = (sym::choose(5), sym::choose(5));
    let with = |k: usize| if k < 4 { builder().default_serializer(format(k)) } else { builder() };
    server(with(ks).on("req", |c, e| Box::pin(answer(c, e))));
    let (s, c) = pair();
    let (up, down) = (s.r.0.clone(), s.w.0.clone());
    net().to_connect.push(c);
    give(s);
    let ctx = match block_on(8, with(kc).build_client()) {
        Some(Ok(c)) => c,
        _ => sym::fail("a client connects"),
    };
    // the first that is enabled is the default
    let (ks, kc) = (ks % 4, kc % 4);
    let (n, t) = (sym::u8(), text(1));
    let r = block_on(200, async { ctx.emit("req", (n, t.clone())).await_reply().await });
    let e = match r {
        Some(Ok(e)) => e,
        _ => sym::fail("a request with a serialized payload is answered"),
    };
    match e.payload::<(String, u8)>() {
        Ok(v) => sym::check(v == (t.clone(), n), "a serialized value arrives as it was sent"),
        Err(_) => sym::fail("a serialized value decodes at the other end"),
    }
    let seen = unsafe { &*SEEN.0.get() };
    sym::check(seen.len() == 1 && seen[0] == (n, t.clone()), "a serialized value arrives as it was sent");
    sym::check(e.data_raw()[0] as usize == ks, "the server sends in its default format");
    // the frame before the payload: 10 bytes of lengths and the header
    let w = &up.d().data;
    let h = w[8] as usize * 256 + w[9] as usize;
    sym::check(w[10 + h] as usize == kc, "the client sends in its default format");
    sym::check(down.d().data.len() > 0, "the response crossed the wire");
    let p = match TandemPayload::new(ctx.create_serde_payload(n), SerdePayload::new(format(ks), t.clone())).into_payload(&ctx) {
        Ok(b) => b,
        Err(_) => sym::fail("a tandem of serialized payloads is encoded"),
    };
    match TandemPayload::<SerdePayload<u8>, SerdePayload<String>>::from_payload(&p[..]) {
        Ok(v) => {
            let (x, y) = v.into_inner();
            sym::check(x.data() == n && y.data() == t, "serialized payloads round-trip inside a tandem");
        }
        Err(_) => sym::fail("a tandem of serialized payloads decodes"),
    }
    sym::reach("answered");
    std::mem::forget(ctx);
}

async fn echo(ctx: &Context, e: Event) -> IPCResult<Response> {
    let n = e.payload::<u8>()?;
    ctx.emit("told", n).await?;
    ctx.response(n)
}
/// Every context of a pool, also that of its handlers, uses the configured default format.
/// @bounds pools of 1 to 3; 4 default formats (and none configured), set before or after the handlers; an event with any u8 in each format, and a request on each connection
#[no_mangle]
pub fn c23_pool() {
    let k = sym::choose(5);
    let n = 1 + sym::choose(3);
    let ends: Vec<(Pipe, Pipe)> = (0..n).map(|_| outgoing()).collect();
    let h = |b: bromine::IPCBuilder<MemListener>| b.on("echo", |c, e| Box::pin(echo(c, e)));
    let with = |b: bromine::IPCBuilder<MemListener>| if k < 4 { b.default_serializer(format(k)) } else { b };
    let b = if sym::flag() { with(h(builder())) } else { h(with(builder())) };
    let p = match block_on(60, b.build_pooled_client(n)) {
        Some(Ok(p)) => p,
        _ => sym::fail("a pool is built"),
    };
    let k = k % 4;
    let guards: Vec<_> = (0..n).map(|_| p.acquire()).collect();
    let x = sym::u8();
    for g in &guards {
        sym::check(g.default_serializer == format(k), "every connection of a pool uses the configured format");
        let b = g.create_serde_payload(x).try_into_bytes();
        sym::check(matches!(&b, Ok(b) if b[0] as usize == k), "every connection of a pool serializes in the configured format");
        sym::check(matches!(block_on(8, g.emit("tell", x)), Some(Ok(_))), "emitting on a pool's connection works");
    }
    let theirs = sym::choose(4);
    for (i, o) in &ends {
        let f = sent(o);
        sym::check(f.len() == 1 && f[0].name == b"tell" && f[0].data[0] as usize == k, "each connection of a pool sends in the configured format");
        sym::check(matches!(u8::from_payload(&f[0].data[..]), Ok(v) if v == x), "what a pool sends decodes");
        let b = SerdePayload::new(format(theirs), x).try_into_bytes().unwrap_or_default();
        i.d().push(&frame(1, crate::spec::INITIATOR, None, None, "echo", &b).encode());
        settle();
        let f = sent(o);
        sym::check(f.len() == 2 && f[0].name == b"told", "the handler of a pool answers");
        for f in &f {
            sym::check(f.data[0] as usize == k, "the handlers of a pool send in the configured format");
            sym::check(matches!(u8::from_payload(&f.data[..]), Ok(v) if v == x), "what they send decodes");
        }
    }
    sym::reach("answered");
    drop(guards);
    std::mem::forget(p);
}
