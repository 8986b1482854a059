//! C22: the payload encodings of the crate.
//! without: anyser
use crate::kit::*;
use bromine::bytes::Bytes;
use bromine::error_event::ErrorEventData;
use bromine::payload::{BytePayload, FromPayload, IntoPayload, TandemPayload};
use bromine::prelude::Context;

fn context() -> Context {
    client(builder()).0
}
fn enc(c: &Context, p: impl IntoPayload) -> Vec<u8> {
    match p.into_payload(c) {
        Ok(b) => b.to_vec(),
        Err(_) => sym::fail("a payload is encoded"),
    }
}
fn be(b: &[u8]) -> u64 {
    b.iter().fold(0, |v, x| v << 8 | *x as u64)
}

const LARGE: [usize; 7] = [32767, 32768, 32769, 65535, 65536, 65537, 140000];

/// Raw payloads are the bytes themselves.
/// @bounds payloads of 0..5, 255..257 and 4096 symbolic bytes, and of 32767..32769, 65535..65537 and 140000 bytes
#[no_mangle]
pub fn c22_raw() {
    let c = context();
    let k = sym::choose(16);
    let d = if k < 9 { sym::vec([0, 1, 2, 3, 5, 255, 256, 257, 4096][k]) } else { big(LARGE[k - 9], 9) };
    let p = if sym::flag() { BytePayload::new(d.clone()) } else { BytePayload::from(Bytes::from(d.clone())) };
    sym::check(p.clone().into_inner() == d, "a raw payload holds its bytes");
    let b = enc(&c, p);
    sym::check(b == d, "a raw payload is its bytes");
    match BytePayload::from_payload(&b[..]) {
        Ok(p) => sym::check(p.into_bytes()[..] == d[..], "a raw payload round-trips"),
        Err(_) => sym::fail("a raw payload decodes"),
    }
    sym::reach("compared");
}
/// A tandem of two payloads has the documented layout and round-trips; also nested.
/// @bounds parts of 0..3 symbolic bytes, nested once; parts of 256, 32767..32769, 65535..65537 and 140000 bytes
#[no_mangle]
pub fn c22_tandem() {
    let c = context();
    let part = |n: usize| if n < 4 { sym::vec(n) } else { big([vec![256], LARGE.to_vec()].concat()[n - 4], n as u8) };
    let (mut x, mut y) = (part(sym::choose(4)), part(sym::choose(12)));
    if sym::flag() {
        std::mem::swap(&mut x, &mut y);
    }
    let b = enc(&c, TandemPayload::new(BytePayload::new(x.clone()), BytePayload::new(y.clone())));
    let mut want = (x.len() as u64).to_be_bytes().to_vec();
    want.extend_from_slice(&x);
    want.extend_from_slice(&(y.len() as u64).to_be_bytes());
    want.extend_from_slice(&y);
    sym::check(b == want, "a tandem payload has the documented layout");
    match TandemPayload::<BytePayload, BytePayload>::from_payload(&b[..]) {
        Ok(t) => {
            let (p, q) = t.into_inner();
            sym::check(p.into_inner() == x && q.into_inner() == y, "a tandem payload round-trips");
        }
        Err(_) => sym::fail("a tandem payload decodes"),
    }
    let z = sym::vec(2);
    let inner = TandemPayload::new(BytePayload::new(x.clone()), BytePayload::new(y.clone()));
    let b = enc(&c, TandemPayload::new(inner, BytePayload::new(z.clone())));
    match TandemPayload::<TandemPayload<BytePayload, BytePayload>, BytePayload>::from_payload(&b[..]) {
        Ok(t) => {
            let (t, r) = t.into_inner();
            let (p, q) = t.into_inner();
            sym::check(p.into_inner() == x && q.into_inner() == y && r.into_inner() == z, "a nested tandem payload round-trips");
        }
        Err(_) => sym::fail("a nested tandem payload decodes"),
    }
    sym::reach("compared");
}
/// Any bytes decoded as a tandem payload.
/// @bounds all byte strings of up to 20 bytes, all announced lengths
/// @deep all byte strings of up to 24 bytes
#[no_mangle]
pub fn c22_tandem_foreign() {
    sym::alloc_limit(1 << 18);
    let b = sym::vec(sym::choose(sym::bound(21, 25)));
    let got = TandemPayload::<BytePayload, BytePayload>::from_payload(&b[..]);
    // what the layout says
    let l = b.len() as u64;
    let ok = l >= 8 && be(&b[..8]) <= l - 8 && {
        let a = be(&b[..8]) as usize;
        let r = &b[8 + a..];
        r.len() >= 8 && be(&r[..8]) <= r.len() as u64 - 8
    };
    match got {
        Ok(t) => {
            sym::check(ok, "lengths that do not fit are refused");
            let (p, q) = t.into_inner();
            let (p, q) = (p.into_inner(), q.into_inner());
            let a = be(&b[..8]) as usize;
            sym::check(p[..] == b[8..8 + a], "the first part is what the layout says");
            let r = &b[8 + a..];
            sym::check(q[..] == r[8..8 + be(&r[..8]) as usize], "the second part is what the layout says");
            sym::reach("accepted");
        }
        Err(_) => {
            sym::check(!ok, "bytes of the documented layout are accepted");
            sym::reach("refused");
        }
    }
}
/// Error data round-trips.
/// @bounds any code; messages of 0..3 bytes of valid UTF-8, and of 256, 32767..32769, 65535..65537 and 140000 bytes
/// @also C08 C13
#[no_mangle]
pub fn c22_error() {
    let c = context();
    let code = sym::u16();
    let k = sym::choose(12);
    let m = if k < 4 { crate::wire::text(k) } else { "x".repeat([vec![256], LARGE.to_vec()].concat()[k - 4]) };
    let b = enc(&c, ErrorEventData { code, message: m.clone() });
    let mut want = code.to_be_bytes().to_vec();
    want.extend_from_slice(&(m.len() as u32).to_be_bytes());
    want.extend_from_slice(m.as_bytes());
    sym::check(b == want, "error data has the layout its peers expect");
    match ErrorEventData::from_payload(&b[..]) {
        Ok(e) => sym::check(e.code == code && e.message == m, "error data round-trips"),
        Err(_) => sym::fail("error data decodes"),
    }
    sym::reach("compared");
}
/// Any bytes decoded as error data.
/// @bounds all byte strings of up to 9 bytes, all announced lengths
/// @deep all byte strings of up to 11 bytes
/// @also C08
#[no_mangle]
pub fn c22_error_foreign() {
    sym::alloc_limit(1 << 18);
    let b = sym::vec(sym::choose(sym::bound(10, 12)));
    let got = ErrorEventData::from_payload(&b[..]);
    let l = b.len() as u64;
    let fits = l >= 6 && be(&b[2..6]) <= l - 6;
    match got {
        Ok(e) => {
            sym::check(fits, "a length that does not fit is refused");
            sym::check(e.code as u64 == be(&b[..2]), "the code is what the layout says");
            sym::check(e.message.as_bytes() == &b[6..6 + be(&b[2..6]) as usize], "the message is what the layout says");
            sym::check(std::str::from_utf8(e.message.as_bytes()).is_ok(), "a message that is not UTF-8 is refused");
            sym::reach("accepted");
        }
        Err(_) => {
            if fits {
                sym::check(std::str::from_utf8(&b[6..6 + be(&b[2..6]) as usize]).is_err(), "bytes of the layout are accepted");
                sym::reach("not utf-8");
            } else {
                sym::reach("refused");
            }
        }
    }
}
/// Without serialization the unit payload is empty.
/// @bounds one value
#[no_mangle]
pub fn c22_unit() {
    let c = context();
    sym::check(enc(&c, ()).is_empty(), "the unit payload is empty");
    sym::reach("compared");
}
