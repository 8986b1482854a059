//! C23 when only some of the formats are enabled (postcard and JSON).
//! features: two
use crate::kit::*;
use crate::net::*;
use bromine::payload::{DynamicSerializer, FromPayload, SerdePayload, TryIntoBytes};
use tokio::model::block_on;

/// Formats that are not enabled are errors; those that are keep their ids and work; the first of them is the default.
/// @bounds any format id; any payload of 3 bytes and any u8 as value; a configured default format or none
#[no_mangle]
pub fn c23_partial() {
    let n = sym::u64() as usize;
    match DynamicSerializer::from_primitive(n) {
        Ok(f) => {
            sym::check(n == 2 || n == 3, "the id of a format that is not enabled is an error");
            let want = if n == 2 { DynamicSerializer::Postcard } else { DynamicSerializer::Json };
            sym::check(f == want, "the id of an enabled format stands for it");
        }
        Err(_) => sym::check(n != 2 && n != 3, "the id of an enabled format is known"),
    }
    let x = sym::u8();
    let k = sym::choose(4);
    let f = [DynamicSerializer::Messagepack, DynamicSerializer::Bincode, DynamicSerializer::Postcard, DynamicSerializer::Json][k];
    match SerdePayload::new(f, x).try_into_bytes() {
        Ok(b) => {
            sym::check(k >= 2, "a format that is not enabled is an error");
            sym::check(b[0] as usize == k, "a serialized payload starts with the id of its format");
            sym::check(matches!(u8::from_payload(&b[..]), Ok(v) if v == x), "a serialized payload decodes");
        }
        Err(_) => sym::check(k < 2, "an enabled format works"),
    }
    let b = sym::vec(3);
    if let Ok(_) = u8::from_payload(&b[..]) {
        sym::check(b[0] == 2 || b[0] == 3, "a payload in a format that is not enabled is an error");
        sym::reach("accepted");
    }
    sym::check(DynamicSerializer::first_available() == DynamicSerializer::Postcard, "the first enabled format is the default");
    let (_i, o) = outgoing();
    let d = sym::choose(3);
    let b = builder();
    let b = if d > 0 { b.default_serializer([DynamicSerializer::Postcard, DynamicSerializer::Json][d - 1]) } else { b };
    let c = match block_on(60, b.build_client()) {
        Some(Ok(c)) => c,
        _ => sym::fail("a client connects"),
    };
    sym::check(matches!(block_on(60, c.emit("tell", x)), Some(Ok(_))), "a value is emitted");
    let f = sent(&o);
    sym::check(f.len() == 1 && f[0].data[0] == if d == 2 { 3 } else { 2 }, "the default format is used");
    sym::check(matches!(u8::from_payload(&f[0].data[..]), Ok(v) if v == x), "what is sent decodes");
    sym::reach("compared");
    std::mem::forget(c);
}
