//! The wire format as SPECIFICATON.md describes it, written down a second time and
//! independently of the code under test: the oracle of every harness that looks at bytes.

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Frame {
    pub id: u64,
    pub kind: u8,
    pub re: Option<u64>,
    pub ns: Option<Vec<u8>>,
    pub name: Vec<u8>,
    pub data: Vec<u8>,
}
pub const INITIATOR: u8 = 0;
pub const RESPONSE: u8 = 1;
pub const END: u8 = 2;
pub const ERROR: u8 = 3;

pub fn frame(id: u64, kind: u8, re: Option<u64>, ns: Option<&str>, name: &str, data: &[u8]) -> Frame {
    Frame {
        id,
        kind,
        re,
        ns: ns.map(|n| n.as_bytes().to_vec()),
        name: name.as_bytes().to_vec(),
        data: data.to_vec(),
    }
}

impl Frame {
    pub fn header(&self) -> Vec<u8> {
        let mut h = vec![0, 9, 0];
        h.extend_from_slice(&self.id.to_be_bytes());
        h.push(self.kind);
        match self.re {
            Some(r) => {
                h.push(0xff);
                h.extend_from_slice(&r.to_be_bytes());
            }
            None => h.push(0),
        }
        let ns: &[u8] = self.ns.as_deref().unwrap_or(&[]);
        h.extend_from_slice(&(ns.len() as u16).to_be_bytes());
        h.extend_from_slice(ns);
        h.extend_from_slice(&(self.name.len() as u16).to_be_bytes());
        h.extend_from_slice(&self.name);
        h
    }
    pub fn encode(&self) -> Vec<u8> {
        encode_raw(&self.header(), &self.data)
    }
}
pub fn encode_raw(header: &[u8], data: &[u8]) -> Vec<u8> {
    let mut b = Vec::with_capacity(10 + header.len() + data.len());
    b.extend_from_slice(&((header.len() + data.len()) as u64).to_be_bytes());
    b.extend_from_slice(&(header.len() as u16).to_be_bytes());
    b.extend_from_slice(header);
    b.extend_from_slice(data);
    b
}

fn be(b: &[u8]) -> u64 {
    let mut v = 0u64;
    for x in b {
        v = v << 8 | *x as u64;
    }
    v
}
fn take<'a>(b: &mut &'a [u8], n: usize) -> Option<&'a [u8]> {
    if n > b.len() {
        return None;
    }
    let (x, y) = b.split_at(n);
    *b = y;
    Some(x)
}

/// What the bytes at the front of a stream are.
#[derive(Debug)]
pub enum Parsed {
    /// A frame and the number of bytes it occupies.
    Frame(Frame, usize),
    /// A valid beginning of a frame, but the stream stops before its end.
    Short,
    /// Not a frame of this version of the format.
    Bad,
}

/// Decodes the first frame of `all`. Names are not checked for UTF-8 here.
pub fn parse(all: &[u8]) -> Parsed {
    let mut b = all;
    let (total, hl) = match (take(&mut b, 8), take(&mut b, 2)) {
        (Some(t), Some(h)) => (be(t), be(h)),
        _ => return Parsed::Short,
    };
    if hl > total {
        return Parsed::Bad;
    }
    let mut h = match take(&mut b, hl as usize) {
        Some(h) => h,
        None => return Parsed::Short,
    };
    let f = (|| {
        let v = take(&mut h, 3)?;
        if v[0] != 0 {
            return None;
        }
        let id = be(take(&mut h, 8)?);
        let kind = take(&mut h, 1)?[0];
        if kind > 3 {
            return None;
        }
        let re = match take(&mut h, 1)?[0] {
            0xff => Some(be(take(&mut h, 8)?)),
            0 => None,
            _ => return None,
        };
        let n = be(take(&mut h, 2)?) as usize;
        let ns = take(&mut h, n)?;
        let n = be(take(&mut h, 2)?) as usize;
        let name = take(&mut h, n)?;
        Some(Frame {
            id,
            kind,
            re,
            ns: if ns.is_empty() { None } else { Some(ns.to_vec()) },
            name: name.to_vec(),
            data: Vec::new(),
        })
    })();
    let mut f = match f {
        Some(f) => f,
        None => return Parsed::Bad,
    };
    let dl = total - hl;
    if dl > b.len() as u64 {
        return Parsed::Short;
    }
    f.data = b[..dl as usize].to_vec();
    Parsed::Frame(f, 10 + total as usize)
}

/// All frames of a byte stream; the harness fails if the stream is not a sequence of frames.
pub fn frames(mut b: &[u8]) -> Vec<Frame> {
    let mut v = Vec::new();
    while !b.is_empty() {
        match parse(b) {
            Parsed::Frame(f, n) => {
                v.push(f);
                b = &b[n..];
            }
            _ => sym::fail("the bytes written are a sequence of whole frames"),
        }
    }
    v
}

pub fn eq(a: &[u8], b: &[u8]) -> bool {
    a == b
}

use bromine::event::Event;
/// Whether a decoded event is the given frame.
pub fn same(e: &Event, f: &Frame) -> bool {
    let ns = match (e.namespace(), &f.ns) {
        (None, None) => true,
        (Some(a), Some(b)) => a.as_bytes() == &b[..],
        _ => false,
    };
    e.id() == f.id
        && u8::from(e.event_type()) == f.kind
        && e.reference_id() == f.re
        && ns
        && e.name().as_bytes() == &f.name[..]
        && e.data_raw() == &f.data[..]
}
