//! SHA-256 as an injective mixing of inputs of up to 32 bytes (longer inputs fold).
use std::ops::Deref;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Output32(pub [u8; 32]);
impl Deref for Output32 {
    type Target = [u8];
    fn deref(&self) -> &[u8] {
        &self.0
    }
}
impl AsRef<[u8]> for Output32 {
    fn as_ref(&self) -> &[u8] {
        &self.0
    }
}
impl From<Output32> for [u8; 32] {
    fn from(o: Output32) -> Self {
        o.0
    }
}
impl Output32 {
    pub fn as_slice(&self) -> &[u8] {
        &self.0
    }
}

pub trait Digest: Sized {
    fn new() -> Self;
    fn update(&mut self, data: impl AsRef<[u8]>);
    fn finalize(self) -> Output32;
    fn chain_update(mut self, data: impl AsRef<[u8]>) -> Self {
        self.update(data);
        self
    }
    fn new_with_prefix(data: impl AsRef<[u8]>) -> Self {
        let mut s = Self::new();
        s.update(data);
        s
    }
    fn digest(data: impl AsRef<[u8]>) -> Output32 {
        let mut s = Self::new();
        s.update(data);
        s.finalize()
    }
}

#[derive(Clone)]
pub struct Sha256 {
    st: [u8; 32],
    n: usize,
}
impl Default for Sha256 {
    fn default() -> Self {
        Self::new()
    }
}
impl Digest for Sha256 {
    fn new() -> Self {
        Sha256 { st: [0; 32], n: 0 }
    }
    fn update(&mut self, data: impl AsRef<[u8]>) {
        let d = data.as_ref();
        let mut i = 0;
        while i < d.len() {
            self.st[self.n % 32] = self.st[self.n % 32].rotate_left(3) ^ d[i];
            self.n += 1;
            i += 1;
        }
    }
    fn finalize(self) -> Output32 {
        let mut o = self.st;
        let mut i = 0;
        while i < 32 {
            o[i] ^= 0x77;
            i += 1;
        }
        Output32(o)
    }
}
pub type Sha512 = Sha256;
pub type Sha384 = Sha256;
