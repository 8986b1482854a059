//! ChaCha20-Poly1305 as an ideal AEAD: decryption returns a plaintext exactly when the same
//! key and nonce produced this very ciphertext, and fails for everything else.
//!
//! Ciphertexts are one masked byte per plaintext byte and a 16-byte tag naming the log entry, so
//! lengths match the real cipher and no plaintext byte run appears on the wire.
//! `model` exposes the log (how often a key/nonce pair was used, which plaintexts went out).
use std::ops::Deref;

pub const MAX_LOG: usize = 120;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Key(pub [u8; 32]);
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Nonce(pub [u8; 12]);
pub type XNonce = Nonce;

impl Key {
    pub fn from_slice(s: &[u8]) -> &Key {
        assert!(s.len() == 32, "Key::from_slice: wrong length");
        unsafe { &*(s.as_ptr() as *const Key) }
    }
    pub fn clone_from_slice(s: &[u8]) -> Key {
        *Self::from_slice(s)
    }
}
impl From<[u8; 32]> for Key {
    fn from(a: [u8; 32]) -> Self {
        Key(a)
    }
}
impl<'a> From<&'a [u8; 32]> for &'a Key {
    fn from(a: &'a [u8; 32]) -> Self {
        Key::from_slice(a)
    }
}
impl Nonce {
    pub fn from_slice(s: &[u8]) -> &Nonce {
        assert!(s.len() == 12, "Nonce::from_slice: wrong length");
        unsafe { &*(s.as_ptr() as *const Nonce) }
    }
    pub fn clone_from_slice(s: &[u8]) -> Nonce {
        *Self::from_slice(s)
    }
    pub fn as_slice(&self) -> &[u8] {
        &self.0
    }
}
impl Default for Nonce {
    fn default() -> Self {
        Nonce([0; 12])
    }
}
impl From<[u8; 12]> for Nonce {
    fn from(a: [u8; 12]) -> Self {
        Nonce(a)
    }
}
impl<'a> From<&'a [u8; 12]> for &'a Nonce {
    fn from(a: &'a [u8; 12]) -> Self {
        Nonce::from_slice(a)
    }
}
impl Deref for Nonce {
    type Target = [u8];
    fn deref(&self) -> &[u8] {
        &self.0
    }
}
impl std::ops::DerefMut for Nonce {
    fn deref_mut(&mut self) -> &mut [u8] {
        &mut self.0
    }
}
impl Deref for Key {
    type Target = [u8];
    fn deref(&self) -> &[u8] {
        &self.0
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Error;
impl std::fmt::Display for Error {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("aead::Error")
    }
}
impl std::error::Error for Error {}

pub trait KeyInit: Sized {
    fn new(key: &Key) -> Self;
    fn new_from_slice(key: &[u8]) -> Result<Self, Error> {
        if key.len() != 32 {
            return Err(Error);
        }
        Ok(Self::new(Key::from_slice(key)))
    }
}

pub mod aead {
    pub use super::{Error, KeyInit};
    pub type Result<T> = std::result::Result<T, Error>;
    pub struct Payload<'m, 'a> {
        pub msg: &'m [u8],
        pub aad: &'a [u8],
    }
    impl<'m> From<&'m [u8]> for Payload<'m, 'static> {
        fn from(msg: &'m [u8]) -> Self {
            Payload { msg, aad: &[] }
        }
    }
    pub trait Aead {
        fn encrypt<'m, 'a>(
            &self,
            nonce: &super::Nonce,
            plaintext: impl Into<Payload<'m, 'a>>,
        ) -> Result<Vec<u8>>;
        fn decrypt<'m, 'a>(
            &self,
            nonce: &super::Nonce,
            ciphertext: impl Into<Payload<'m, 'a>>,
        ) -> Result<Vec<u8>>;
    }
    pub mod generic_array {
        pub type GenericArray<T, U> = (T, U);
    }
}

#[derive(Clone)]
pub struct ChaCha20Poly1305 {
    key: Key,
}
pub type XChaCha20Poly1305 = ChaCha20Poly1305;
pub type ChaChaPoly1305<T> = (ChaCha20Poly1305, T);

impl KeyInit for ChaCha20Poly1305 {
    fn new(key: &Key) -> Self {
        ChaCha20Poly1305 { key: *key }
    }
}

struct Entry {
    key: Key,
    nonce: Nonce,
    plaintext: Vec<u8>,
    aad: Vec<u8>,
}
struct Log {
    e: [Option<Entry>; MAX_LOG],
    n: usize,
    reused: usize,
    rejected: usize,
}
const NOENT: Option<Entry> = None;
static mut LOG: Log = Log { e: [NOENT; MAX_LOG], n: 0, reused: 0, rejected: 0 };
fn log() -> &'static mut Log {
    unsafe { &mut *std::ptr::addr_of_mut!(LOG) }
}

// without branches on the contents, which may be symbolic
fn same(a: &[u8], b: &[u8]) -> bool {
    if a.len() != b.len() {
        return false;
    }
    let mut d = 0;
    let mut i = 0;
    while i < a.len() {
        d |= a[i] ^ b[i];
        i += 1;
    }
    d == 0
}
const MASK: u8 = 0xA5;

// Long runs: which nonces were used, without the contents.
const SLOTS: usize = 1 << 17;
struct Many {
    on: bool,
    plain: bool,
    n: usize,
    reused: usize,
    slot: [[u8; 13]; SLOTS],
}
static mut MANY: Many = Many { on: false, plain: false, n: 0, reused: 0, slot: [[0; 13]; SLOTS] };
fn many() -> &'static mut Many {
    unsafe { &mut *std::ptr::addr_of_mut!(MANY) }
}
fn count(nonce: &Nonce) {
    let m = many();
    m.n += 1;
    let mut h = 0usize;
    for b in nonce.0 {
        h = h * 257 + b as usize & 0xffff_ffff;
    }
    let mut i = h % SLOTS;
    while m.slot[i][12] != 0 {
        let mut d = 0;
        for k in 0..12 {
            d |= m.slot[i][k] ^ nonce.0[k];
        }
        if d == 0 {
            m.reused += 1;
            return;
        }
        i = (i + 1) % SLOTS;
    }
    m.slot[i][..12].copy_from_slice(&nonce.0);
    m.slot[i][12] = 1;
}

impl aead::Aead for ChaCha20Poly1305 {
    fn encrypt<'m, 'a>(
        &self,
        nonce: &Nonce,
        plaintext: impl Into<aead::Payload<'m, 'a>>,
    ) -> aead::Result<Vec<u8>> {
        let p = plaintext.into();
        if many().on {
            count(nonce);
            return Ok(vec![0; p.msg.len() + 16]);
        }
        if many().plain {
            many().n += 1;
            let mut out = Vec::with_capacity(p.msg.len() + 16);
            out.extend_from_slice(p.msg);
            out.extend_from_slice(&nonce.0);
            out.extend_from_slice(&self.key.0[..4]);
            return Ok(out);
        }
        let l = log();
        let k = l.n;
        assert!(k < MAX_LOG, "stand-in: more encryptions than the model holds");
        let mut i = 0;
        while i < k {
            if let Some(e) = &l.e[i] {
                if same(&e.nonce.0, &nonce.0) && same(&e.key.0, &self.key.0) {
                    l.reused += 1;
                }
            }
            i += 1;
        }
        let mut out = Vec::with_capacity(p.msg.len() + 16);
        let mut i = 0;
        while i < p.msg.len() {
            out.push(p.msg[i] ^ MASK);
            i += 1;
        }
        let mut i = 0;
        while i < 16 {
            out.push(0xC0 ^ k as u8);
            i += 1;
        }
        l.e[k] = Some(Entry {
            key: self.key,
            nonce: *nonce,
            plaintext: p.msg.to_vec(),
            aad: p.aad.to_vec(),
        });
        l.n = k + 1;
        Ok(out)
    }

    fn decrypt<'m, 'a>(
        &self,
        nonce: &Nonce,
        ciphertext: impl Into<aead::Payload<'m, 'a>>,
    ) -> aead::Result<Vec<u8>> {
        let c = ciphertext.into();
        if many().plain {
            if c.msg.len() < 16 {
                return Err(Error);
            }
            let body = c.msg.len() - 16;
            let t = &c.msg[body..];
            if t[..12] != nonce.0 || t[12..] != self.key.0[..4] {
                return Err(Error);
            }
            return Ok(c.msg[..body].to_vec());
        }
        let l = log();
        if c.msg.len() >= 16 {
            let body = c.msg.len() - 16;
            // The tag names the log entry; any other tag was never produced.
            let mut k = 0;
            while k < l.n {
                if let Some(e) = &l.e[k] {
                    if e.plaintext.len() == body {
                        let mut d = 0;
                        let mut i = 0;
                        while i < 16 {
                            d |= c.msg[body + i] ^ 0xC0 ^ k as u8;
                            i += 1;
                        }
                        let mut i = 0;
                        while i < body {
                            d |= c.msg[i] ^ e.plaintext[i] ^ MASK;
                            i += 1;
                        }
                        let ok = (d == 0)
                            & same(&e.nonce.0, &nonce.0)
                            & same(&e.key.0, &self.key.0)
                            & same(&e.aad, c.aad);
                        if ok {
                            return Ok(e.plaintext.clone());
                        }
                    }
                }
                k += 1;
            }
        }
        l.rejected += 1;
        Err(Error)
    }
}

/// What the harness may look at.
pub mod model {
    use super::*;
    pub fn encryptions() -> usize {
        log().n
    }
    /// How many encryptions used a key/nonce pair that had been used before.
    pub fn nonce_reuses() -> usize {
        log().reused
    }
    /// From now on only the nonces are recorded, of up to 2^17 encryptions with one key.
    pub fn count_nonces() {
        many().on = true;
    }
    /// From now on nobody changes anything on the way: packages open under their key and nonce only.
    pub fn trust_transport() {
        many().plain = true;
    }
    /// How many were counted, and how many of them repeated one.
    pub fn counted() -> (usize, usize) {
        (many().n, many().reused)
    }
    pub fn rejections() -> usize {
        log().rejected
    }
    pub fn plaintext(i: usize) -> &'static [u8] {
        log().e[i].as_ref().map(|e| &e.plaintext[..]).unwrap_or(&[])
    }
    /// What the encryption `i` returned.
    pub fn sealed(i: usize) -> Vec<u8> {
        let mut v: Vec<u8> = plaintext(i).iter().map(|b| b ^ MASK).collect();
        v.extend_from_slice(&[0xC0 ^ i as u8; 16]);
        v
    }
    pub fn key(i: usize) -> [u8; 32] {
        log().e[i].as_ref().map(|e| e.key.0).unwrap_or([0; 32])
    }
    pub fn nonce(i: usize) -> [u8; 12] {
        log().e[i].as_ref().map(|e| e.nonce.0).unwrap_or([0; 12])
    }
    pub fn reset() {
        let l = log();
        let mut i = 0;
        while i < MAX_LOG {
            l.e[i] = None;
            i += 1;
        }
        l.n = 0;
        l.reused = 0;
        l.rejected = 0;
    }
}
