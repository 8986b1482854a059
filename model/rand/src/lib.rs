//! The random generator as a source of values that never repeat: the k-th fill writes the
//! number k into every byte (so two draws always differ, and no draw is all-zero), unless the
//! harness says which bytes are drawn (`feed`).
pub use rand_core;
pub use rand_core::{CryptoRng, RngCore, SeedableRng};

static mut DRAWS: u8 = 0;
static mut FEED: Vec<u8> = Vec::new();
static mut AT: usize = 0;

/// Number of draws so far.
pub fn draws() -> u8 {
    unsafe { DRAWS }
}
/// What is drawn from now on.
pub fn feed(v: &[u8]) {
    unsafe {
        FEED = v.to_vec();
        AT = 0;
    }
}
/// Bytes drawn since then.
pub fn drawn() -> usize {
    unsafe { AT }
}

#[derive(Clone, Copy, Debug, Default)]
pub struct ThreadRng;
pub fn thread_rng() -> ThreadRng {
    ThreadRng
}
impl RngCore for ThreadRng {
    fn next_u32(&mut self) -> u32 {
        let mut b = [0; 4];
        self.fill_bytes(&mut b);
        u32::from_le_bytes(b)
    }
    fn next_u64(&mut self) -> u64 {
        let mut b = [0; 8];
        self.fill_bytes(&mut b);
        u64::from_le_bytes(b)
    }
    #[allow(static_mut_refs)]
    fn fill_bytes(&mut self, dest: &mut [u8]) {
        unsafe {
            DRAWS = DRAWS.wrapping_add(1);
            let mut i = 0;
            if FEED.is_empty() {
                while i < dest.len() {
                    dest[i] = DRAWS;
                    i += 1;
                }
                return;
            }
            if AT + dest.len() > FEED.len() {
                sym::fail("stand-in: more random bytes are drawn than the harness provides");
            }
            while i < dest.len() {
                dest[i] = FEED[AT + i];
                i += 1;
            }
            AT += dest.len();
        }
    }
    fn try_fill_bytes(&mut self, dest: &mut [u8]) -> Result<(), rand_core::Error> {
        self.fill_bytes(dest);
        Ok(())
    }
}
impl CryptoRng for ThreadRng {}

/// A generator that is no more random than its seed.
#[derive(Clone, Debug)]
pub struct Seeded {
    seed: [u8; 32],
    at: usize,
}
impl Seeded {
    pub fn from_entropy() -> Self {
        let mut seed = [0; 32];
        ThreadRng.fill_bytes(&mut seed);
        Seeded { seed, at: 0 }
    }
}
impl SeedableRng for Seeded {
    type Seed = [u8; 32];
    fn from_seed(seed: [u8; 32]) -> Self {
        Seeded { seed, at: 0 }
    }
    fn seed_from_u64(v: u64) -> Self {
        let mut seed = [0; 32];
        seed[..8].copy_from_slice(&v.to_le_bytes());
        Seeded { seed, at: 0 }
    }
}
impl RngCore for Seeded {
    fn next_u32(&mut self) -> u32 {
        let mut b = [0; 4];
        self.fill_bytes(&mut b);
        u32::from_le_bytes(b)
    }
    fn next_u64(&mut self) -> u64 {
        let mut b = [0; 8];
        self.fill_bytes(&mut b);
        u64::from_le_bytes(b)
    }
    fn fill_bytes(&mut self, dest: &mut [u8]) {
        for d in dest.iter_mut() {
            *d = self.seed[self.at % 32] ^ (self.at as u8).wrapping_mul(7);
            self.at += 1;
        }
    }
    fn try_fill_bytes(&mut self, dest: &mut [u8]) -> Result<(), rand_core::Error> {
        self.fill_bytes(dest);
        Ok(())
    }
}
impl CryptoRng for Seeded {}

pub trait Fill {
    fn fill_from<R: RngCore + ?Sized>(&mut self, r: &mut R);
}
impl Fill for [u8] {
    fn fill_from<R: RngCore + ?Sized>(&mut self, r: &mut R) {
        r.fill_bytes(self)
    }
}
impl<const N: usize> Fill for [u8; N] {
    fn fill_from<R: RngCore + ?Sized>(&mut self, r: &mut R) {
        r.fill_bytes(self)
    }
}
pub trait Sample {
    fn sample<R: RngCore + ?Sized>(r: &mut R) -> Self;
}
impl<const N: usize> Sample for [u8; N] {
    fn sample<R: RngCore + ?Sized>(r: &mut R) -> Self {
        let mut a = [0; N];
        r.fill_bytes(&mut a);
        a
    }
}
impl Sample for u64 {
    fn sample<R: RngCore + ?Sized>(r: &mut R) -> Self {
        r.next_u64()
    }
}
impl Sample for u32 {
    fn sample<R: RngCore + ?Sized>(r: &mut R) -> Self {
        r.next_u32()
    }
}
impl Sample for u128 {
    fn sample<R: RngCore + ?Sized>(r: &mut R) -> Self {
        u128::from(r.next_u64()) | u128::from(r.next_u64()) << 64
    }
}
impl Sample for u8 {
    fn sample<R: RngCore + ?Sized>(r: &mut R) -> Self {
        r.next_u32() as u8
    }
}
pub trait Rng: RngCore {
    fn fill<T: Fill + ?Sized>(&mut self, t: &mut T) {
        t.fill_from(self)
    }
    fn gen<T: Sample>(&mut self) -> T {
        T::sample(self)
    }
}
impl<R: RngCore + ?Sized> Rng for R {}
pub fn random<T: Sample>() -> T {
    T::sample(&mut ThreadRng)
}
pub mod rngs {
    pub use super::ThreadRng;
    pub use super::{Seeded as StdRng, Seeded as SmallRng, ThreadRng as OsRng};
}
pub mod prelude {
    pub use super::{random, thread_rng, Rng, RngCore, SeedableRng, ThreadRng};
}
