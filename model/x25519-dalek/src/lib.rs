//! Diffie-Hellman as a commutative, collision-free function of the two secrets:
//! `public(s) = s ^ 0x55..`, `dh(a, public(b)) = a ^ b ^ 0x33..` (bytewise).
//! Two peers agree exactly when each uses the other's real public key.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub struct PublicKey(pub [u8; 32]);

#[derive(Clone)]
pub struct StaticSecret(pub [u8; 32]);
pub type ReusableSecret = StaticSecret;
pub type EphemeralSecret = StaticSecret;

#[derive(Clone)]
pub struct SharedSecret(pub [u8; 32]);

fn xor(a: &[u8; 32], b: &[u8; 32], m: u8) -> [u8; 32] {
    let mut r = [0u8; 32];
    let mut i = 0;
    while i < 32 {
        r[i] = a[i] ^ b[i] ^ m;
        i += 1;
    }
    r
}

impl PublicKey {
    pub fn to_bytes(&self) -> [u8; 32] {
        self.0
    }
    pub fn as_bytes(&self) -> &[u8; 32] {
        &self.0
    }
}
impl AsRef<[u8]> for PublicKey {
    fn as_ref(&self) -> &[u8] {
        &self.0
    }
}
impl From<[u8; 32]> for PublicKey {
    fn from(b: [u8; 32]) -> Self {
        PublicKey(b)
    }
}
impl From<&StaticSecret> for PublicKey {
    fn from(s: &StaticSecret) -> Self {
        PublicKey(xor(&s.0, &[0; 32], 0x55))
    }
}
impl StaticSecret {
    pub fn diffie_hellman(&self, their: &PublicKey) -> SharedSecret {
        SharedSecret(xor(&self.0, &their.0, 0x55 ^ 0x33))
    }
    pub fn to_bytes(&self) -> [u8; 32] {
        self.0
    }
    pub fn as_bytes(&self) -> &[u8; 32] {
        &self.0
    }
}
impl From<[u8; 32]> for StaticSecret {
    fn from(b: [u8; 32]) -> Self {
        StaticSecret(b)
    }
}
impl SharedSecret {
    pub fn to_bytes(&self) -> [u8; 32] {
        self.0
    }
    pub fn as_bytes(&self) -> &[u8; 32] {
        &self.0
    }
    pub fn was_contributory(&self) -> bool {
        true
    }
}
impl AsRef<[u8]> for SharedSecret {
    fn as_ref(&self) -> &[u8] {
        &self.0
    }
}
