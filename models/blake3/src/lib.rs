//! blake3 as an uninterpreted injective function of the bytes fed to it
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub struct Hash([u8; 32]);
pub const OUT_LEN: usize = 32;
impl Hash {
    pub fn as_bytes(&self) -> &[u8; 32] { &self.0 }
    pub const fn from_bytes(b: [u8; 32]) -> Self { Hash(b) }
}
impl From<Hash> for [u8; 32] {
    fn from(h: Hash) -> Self { h.0 }
}
impl From<[u8; 32]> for Hash {
    fn from(h: [u8; 32]) -> Self { Hash(h) }
}
#[derive(Clone, Debug, Default)]
pub struct Hasher(Vec<u8>);
impl Hasher {
    pub fn new() -> Self { Hasher(vec![]) }
    pub fn reset(&mut self) -> &mut Self {
        self.0.clear();
        self
    }
    pub fn update(&mut self, b: &[u8]) -> &mut Self {
        self.0.extend_from_slice(b);
        self
    }
    pub fn count(&self) -> u64 { self.0.len() as u64 }
    pub fn finalize(&self) -> Hash {
        let mut o = [0; 32];
        symrt::uf(1, &self.0, &mut o, true);
        Hash(o)
    }
}
pub fn hash(b: &[u8]) -> Hash { Hasher::new().update(b).finalize() }
