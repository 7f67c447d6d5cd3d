//! schnorr keys and signatures as uninterpreted functions.  A public key is a fixed pattern with
//! one byte (at any place) that is an injective function of the secret; a signature is an
//! injective function of (public key, digest).  Which byte strings are keys is left open.
pub type FieldBytes = [u8; 32];
static mut POS: (usize, usize) = (0, 0);
/// 32 bytes: a pattern with one free byte at a place that is the same for the whole run
pub fn abs32(id: u64, input: &[u8]) -> [u8; 32] {
    let mut o = [0u8; 32];
    for i in 0..32 {
        o[i] = (id as u8).wrapping_mul(31).wrapping_add(7 * i as u8) | 1
    }
    let p = unsafe {
        if POS.0 != symrt::run() {
            POS = (symrt::run(), [0, 31][symrt::choice(2)])
        }
        POS.1
    };
    let mut b = [0];
    symrt::uf(id, input, &mut b, true);
    o[p] = b[0];
    o
}
pub mod ecdsa {
    #[derive(Debug, Default)]
    pub struct Error;
    impl std::fmt::Display for Error {
        fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str("signature error") }
    }
    impl std::error::Error for Error {}
}
pub mod schnorr {
    use crate::ecdsa::Error;
    pub mod signature {
        pub mod hazmat {
            pub trait PrehashVerifier<S> {
                fn verify_prehash(&self, prehash: &[u8], sig: &S) -> Result<(), crate::ecdsa::Error>;
            }
        }
    }
    const N: [u8; 32] = [
        0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xfe, 0xba, 0xae, 0xdc, 0xe6, 0xaf, 0x48, 0xa0, 0x3b, 0xbf, 0xd2, 0x5e, 0x8c, 0xd0, 0x36, 0x41, 0x41,
    ];
    #[derive(Clone, Debug)]
    pub struct VerifyingKey([u8; 32]);
    #[derive(Clone)]
    pub struct SigningKey([u8; 32], VerifyingKey);
    #[derive(Clone, Copy, Debug)]
    pub struct Signature([u8; 64]);
    impl SigningKey {
        pub fn random(rng: &mut impl rand_core::CryptoRngCore) -> Self {
            let mut b = [0; 32];
            rng.fill_bytes(&mut b);
            Self::from_bytes(&b).unwrap()
        }
        pub fn from_bytes(b: &[u8]) -> Result<Self, Error> {
            let s: [u8; 32] = b.try_into().map_err(|_| Error)?;
            if s == [0; 32] || s >= N {
                return Err(Error);
            }
            Ok(SigningKey(s, VerifyingKey(crate::abs32(2, &s))))
        }
        pub fn to_bytes(&self) -> crate::FieldBytes { self.0 }
        pub fn verifying_key(&self) -> &VerifyingKey { &self.1 }
        pub fn sign_prehash_with_aux_rand(&self, h: &[u8; 32], _aux: &[u8; 32]) -> Result<Signature, Error> { Ok(Signature(sig(&self.1, h))) }
    }
    fn sig(k: &VerifyingKey, h: &[u8]) -> [u8; 64] {
        let mut i = k.0.to_vec();
        i.extend_from_slice(h);
        let mut o = [0; 64];
        symrt::uf(4, &i, &mut o, true);
        o
    }
    impl VerifyingKey {
        pub fn from_bytes(b: &[u8]) -> Result<Self, Error> {
            let s: [u8; 32] = b.try_into().map_err(|_| Error)?;
            Ok(VerifyingKey(s))
        }
        pub fn to_bytes(&self) -> crate::FieldBytes { self.0 }
    }
    impl signature::hazmat::PrehashVerifier<Signature> for VerifyingKey {
        fn verify_prehash(&self, h: &[u8], s: &Signature) -> Result<(), Error> {
            if h.len() == 32 && symrt::same(&sig(self, h), &s.0) {
                Ok(())
            } else {
                Err(Error)
            }
        }
    }
    impl Signature {
        pub fn to_bytes(&self) -> [u8; 64] { self.0 }
    }
    impl TryFrom<&[u8]> for Signature {
        type Error = Error;
        fn try_from(b: &[u8]) -> Result<Self, Error> { b.try_into().map(Signature).map_err(|_| Error) }
    }
}
