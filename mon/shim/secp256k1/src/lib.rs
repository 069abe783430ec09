//! The repository pins an old git revision of rust-secp256k1 which is not available offline.
//! This adapts the crates.io release 0.24.3 (same C library, same API names) to the two calls
//! whose signature changed since (`PublicKey::mul_assign`, `SecretKey::mul_assign`).
pub use real::{
    constants, ffi, rand, AllPreallocated, Context, Error, Message, Scalar, Secp256k1, SecretKey, Signing, Verification,
};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct PublicKey(pub real::PublicKey);

impl PublicKey {
    pub fn from_slice(data: &[u8]) -> Result<Self, Error> {
        real::PublicKey::from_slice(data).map(Self)
    }
    pub fn serialize(&self) -> [u8; constants::PUBLIC_KEY_SIZE] {
        self.0.serialize()
    }
    pub fn from_secret_key<C: Signing>(secp: &Secp256k1<C>, sk: &SecretKey) -> Self {
        Self(real::PublicKey::from_secret_key(secp, sk))
    }
    pub fn mul_assign<C: Verification>(&mut self, secp: &Secp256k1<C>, other: &[u8]) -> Result<(), Error> {
        if other.len() != 32 {
            return Err(Error::InvalidTweak);
        }
        let mut b = [0u8; 32];
        b.copy_from_slice(other);
        let scalar = Scalar::from_be_bytes(b).map_err(|_| Error::InvalidTweak)?;
        self.0 = self.0.mul_tweak(secp, &scalar)?;
        Ok(())
    }
}

pub trait SecretMulAssign {
    fn mul_assign(&mut self, other: &[u8]) -> Result<(), Error>;
}
impl SecretMulAssign for SecretKey {
    fn mul_assign(&mut self, other: &[u8]) -> Result<(), Error> {
        let mut b = [0u8; 32];
        b.copy_from_slice(other);
        let scalar = Scalar::from_be_bytes(b).map_err(|_| Error::InvalidTweak)?;
        *self = self.mul_tweak(&scalar)?;
        Ok(())
    }
}
