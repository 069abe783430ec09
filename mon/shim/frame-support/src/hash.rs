pub use sp_io::hashing::{blake2_128, blake2_256, keccak_256, twox_128, twox_256, twox_64};

pub trait StorageHasher: 'static {
    fn hash(x: &[u8]) -> Vec<u8>;
}
pub trait ReversibleStorageHasher: StorageHasher {
    fn reverse(x: &[u8]) -> &[u8];
}
pub struct Identity;
impl StorageHasher for Identity {
    fn hash(x: &[u8]) -> Vec<u8> {
        x.to_vec()
    }
}
impl ReversibleStorageHasher for Identity {
    fn reverse(x: &[u8]) -> &[u8] {
        x
    }
}
pub struct Twox64Concat;
impl StorageHasher for Twox64Concat {
    fn hash(x: &[u8]) -> Vec<u8> {
        twox_64(x).iter().chain(x.iter()).cloned().collect()
    }
}
impl ReversibleStorageHasher for Twox64Concat {
    fn reverse(x: &[u8]) -> &[u8] {
        x.get(8..).unwrap_or(&[])
    }
}
pub struct Blake2_128Concat;
impl StorageHasher for Blake2_128Concat {
    fn hash(x: &[u8]) -> Vec<u8> {
        blake2_128(x).iter().chain(x.iter()).cloned().collect()
    }
}
impl ReversibleStorageHasher for Blake2_128Concat {
    fn reverse(x: &[u8]) -> &[u8] {
        x.get(16..).unwrap_or(&[])
    }
}
macro_rules! opaque {
    ($($n:ident $f:ident;)*) => {$(
        pub struct $n;
        impl StorageHasher for $n { fn hash(x: &[u8]) -> Vec<u8> { $f(x).to_vec() } }
    )*};
}
opaque! { Blake2_128 blake2_128; Blake2_256 blake2_256; Twox128 twox_128; Twox256 twox_256; }
