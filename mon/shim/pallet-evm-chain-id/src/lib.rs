//! Offline stand-in.
pub trait Config: frame_system::Config {}
impl<T: frame_system::Config> Config for T {}
pub struct ChainId<T>(std::marker::PhantomData<T>);
const KEY: &[u8] = b"evm-chain-id";
impl<T: Config> ChainId<T> {
    pub fn get() -> u64 {
        frame_support::storage::unhashed::get(KEY).unwrap_or(0)
    }
    pub fn put(i: u64) {
        frame_support::storage::unhashed::put(KEY, &i)
    }
}
