//! Offline stand-in.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Id(pub u32);
impl From<Id> for u32 {
    fn from(i: Id) -> u32 {
        i.0
    }
}
pub trait Config: frame_system::Config {}
impl<T: frame_system::Config> Config for T {}
pub struct Pallet<T>(std::marker::PhantomData<T>);
const KEY: &[u8] = b"parachain-info:id";
impl<T: Config> Pallet<T> {
    pub fn parachain_id() -> Id {
        Id(frame_support::storage::unhashed::get(KEY).unwrap_or(100))
    }
    pub fn set(i: u32) {
        frame_support::storage::unhashed::put(KEY, &i)
    }
}
