//! Offline stand-in: notes what it was told of the time.
use frame_support::traits::OnTimestampSet;
pub trait Config: frame_system::Config + pallet_timestamp::Config {}
impl<T: frame_system::Config + pallet_timestamp::Config> Config for T {}
pub struct Pallet<T>(std::marker::PhantomData<T>);
thread_local! {
    pub static HEARD: std::cell::RefCell<Vec<u64>> = Default::default();
}
impl<T: Config> OnTimestampSet<T::Moment> for Pallet<T>
where
    T::Moment: TryInto<u64>,
{
    fn on_timestamp_set(m: T::Moment) {
        HEARD.with(|h| h.borrow_mut().push(m.try_into().ok().unwrap()));
    }
}
