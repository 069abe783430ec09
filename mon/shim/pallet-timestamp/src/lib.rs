//! Offline stand-in for pallet-timestamp.
#![allow(clippy::all)]
extern crate self as pallet_timestamp;
use codec::MaxEncodedLen;
use frame_support::{
    traits::{Get, OnTimestampSet, Time, UnixTime},
    Parameter,
};
use scale_info::TypeInfo;
use sp_runtime::traits::{AtLeast32Bit, SaturatedConversion, Scale, Zero};

pub use pallet::*;

#[frame_support::pallet]
pub mod pallet {
    use super::*;
    use frame_support::pallet_prelude::*;
    use frame_system::pallet_prelude::*;

    #[pallet::config]
    pub trait Config: frame_system::Config {
        type Moment: Parameter
            + Default
            + AtLeast32Bit
            + Scale<BlockNumberFor<Self>, Output = Self::Moment>
            + Copy
            + MaxEncodedLen
            + scale_info::StaticTypeInfo;
        type OnTimestampSet: OnTimestampSet<Self::Moment>;
        type MinimumPeriod: Get<Self::Moment>;
        type WeightInfo;
    }
    #[pallet::pallet]
    pub struct Pallet<T>(_);

    #[pallet::storage]
    #[pallet::getter(fn now)]
    pub type Now<T: Config> = StorageValue<_, T::Moment, ValueQuery>;
    #[pallet::storage]
    pub type DidUpdate<T: Config> = StorageValue<_, bool, ValueQuery>;

    #[pallet::hooks]
    impl<T: Config> Hooks<BlockNumberFor<T>> for Pallet<T> {
        fn on_finalize(_n: BlockNumberFor<T>) {
            assert!(DidUpdate::<T>::take(), "Timestamp must be updated once in the block");
        }
    }
    #[pallet::call]
    impl<T: Config> Pallet<T> {
        #[pallet::call_index(0)]
        #[pallet::weight(Weight::from_parts(100, 0))]
        pub fn set(origin: OriginFor<T>, now: T::Moment) -> DispatchResult {
            ensure_none(origin)?;
            assert!(!DidUpdate::<T>::exists(), "Timestamp must be updated only once in the block");
            let prev = Self::now();
            assert!(
                prev.is_zero() || now >= prev + T::MinimumPeriod::get(),
                "Timestamp must increment by at least <MinimumPeriod> between sequential blocks"
            );
            Now::<T>::put(now);
            DidUpdate::<T>::put(true);
            T::OnTimestampSet::on_timestamp_set(now);
            Ok(())
        }
    }
}
impl<T: Config> Pallet<T> {
    pub fn get() -> T::Moment {
        Self::now()
    }
    pub fn set_timestamp(now: T::Moment) {
        Now::<T>::put(now);
        DidUpdate::<T>::put(true);
        T::OnTimestampSet::on_timestamp_set(now);
    }
}
impl<T: Config> Time for Pallet<T>
where
    T::Moment: sp_runtime::traits::AtLeast32BitUnsigned + TypeInfo,
{
    type Moment = T::Moment;
    fn now() -> T::Moment {
        <Now<T>>::get()
    }
}
impl<T: Config> UnixTime for Pallet<T> {
    fn now() -> core::time::Duration {
        core::time::Duration::from_millis(<Now<T>>::get().saturated_into::<u64>())
    }
}
