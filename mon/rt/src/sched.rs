//! A scheduler for named calls: what democracy needs of pallet-scheduler.
pub use pallet::*;
#[frame_support::pallet]
pub mod pallet {
    use frame_support::{
        pallet_prelude::*,
        traits::{
            schedule::{v3::Named, DispatchTime, Period, Priority},
            Bounded, QueryPreimage, UnfilteredDispatchable,
        },
    };
    use frame_system::pallet_prelude::*;
    use sp_runtime::{traits::Dispatchable, DispatchError};

    #[pallet::config]
    pub trait Config: frame_system::Config {
        type Preimages: QueryPreimage;
    }
    #[pallet::pallet]
    pub struct Pallet<T>(_);

    /// name -> (when, encoded bounded call)
    #[pallet::storage]
    pub type Tasks<T: Config> = StorageMap<_, Blake2_128Concat, [u8; 32], (BlockNumberFor<T>, Vec<u8>), OptionQuery>;
    /// what was dispatched: (when, name, ok)
    #[pallet::storage]
    pub type Done<T: Config> = StorageValue<_, Vec<(BlockNumberFor<T>, [u8; 32], bool)>, ValueQuery>;

    impl<T: Config> Pallet<T>
    where
        <T as frame_system::Config>::RuntimeCall: UnfilteredDispatchable<RuntimeOrigin = T::RuntimeOrigin>,
    {
        pub fn run(now: BlockNumberFor<T>) {
            let mut due: Vec<_> = Tasks::<T>::iter().filter(|(_, (w, _))| *w <= now).collect();
            due.sort();
            for (name, (_, enc)) in due {
                Tasks::<T>::remove(name);
                let b: Bounded<<T as frame_system::Config>::RuntimeCall> = Decode::decode(&mut &enc[..]).unwrap();
                let ok = match T::Preimages::peek::<<T as frame_system::Config>::RuntimeCall>(&b) {
                    Ok((c, _)) => c.dispatch_bypass_filter(frame_system::RawOrigin::Root.into()).is_ok(),
                    Err(_) => false,
                };
                // the scheduler releases the preimage once the call ran
                T::Preimages::drop(&b);
                Done::<T>::append((now, name, ok));
            }
        }
    }
    impl<T: Config, O> Named<BlockNumberFor<T>, <T as frame_system::Config>::RuntimeCall, O> for Pallet<T>
    where
        <T as frame_system::Config>::RuntimeCall: Dispatchable,
    {
        type Address = (BlockNumberFor<T>, u32);
        fn schedule_named(
            id: [u8; 32],
            when: DispatchTime<BlockNumberFor<T>>,
            _: Option<Period<BlockNumberFor<T>>>,
            _: Priority,
            _origin: O,
            call: Bounded<<T as frame_system::Config>::RuntimeCall>,
        ) -> Result<Self::Address, DispatchError> {
            let now = frame_system::Pallet::<T>::block_number();
            if Tasks::<T>::contains_key(id) {
                return Err(DispatchError::Other("FailedToSchedule"));
            }
            let at = match when {
                DispatchTime::At(x) => x,
                DispatchTime::After(x) => now + x + 1u32.into(),
            };
            if at <= now {
                return Err(DispatchError::Other("TargetBlockNumberInPast"));
            }
            Tasks::<T>::insert(id, (at, call.encode()));
            Ok((at, 0))
        }
        fn cancel_named(id: [u8; 32]) -> Result<(), DispatchError> {
            if Tasks::<T>::take(id).is_none() {
                return Err(DispatchError::Other("NotFound"));
            }
            Ok(())
        }
        fn reschedule_named(_: [u8; 32], _: DispatchTime<BlockNumberFor<T>>) -> Result<Self::Address, DispatchError> {
            Err(DispatchError::Other("unused"))
        }
        fn next_dispatch_time(id: [u8; 32]) -> Result<BlockNumberFor<T>, DispatchError> {
            Tasks::<T>::get(id).map(|x| x.0).ok_or(DispatchError::Other("NotFound"))
        }
    }
}
