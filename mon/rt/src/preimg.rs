//! A preimage store: what democracy needs of pallet-preimage.
pub use pallet::*;
#[frame_support::pallet]
pub mod pallet {
    use frame_support::{
        pallet_prelude::*,
        traits::{FetchResult, QueryPreimage, StorePreimage},
    };
    use frame_system::pallet_prelude::*;
    use sp_core::H256;
    use sp_runtime::DispatchError;
    use std::borrow::Cow;

    #[pallet::config]
    pub trait Config: frame_system::Config {}
    #[pallet::pallet]
    pub struct Pallet<T>(_);
    #[pallet::storage]
    pub type Data<T: Config> = StorageMap<_, Blake2_128Concat, H256, Vec<u8>, OptionQuery>;
    /// outstanding requests per hash
    #[pallet::storage]
    pub type Requests<T: Config> = StorageMap<_, Blake2_128Concat, H256, u32, ValueQuery>;

    #[pallet::call]
    impl<T: Config> Pallet<T> {
        #[pallet::call_index(0)]
        #[pallet::weight(Weight::from_parts(100, 0))]
        pub fn note_preimage(origin: OriginFor<T>, bytes: Vec<u8>) -> DispatchResultWithPostInfo {
            ensure_signed(origin)?;
            Data::<T>::insert(H256::from(sp_io::hashing::blake2_256(&bytes)), bytes);
            Ok(().into())
        }
    }
    impl<T: Config> QueryPreimage for Pallet<T> {
        fn len(hash: &H256) -> Option<u32> {
            Data::<T>::get(hash).map(|d| d.len() as u32)
        }
        fn fetch(hash: &H256, _len: Option<u32>) -> FetchResult {
            Data::<T>::get(hash).map(Cow::Owned).ok_or(DispatchError::Unavailable)
        }
        fn is_requested(hash: &H256) -> bool {
            Requests::<T>::get(hash) > 0
        }
        fn request(hash: &H256) {
            Requests::<T>::mutate(hash, |x| *x += 1)
        }
        fn unrequest(hash: &H256) {
            Requests::<T>::mutate(hash, |x| *x = x.saturating_sub(1))
        }
    }
    impl<T: Config> StorePreimage for Pallet<T> {
        const MAX_LENGTH: usize = 1 << 20;
        fn note(bytes: Cow<[u8]>) -> Result<H256, DispatchError> {
            let h = H256::from(sp_io::hashing::blake2_256(&bytes));
            Data::<T>::insert(h, bytes.to_vec());
            Self::request(&h);
            Ok(h)
        }
    }
}
