//! Offline stand-in for frame-system.
#![allow(clippy::all)]
extern crate self as frame_system;

use codec::{Codec, Decode, Encode, FullCodec, MaxEncodedLen};
use frame_support::{
    dispatch::{DispatchResult, DispatchResultWithPostInfo},
    traits::{Contains, EnsureOrigin, Get, OnKilledAccount, OnNewAccount, OriginTrait, PalletInfo, SortedMembers, StoredMap},
    weights::{RuntimeDbWeight, Weight},
    Parameter,
};
use scale_info::TypeInfo;
use sp_runtime::{
    traits::{
        AtLeast32Bit, AtLeast32BitUnsigned, BadOrigin, Bounded, Dispatchable, Hash, MaybeDisplay,
        MaybeSerializeDeserialize, Member, One, SimpleBitOps, StaticLookup, Zero,
    },
    DispatchError,
};
use std::{fmt::Debug, marker::PhantomData};

pub use frame_support::dispatch::RawOrigin;
pub use pallet::*;

pub type ConsumedWeight = Weight;
pub type RefCount = u32;

/// The part of a block type the pallets use.
pub trait BlockShim: 'static {
    type Number: Parameter
        + Member
        + MaybeSerializeDeserialize
        + Debug
        + std::hash::Hash
        + Copy
        + MaybeDisplay
        + AtLeast32BitUnsigned
        + Codec
        + std::str::FromStr
        + TypeInfo
        + Default
        + Bounded
        + MaxEncodedLen
        + Send
        + Sync
        + Zero;
}
pub mod mocking {
    use super::*;
    pub struct MockBlock<T>(PhantomData<T>);
    impl<T: 'static> BlockShim for MockBlock<T> {
        type Number = u64;
    }
    pub struct MockBlockU32<T>(PhantomData<T>);
    impl<T: 'static> BlockShim for MockBlockU32<T> {
        type Number = u32;
    }
    pub struct MockUncheckedExtrinsic<T>(PhantomData<T>);
}

pub mod limits {
    use super::*;
    use frame_support::dispatch::DispatchClass;
    #[derive(Clone, Debug)]
    pub struct WeightsPerClass {
        pub base_extrinsic: Weight,
        pub max_extrinsic: Option<Weight>,
        pub max_total: Option<Weight>,
        pub reserved: Option<Weight>,
    }
    #[derive(Clone, Debug)]
    pub struct BlockWeights {
        pub base_block: Weight,
        pub max_block: Weight,
        pub per: WeightsPerClass,
    }
    impl BlockWeights {
        pub fn get(&self, _c: DispatchClass) -> &WeightsPerClass {
            &self.per
        }
        pub fn simple_max(w: Weight) -> Self {
            Self {
                base_block: Weight::zero(),
                max_block: w,
                per: WeightsPerClass {
                    base_extrinsic: Weight::zero(),
                    max_extrinsic: None,
                    max_total: Some(w),
                    reserved: None,
                },
            }
        }
    }
    impl Default for BlockWeights {
        fn default() -> Self {
            Self::simple_max(Weight::from_parts(2_000_000_000_000, u64::MAX))
        }
    }
}

#[derive(Clone, Eq, PartialEq, Default, Debug, Encode, Decode, TypeInfo, MaxEncodedLen)]
pub struct AccountInfo<Nonce, AccountData> {
    pub nonce: Nonce,
    pub consumers: RefCount,
    pub providers: RefCount,
    pub sufficients: RefCount,
    pub data: AccountData,
}

#[derive(Encode, Decode, Debug, Eq, PartialEq, Clone, TypeInfo)]
pub enum Phase {
    ApplyExtrinsic(u32),
    Finalization,
    Initialization,
}
impl Default for Phase {
    fn default() -> Self {
        Self::Initialization
    }
}
#[derive(Encode, Decode, Debug, PartialEq, Eq, Clone)]
pub struct EventRecord<E, T> {
    pub phase: Phase,
    pub event: E,
    pub topics: Vec<T>,
}

#[derive(Eq, PartialEq, Debug)]
pub enum RefStatus {
    Referenced,
    Unreferenced,
}
#[derive(Eq, PartialEq, Debug)]
pub enum IncRefStatus {
    Created,
    Existed,
}
#[derive(Eq, PartialEq, Debug)]
pub enum DecRefStatus {
    Reaped,
    Exists,
}
pub type KeyValue = (Vec<u8>, Vec<u8>);

pub type Origin<T> = RawOrigin<<T as Config>::AccountId>;

#[frame_support::pallet]
pub mod pallet {
    use super::*;
    use crate::pallet_prelude::*;
    use frame_support::pallet_prelude::*;

    #[pallet::config]
    pub trait Config: 'static + Eq + Clone {
        type BaseCallFilter: Contains<Self::RuntimeCall>;
        type BlockWeights: Get<limits::BlockWeights>;
        type BlockLength;
        type RuntimeOrigin: Into<Result<RawOrigin<Self::AccountId>, Self::RuntimeOrigin>>
            + From<RawOrigin<Self::AccountId>>
            + Clone
            + OriginTrait<Call = Self::RuntimeCall, AccountId = Self::AccountId>;
        type RuntimeCall: Parameter + Dispatchable<RuntimeOrigin = Self::RuntimeOrigin> + Debug + From<Call<Self>>;
        type Nonce: Parameter + Member + Default + MaybeDisplay + AtLeast32Bit + Copy + MaxEncodedLen + TypeInfo;
        type Block: BlockShim;
        type Hash: Parameter
            + Member
            + MaybeSerializeDeserialize
            + Debug
            + MaybeDisplay
            + SimpleBitOps
            + Ord
            + Default
            + Copy
            + std::hash::Hash
            + AsRef<[u8]>
            + AsMut<[u8]>
            + TypeInfo
            + MaxEncodedLen;
        type Hashing: Hash<Output = Self::Hash> + TypeInfo;
        type AccountId: Parameter + Member + MaybeSerializeDeserialize + Debug + MaybeDisplay + Ord + MaxEncodedLen + TypeInfo;
        type Lookup: StaticLookup<Target = Self::AccountId>;
        type RuntimeEvent: codec::Codec + codec::EncodeLike + Clone + Eq + Member + From<Event<Self>> + Debug + IsType<<Self as frame_system::Config>::RuntimeEvent>;
        type BlockHashCount: Get<BlockNumberFor<Self>>;
        type DbWeight: Get<RuntimeDbWeight>;
        type Version;
        type PalletInfo: PalletInfo;
        type AccountData: Member + FullCodec + Clone + Default + TypeInfo + MaxEncodedLen;
        type OnNewAccount: OnNewAccount<Self::AccountId>;
        type OnKilledAccount: OnKilledAccount<Self::AccountId>;
        type SystemWeightInfo;
        type SS58Prefix: Get<u16>;
        type OnSetCode;
        type MaxConsumers: Get<u32>;
    }

    #[pallet::pallet]
    pub struct Pallet<T>(_);

    #[pallet::call]
    impl<T: Config> Pallet<T> {
        #[pallet::call_index(0)]
        #[pallet::weight(Weight::from_parts(100, 0))]
        pub fn remark(_origin: OriginFor<T>, remark: Vec<u8>) -> DispatchResultWithPostInfo {
            let _ = remark;
            Ok(().into())
        }
        #[pallet::call_index(2)]
        #[pallet::weight(Weight::from_parts(100, 0))]
        pub fn set_code(origin: OriginFor<T>, code: Vec<u8>) -> DispatchResultWithPostInfo {
            ensure_root(origin)?;
            let _ = code;
            Ok(().into())
        }
        #[pallet::call_index(4)]
        #[pallet::weight(Weight::from_parts(100, 0))]
        pub fn set_storage(origin: OriginFor<T>, items: Vec<KeyValue>) -> DispatchResultWithPostInfo {
            ensure_root(origin)?;
            for i in &items {
                frame_support::storage::unhashed::put_raw(&i.0, &i.1);
            }
            Ok(().into())
        }
        #[pallet::call_index(7)]
        #[pallet::weight(Weight::from_parts(100, 0))]
        pub fn remark_with_event(origin: OriginFor<T>, remark: Vec<u8>) -> DispatchResultWithPostInfo {
            let sender = ensure_signed(origin)?;
            let hash = T::Hashing::hash(&remark[..]);
            Self::deposit_event(Event::Remarked { sender, hash });
            Ok(().into())
        }
    }

    #[pallet::event]
    pub enum Event<T: Config> {
        NewAccount { account: T::AccountId },
        KilledAccount { account: T::AccountId },
        Remarked { sender: T::AccountId, hash: T::Hash },
    }

    #[pallet::error]
    pub enum Error<T> {
        InvalidSpecName,
        SpecVersionNeedsToIncrease,
        FailedToExtractRuntimeVersion,
        NonDefaultComposite,
        NonZeroRefCount,
        CallFiltered,
    }

    #[pallet::storage]
    #[pallet::getter(fn account)]
    pub type Account<T: Config> =
        StorageMap<_, Blake2_128Concat, T::AccountId, AccountInfo<T::Nonce, T::AccountData>, ValueQuery>;
    #[pallet::storage]
    #[pallet::getter(fn extrinsic_count)]
    pub type ExtrinsicCount<T: Config> = StorageValue<_, u32>;
    #[pallet::storage]
    #[pallet::getter(fn block_hash)]
    pub type BlockHash<T: Config> = StorageMap<_, Twox64Concat, BlockNumberFor<T>, T::Hash, ValueQuery>;
    #[pallet::storage]
    #[pallet::getter(fn block_number)]
    pub type Number<T: Config> = StorageValue<_, BlockNumberFor<T>, ValueQuery>;
    #[pallet::storage]
    #[pallet::getter(fn parent_hash)]
    pub type ParentHash<T: Config> = StorageValue<_, T::Hash, ValueQuery>;
    #[pallet::storage]
    pub type Events<T: Config> =
        StorageValue<_, Vec<Box<EventRecord<<T as Config>::RuntimeEvent, T::Hash>>>, ValueQuery>;
    #[pallet::storage]
    #[pallet::getter(fn event_count)]
    pub type EventCount<T: Config> = StorageValue<_, u32, ValueQuery>;
    #[pallet::storage]
    pub type ExecutionPhase<T: Config> = StorageValue<_, Phase>;

    #[pallet::genesis_config]
    pub struct GenesisConfig<T: Config> {
        pub _config: PhantomData<T>,
        pub code: Vec<u8>,
    }
    impl<T: Config> Default for GenesisConfig<T> {
        fn default() -> Self {
            Self { _config: PhantomData, code: vec![] }
        }
    }
    #[pallet::genesis_build]
    impl<T: Config> BuildGenesisConfig for GenesisConfig<T> {
        fn build(&self) {
            <BlockHash<T>>::insert::<_, T::Hash>(BlockNumberFor::<T>::zero(), Default::default());
        }
    }
}

impl<T: Config> GenesisConfig<T> {
    /// `GenesisConfig::<T>::default().build_storage()` without the trait in scope
    pub fn build_storage(&self) -> Result<sp_runtime::Storage, String> {
        sp_runtime::BuildStorage::build_storage(self)
    }
}

impl<T: Config> Pallet<T> {
    pub fn deposit_event(event: impl Into<T::RuntimeEvent>) {
        Self::deposit_event_indexed(&[], event.into());
    }
    pub fn deposit_event_indexed(topics: &[T::Hash], event: T::RuntimeEvent) {
        if Self::block_number().is_zero() {
            return;
        }
        let phase = ExecutionPhase::<T>::get().unwrap_or_default();
        EventCount::<T>::mutate(|c| *c += 1);
        Events::<T>::append(Box::new(EventRecord { phase, event, topics: topics.to_vec() }));
    }
    pub fn events() -> Vec<EventRecord<T::RuntimeEvent, T::Hash>> {
        Events::<T>::get().into_iter().map(|x| *x).collect()
    }
    pub fn read_events_no_consensus() -> impl Iterator<Item = Box<EventRecord<T::RuntimeEvent, T::Hash>>> {
        Events::<T>::get().into_iter()
    }
    pub fn reset_events() {
        Events::<T>::kill();
        EventCount::<T>::kill();
    }
    pub fn assert_has_event(event: T::RuntimeEvent) {
        assert!(
            Self::events().iter().any(|r| r.event == event),
            "expected event {:?} not found in events {:?}",
            event,
            Self::events()
        )
    }
    pub fn assert_last_event(event: T::RuntimeEvent) {
        assert_eq!(Self::events().last().expect("events expected").event, event);
    }
    pub fn set_block_number(n: BlockNumberFor<T>) {
        Number::<T>::put(n);
    }
    pub fn set_parent_hash(h: T::Hash) {
        ParentHash::<T>::put(h);
    }
    pub fn initialize(number: &BlockNumberFor<T>, parent_hash: &T::Hash, _digest: &sp_runtime::Digest) {
        Number::<T>::put(*number);
        ParentHash::<T>::put(*parent_hash);
        BlockHash::<T>::insert(*number - One::one(), *parent_hash);
        Self::reset_events();
    }
    pub fn register_extra_weight_unchecked(_weight: Weight, _class: frame_support::dispatch::DispatchClass) {}
    pub fn digest() -> sp_runtime::Digest {
        Default::default()
    }
    pub fn extrinsic_index() -> Option<u32> {
        frame_support::storage::unhashed::get(b":extrinsic_index")
    }
    pub fn account_nonce(who: &T::AccountId) -> T::Nonce {
        Account::<T>::get(who).nonce
    }
    pub fn inc_account_nonce(who: &T::AccountId) {
        Account::<T>::mutate(who, |a| a.nonce += T::Nonce::one())
    }
    pub fn account_exists(who: &T::AccountId) -> bool {
        Account::<T>::contains_key(who)
    }
    fn on_created_account(who: T::AccountId) {
        T::OnNewAccount::on_new_account(&who);
        Self::deposit_event(Event::NewAccount { account: who });
    }
    fn on_killed_account(who: T::AccountId) {
        T::OnKilledAccount::on_killed_account(&who);
        Self::deposit_event(Event::KilledAccount { account: who });
    }
    pub fn inc_providers(who: &T::AccountId) -> IncRefStatus {
        Account::<T>::mutate(who, |a| {
            if a.providers == 0 && a.sufficients == 0 {
                a.providers = 1;
                Self::on_created_account(who.clone());
                IncRefStatus::Created
            } else {
                a.providers = a.providers.saturating_add(1);
                IncRefStatus::Existed
            }
        })
    }
    pub fn dec_providers(who: &T::AccountId) -> Result<DecRefStatus, DispatchError> {
        Account::<T>::try_mutate_exists(who, |m| {
            if let Some(mut a) = m.take() {
                if a.providers == 0 {
                    a.providers = 1;
                }
                match (a.providers, a.consumers, a.sufficients) {
                    (1, 0, 0) => {
                        Self::on_killed_account(who.clone());
                        Ok(DecRefStatus::Reaped)
                    }
                    (1, c, _) if c > 0 => Err(DispatchError::ConsumerRemaining),
                    (x, _, _) => {
                        a.providers = x - 1;
                        *m = Some(a);
                        Ok(DecRefStatus::Exists)
                    }
                }
            } else {
                Ok(DecRefStatus::Reaped)
            }
        })
    }
    pub fn providers(who: &T::AccountId) -> RefCount {
        Account::<T>::get(who).providers
    }
    pub fn consumers(who: &T::AccountId) -> RefCount {
        Account::<T>::get(who).consumers
    }
    pub fn inc_consumers(who: &T::AccountId) -> Result<(), DispatchError> {
        Account::<T>::try_mutate(who, |a| {
            if a.providers > 0 {
                if a.consumers < T::MaxConsumers::get() {
                    a.consumers = a.consumers.saturating_add(1);
                    Ok(())
                } else {
                    Err(DispatchError::TooManyConsumers)
                }
            } else {
                Err(DispatchError::NoProviders)
            }
        })
    }
    pub fn inc_consumers_without_limit(who: &T::AccountId) -> Result<(), DispatchError> {
        Account::<T>::try_mutate(who, |a| {
            if a.providers > 0 {
                a.consumers = a.consumers.saturating_add(1);
                Ok(())
            } else {
                Err(DispatchError::NoProviders)
            }
        })
    }
    pub fn dec_consumers(who: &T::AccountId) {
        Account::<T>::mutate(who, |a| a.consumers = a.consumers.saturating_sub(1))
    }
    pub fn can_inc_consumer(who: &T::AccountId) -> bool {
        let a = Account::<T>::get(who);
        a.providers > 0 && a.consumers < T::MaxConsumers::get()
    }
    pub fn can_dec_provider(who: &T::AccountId) -> bool {
        let a = Account::<T>::get(who);
        a.consumers == 0 || a.providers > 1
    }
    pub fn is_provider_required(who: &T::AccountId) -> bool {
        Account::<T>::get(who).consumers != 0
    }
}

impl<T: Config> StoredMap<T::AccountId, T::AccountData> for Pallet<T> {
    fn get(k: &T::AccountId) -> T::AccountData {
        Account::<T>::get(k).data
    }
    fn try_mutate_exists<R, E: From<DispatchError>>(
        k: &T::AccountId,
        f: impl FnOnce(&mut Option<T::AccountData>) -> Result<R, E>,
    ) -> Result<R, E> {
        let account = Account::<T>::get(k);
        let is_default = account.data == T::AccountData::default();
        let mut some_data = if is_default { None } else { Some(account.data) };
        let result = f(&mut some_data)?;
        if Self::providers(k) > 0 || Account::<T>::get(k).sufficients > 0 {
            Account::<T>::mutate(k, |a| a.data = some_data.unwrap_or_default());
        } else {
            Account::<T>::remove(k)
        }
        Ok(result)
    }
}

pub fn ensure_signed<O, A>(o: O) -> Result<A, BadOrigin>
where
    O: Into<Result<RawOrigin<A>, O>>,
{
    match o.into() {
        Ok(RawOrigin::Signed(t)) => Ok(t),
        _ => Err(BadOrigin),
    }
}
pub fn ensure_signed_or_root<O, A>(o: O) -> Result<Option<A>, BadOrigin>
where
    O: Into<Result<RawOrigin<A>, O>>,
{
    match o.into() {
        Ok(RawOrigin::Root) => Ok(None),
        Ok(RawOrigin::Signed(t)) => Ok(Some(t)),
        _ => Err(BadOrigin),
    }
}
pub fn ensure_root<O, A>(o: O) -> Result<(), BadOrigin>
where
    O: Into<Result<RawOrigin<A>, O>>,
{
    match o.into() {
        Ok(RawOrigin::Root) => Ok(()),
        _ => Err(BadOrigin),
    }
}
pub fn ensure_none<O, A>(o: O) -> Result<(), BadOrigin>
where
    O: Into<Result<RawOrigin<A>, O>>,
{
    match o.into() {
        Ok(RawOrigin::None) => Ok(()),
        _ => Err(BadOrigin),
    }
}

pub struct EnsureRoot<A>(PhantomData<A>);
impl<O: Into<Result<RawOrigin<A>, O>> + From<RawOrigin<A>>, A> EnsureOrigin<O> for EnsureRoot<A> {
    type Success = ();
    fn try_origin(o: O) -> Result<(), O> {
        o.into().and_then(|o| match o {
            RawOrigin::Root => Ok(()),
            r => Err(O::from(r)),
        })
    }
}
pub struct EnsureSigned<A>(PhantomData<A>);
impl<O: Into<Result<RawOrigin<A>, O>> + From<RawOrigin<A>>, A> EnsureOrigin<O> for EnsureSigned<A> {
    type Success = A;
    fn try_origin(o: O) -> Result<A, O> {
        o.into().and_then(|o| match o {
            RawOrigin::Signed(w) => Ok(w),
            r => Err(O::from(r)),
        })
    }
}
pub struct EnsureSignedBy<Who, A>(PhantomData<(Who, A)>);
impl<O: Into<Result<RawOrigin<A>, O>> + From<RawOrigin<A>>, Who: SortedMembers<A>, A: PartialEq + Clone + Ord>
    EnsureOrigin<O> for EnsureSignedBy<Who, A>
{
    type Success = A;
    fn try_origin(o: O) -> Result<A, O> {
        o.into().and_then(|o| match o {
            RawOrigin::Signed(ref w) if Who::contains(w) => Ok(w.clone()),
            r => Err(O::from(r)),
        })
    }
}

pub mod offchain {
    use super::*;
    pub trait SendTransactionTypes<LocalCall> {
        type Extrinsic: sp_runtime::traits::Extrinsic<Call = Self::OverarchingCall> + Encode;
        type OverarchingCall: From<LocalCall> + Encode;
    }
    pub struct SubmitTransaction<T: SendTransactionTypes<C>, C>(PhantomData<(T, C)>);
    impl<T: SendTransactionTypes<C>, C> SubmitTransaction<T, C> {
        pub fn submit_unsigned_transaction(call: T::OverarchingCall) -> Result<(), ()> {
            use sp_runtime::traits::Extrinsic;
            let xt = T::Extrinsic::new(call, None).ok_or(())?;
            sp_io::offchain::submit_transaction(xt.encode())
        }
    }
}

pub mod pallet_prelude {
    pub use crate::{ensure_none, ensure_root, ensure_signed, ensure_signed_or_root};
    pub type OriginFor<T> = <T as crate::Config>::RuntimeOrigin;
    pub type BlockNumberFor<T> = <<T as crate::Config>::Block as crate::BlockShim>::Number;
}
use pallet_prelude::*;

#[allow(unused)]
fn _unused(_: DispatchResult, _: DispatchResultWithPostInfo) {}
