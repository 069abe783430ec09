use crate::dispatch::{DispatchResult, DispatchResultWithPostInfo};
use codec::{Decode, Encode, FullCodec, HasCompact, MaxEncodedLen};
use core::marker::PhantomData;
use impl_trait_for_tuples::impl_for_tuples;
use scale_info::TypeInfo;
use sp_runtime::{
    traits::{AtLeast32BitUnsigned, BadOrigin, MaybeSerializeDeserialize, Zero},
    DispatchError, Either,
};
use sp_weights::Weight;
use std::fmt::Debug;

pub use sp_core::{ConstBool, ConstI128, ConstI32, ConstI64, ConstU128, ConstU16, ConstU32, ConstU64, ConstU8};
pub use sp_core::{defer, Get, GetDefault, TryCollect, TypedGet};
pub use sp_runtime::traits::{
    Hash, UniqueSaturatedFrom, UniqueSaturatedInto, ValidateUnsigned,
};

pub mod currency;
pub mod tokens;
pub mod fungibles {
    pub use super::tokens::fungibles::*;
}
pub mod fungible {
    pub use super::tokens::fungible::*;
}
pub mod preimages;
pub mod schedule;
pub use currency::*;
pub use preimages::*;
pub use tokens::{BalanceStatus, ExistenceRequirement, WithdrawReasons};

// ---- storage / pallet info

pub trait StorageInstance {
    fn pallet_prefix() -> &'static str;
    const STORAGE_PREFIX: &'static str;
}
pub trait StorageInfoTrait {}
pub trait Task {}
pub trait PalletInfo {
    fn index<P: 'static>() -> Option<usize>;
    fn name<P: 'static>() -> Option<&'static str>;
}
impl PalletInfo for () {
    fn index<P: 'static>() -> Option<usize> {
        Some(0)
    }
    fn name<P: 'static>() -> Option<&'static str> {
        Some("test")
    }
}
pub trait PalletInfoAccess {
    fn index() -> usize;
    fn name() -> &'static str;
}

#[derive(Clone, Copy, Debug, Default, Encode, Decode, PartialEq, Eq, PartialOrd, Ord)]
pub struct StorageVersion(u16);
impl StorageVersion {
    pub const fn new(v: u16) -> Self {
        Self(v)
    }
    fn key<P: PalletInfoAccess>() -> Vec<u8> {
        let mut k = crate::hash::twox_128(P::name().as_bytes()).to_vec();
        k.extend(crate::hash::twox_128(b":__STORAGE_VERSION__:"));
        k
    }
    pub fn put<P: PalletInfoAccess>(&self) {
        crate::storage::unhashed::put(&Self::key::<P>(), self)
    }
    pub fn get<P: PalletInfoAccess>() -> Self {
        crate::storage::unhashed::get_or_default(&Self::key::<P>())
    }
}
impl PartialEq<u16> for StorageVersion {
    fn eq(&self, o: &u16) -> bool {
        self.0 == *o
    }
}
impl PartialOrd<u16> for StorageVersion {
    fn partial_cmp(&self, o: &u16) -> Option<std::cmp::Ordering> {
        Some(self.0.cmp(o))
    }
}
pub trait GetStorageVersion {
    fn current_storage_version() -> StorageVersion;
    fn on_chain_storage_version() -> StorageVersion;
}

// ---- hooks

pub trait BuildGenesisConfig: Default {
    fn build(&self);
}

pub trait OnInitialize<N: Copy> {
    fn on_initialize(_n: N) -> Weight {
        Weight::zero()
    }
}
#[impl_for_tuples(0, 40)]
impl<N: Copy> OnInitialize<N> for Tuple {
    fn on_initialize(n: N) -> Weight {
        let mut w = Weight::zero();
        for_tuples!( #( w = w.saturating_add(Tuple::on_initialize(n)); )* );
        w
    }
}
pub trait OnFinalize<N: Copy> {
    fn on_finalize(_n: N) {}
}
#[impl_for_tuples(0, 40)]
impl<N: Copy> OnFinalize<N> for Tuple {
    fn on_finalize(n: N) {
        for_tuples!( #( Tuple::on_finalize(n); )* );
    }
}
pub trait OnIdle<N: Copy> {
    fn on_idle(_n: N, _w: Weight) -> Weight {
        Weight::zero()
    }
}
pub trait OnRuntimeUpgrade {
    fn on_runtime_upgrade() -> Weight {
        Weight::zero()
    }
}
#[impl_for_tuples(0, 40)]
impl OnRuntimeUpgrade for Tuple {
    fn on_runtime_upgrade() -> Weight {
        let mut w = Weight::zero();
        for_tuples!( #( w = w.saturating_add(Tuple::on_runtime_upgrade()); )* );
        w
    }
}
pub trait OffchainWorker<N> {
    fn offchain_worker(_n: N) {}
}
pub trait IntegrityTest {
    fn integrity_test() {}
}
pub trait Hooks<BlockNumber> {
    fn on_finalize(_n: BlockNumber) {}
    fn on_idle(_n: BlockNumber, _remaining_weight: Weight) -> Weight {
        Weight::zero()
    }
    fn on_initialize(_n: BlockNumber) -> Weight {
        Weight::zero()
    }
    fn on_runtime_upgrade() -> Weight {
        Weight::zero()
    }
    fn offchain_worker(_n: BlockNumber) {}
    fn integrity_test() {}
}

#[impl_for_tuples(0, 20)]
pub trait OnNewAccount<AccountId> {
    fn on_new_account(who: &AccountId);
}
#[impl_for_tuples(0, 20)]
pub trait OnKilledAccount<AccountId> {
    fn on_killed_account(who: &AccountId);
}
pub trait HandleLifetime<T> {
    fn created(_t: &T) -> Result<(), DispatchError> {
        Ok(())
    }
    fn killed(_t: &T) -> Result<(), DispatchError> {
        Ok(())
    }
}
impl<T> HandleLifetime<T> for () {}

pub trait OnTimestampSet<Moment> {
    fn on_timestamp_set(moment: Moment);
}
impl<M> OnTimestampSet<M> for () {
    fn on_timestamp_set(_: M) {}
}
pub trait Time {
    type Moment: AtLeast32BitUnsigned + codec::Codec + Default + Copy + Debug + TypeInfo + MaxEncodedLen;
    fn now() -> Self::Moment;
}
pub trait UnixTime {
    fn now() -> core::time::Duration;
}

pub trait StoredMap<K, T: Default> {
    fn get(k: &K) -> T;
    fn try_mutate_exists<R, E: From<DispatchError>>(
        k: &K,
        f: impl FnOnce(&mut Option<T>) -> Result<R, E>,
    ) -> Result<R, E>;
    fn mutate<R>(k: &K, f: impl FnOnce(&mut T) -> R) -> Result<R, DispatchError> {
        Self::try_mutate_exists(k, |m| {
            let mut v = m.take().unwrap_or_default();
            let r = f(&mut v);
            *m = Some(v);
            Ok(r)
        })
    }
}

// ---- origins, filters

pub trait CallerTrait<AccountId>: Sized {
    fn as_system_ref(&self) -> Option<&crate::dispatch::RawOrigin<AccountId>>;
    fn as_signed(&self) -> Option<&AccountId> {
        match self.as_system_ref() {
            Some(crate::dispatch::RawOrigin::Signed(a)) => Some(a),
            _ => None,
        }
    }
}
pub trait OriginTrait: Sized {
    type Call;
    type PalletsOrigin;
    type AccountId;
    fn add_filter(&mut self, filter: impl Fn(&Self::Call) -> bool + 'static);
    fn reset_filter(&mut self);
    fn set_caller_from(&mut self, other: impl Into<Self>);
    fn filter_call(&self, call: &Self::Call) -> bool;
    fn caller(&self) -> &Self::PalletsOrigin;
    fn into_caller(self) -> Self::PalletsOrigin;
    fn try_with_caller<R>(
        self,
        f: impl FnOnce(Self::PalletsOrigin) -> Result<R, Self::PalletsOrigin>,
    ) -> Result<R, Self>;
    fn none() -> Self;
    fn root() -> Self;
    fn signed(by: Self::AccountId) -> Self;
}

pub trait EnsureOrigin<OuterOrigin> {
    type Success;
    fn ensure_origin(o: OuterOrigin) -> Result<Self::Success, BadOrigin> {
        Self::try_origin(o).map_err(|_| BadOrigin)
    }
    fn try_origin(o: OuterOrigin) -> Result<Self::Success, OuterOrigin>;
}
pub struct AsEnsureOriginWithArg<E>(PhantomData<E>);
pub struct NeverEnsureOrigin<S>(PhantomData<S>);
impl<O, S> EnsureOrigin<O> for NeverEnsureOrigin<S> {
    type Success = S;
    fn try_origin(o: O) -> Result<S, O> {
        Err(o)
    }
}
pub struct EitherOfDiverse<L, R>(PhantomData<(L, R)>);
impl<O, L: EnsureOrigin<O>, R: EnsureOrigin<O>> EnsureOrigin<O> for EitherOfDiverse<L, R> {
    type Success = Either<L::Success, R::Success>;
    fn try_origin(o: O) -> Result<Self::Success, O> {
        L::try_origin(o).map_or_else(|o| R::try_origin(o).map(Either::Right), |s| Ok(Either::Left(s)))
    }
}
pub type EnsureOneOf<L, R> = EitherOfDiverse<L, R>;
pub struct EitherOf<L, R>(PhantomData<(L, R)>);
impl<O, L: EnsureOrigin<O>, R: EnsureOrigin<O, Success = L::Success>> EnsureOrigin<O> for EitherOf<L, R> {
    type Success = L::Success;
    fn try_origin(o: O) -> Result<Self::Success, O> {
        L::try_origin(o).or_else(|o| R::try_origin(o))
    }
}

pub trait Contains<T> {
    fn contains(t: &T) -> bool;
}
pub enum Everything {}
impl<T> Contains<T> for Everything {
    fn contains(_: &T) -> bool {
        true
    }
}
pub enum Nothing {}
impl<T> Contains<T> for Nothing {
    fn contains(_: &T) -> bool {
        false
    }
}
impl<T> Contains<T> for () {
    fn contains(_: &T) -> bool {
        false
    }
}
pub struct InsideBoth<A, B>(PhantomData<(A, B)>);
impl<T, A: Contains<T>, B: Contains<T>> Contains<T> for InsideBoth<A, B> {
    fn contains(t: &T) -> bool {
        A::contains(t) && B::contains(t)
    }
}
pub trait SortedMembers<T: Ord> {
    fn contains(t: &T) -> bool {
        Self::sorted_members().binary_search(t).is_ok()
    }
    fn sorted_members() -> Vec<T>;
    fn count() -> usize {
        Self::sorted_members().len()
    }
}
impl<T: Ord> SortedMembers<T> for () {
    fn sorted_members() -> Vec<T> {
        vec![]
    }
}
pub trait InstanceFilter<T>: Sized + Send + Sync {
    fn filter(&self, _: &T) -> bool;
    fn is_superset(&self, _: &Self) -> bool {
        false
    }
}
impl<T> InstanceFilter<T> for () {
    fn filter(&self, _: &T) -> bool {
        true
    }
}
#[derive(PartialEq)]
pub struct EqualPrivilegeOnly;
pub trait PrivilegeCmp<Origin> {
    fn cmp_privilege(l: &Origin, r: &Origin) -> Option<std::cmp::Ordering>;
}
impl<O: PartialEq> PrivilegeCmp<O> for EqualPrivilegeOnly {
    fn cmp_privilege(l: &O, r: &O) -> Option<std::cmp::Ordering> {
        (l == r).then(|| std::cmp::Ordering::Equal)
    }
}

// ---- calls

pub trait UnfilteredDispatchable {
    type RuntimeOrigin;
    fn dispatch_bypass_filter(self, origin: Self::RuntimeOrigin) -> DispatchResultWithPostInfo;
}
pub trait GetCallName {
    fn get_call_names() -> &'static [&'static str];
    fn get_call_name(&self) -> &'static str;
}
#[derive(Clone, Eq, PartialEq, Default, Debug)]
pub struct CallMetadata {
    pub function_name: &'static str,
    pub pallet_name: &'static str,
}
pub trait GetCallMetadata {
    fn get_module_names() -> &'static [&'static str];
    fn get_call_names(module: &str) -> &'static [&'static str];
    fn get_call_metadata(&self) -> CallMetadata;
}
pub trait IsSubType<T> {
    fn is_sub_type(&self) -> Option<&T>;
}
/// Same type up to `into`/`from`.
pub trait IsType<T>: Into<T> + From<T> {
    fn from_ref(t: &T) -> &Self;
    fn into_ref(&self) -> &T;
    fn from_mut(t: &mut T) -> &mut Self;
    fn into_mut(&mut self) -> &mut T;
}
impl<T> IsType<T> for T {
    fn from_ref(t: &T) -> &Self {
        t
    }
    fn into_ref(&self) -> &T {
        self
    }
    fn from_mut(t: &mut T) -> &mut Self {
        t
    }
    fn into_mut(&mut self) -> &mut T {
        self
    }
}
pub trait ExtrinsicCall: sp_runtime::traits::Extrinsic {
    fn call(&self) -> &Self::Call;
}

// ---- validators

pub trait ValidatorRegistration<ValidatorId> {
    fn is_registered(id: &ValidatorId) -> bool;
}
pub trait FindAuthor<Author> {
    fn find_author<'a, I>(digests: I) -> Option<Author>
    where
        I: 'a + IntoIterator<Item = (crate::ConsensusEngineId, &'a [u8])>;
}
impl<A> FindAuthor<A> for () {
    fn find_author<'a, I>(_: I) -> Option<A>
    where
        I: 'a + IntoIterator<Item = (crate::ConsensusEngineId, &'a [u8])>,
    {
        None
    }
}
pub trait OneSessionHandler<ValidatorId> {}
pub trait EstimateNextSessionRotation<B> {}

pub use sp_runtime::traits::Bounded as BoundedNumber;
#[allow(unused)]
fn _unused<T: HasCompact + FullCodec + MaybeSerializeDeserialize + Zero>(_: PhantomData<(T, DispatchResult)>) {}

// ---- of messages between chains, and of contracts
#[derive(codec::Encode, codec::Decode, Copy, Clone, PartialEq, Eq, Debug, scale_info::TypeInfo)]
pub enum ProcessMessageError {
    BadFormat,
    Corrupt,
    Unsupported,
    Overweight(crate::weights::Weight),
    Yield,
}
pub trait Randomness<Output, BlockNumber> {
    fn random(subject: &[u8]) -> (Output, BlockNumber);
    fn random_seed() -> (Output, BlockNumber) {
        Self::random(&[][..])
    }
}
