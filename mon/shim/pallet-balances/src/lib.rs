//! Offline stand-in for pallet-balances, with its balance rules (existential deposit, providers and
//! consumers, locks, reserves).
#![allow(clippy::all)]
extern crate self as pallet_balances;
use codec::{Codec, Decode, Encode, MaxEncodedLen};
use frame_support::{
    dispatch::DispatchResult,
    ensure,
    traits::{
        BalanceStatus as Status, Currency, ExistenceRequirement, Get, Imbalance, LockIdentifier, LockableCurrency,
        OnUnbalanced, ReservableCurrency, SameOrOther, SignedImbalance, StoredMap, TryDrop, WithdrawReasons,
    },
    traits::tokens::{DepositConsequence, WithdrawConsequence},
    BoundedVec, Parameter,
};
use scale_info::TypeInfo;
use sp_runtime::{
    traits::{AtLeast32BitUnsigned, Bounded, CheckedAdd, CheckedSub, MaybeSerializeDeserialize, Member, Saturating, StaticLookup, Zero},
    ArithmeticError, DispatchError, FixedPointOperand, TokenError,
};
use std::{fmt::Debug, marker::PhantomData};
use ExistenceRequirement::{AllowDeath, KeepAlive};

pub use pallet::*;
pub type NegativeImbalanceOf<T> = NegativeImbalance<T>;

#[derive(Encode, Decode, Clone, PartialEq, Eq, Debug, MaxEncodedLen, TypeInfo)]
pub struct BalanceLock<Balance> {
    pub id: LockIdentifier,
    pub amount: Balance,
}
#[derive(Encode, Decode, Clone, PartialEq, Eq, Default, Debug, MaxEncodedLen, TypeInfo)]
pub struct AccountData<Balance> {
    pub free: Balance,
    pub reserved: Balance,
    pub frozen: Balance,
}
impl<B: Saturating + Copy> AccountData<B> {
    fn total(&self) -> B {
        self.free.saturating_add(self.reserved)
    }
}

#[frame_support::pallet]
pub mod pallet {
    use super::*;
    use frame_support::pallet_prelude::*;
    use frame_system::pallet_prelude::*;

    #[pallet::config]
    pub trait Config: frame_system::Config {
        type RuntimeEvent: From<Event<Self>> + IsType<<Self as frame_system::Config>::RuntimeEvent>;
        type RuntimeHoldReason;
        type WeightInfo;
        type Balance: Parameter
            + Member
            + AtLeast32BitUnsigned
            + Codec
            + Default
            + Copy
            + MaybeSerializeDeserialize
            + Debug
            + MaxEncodedLen
            + TypeInfo
            + FixedPointOperand;
        type DustRemoval: OnUnbalanced<NegativeImbalance<Self>>;
        type ExistentialDeposit: Get<Self::Balance>;
        type AccountStore: StoredMap<Self::AccountId, AccountData<Self::Balance>>;
        type ReserveIdentifier;
        type FreezeIdentifier;
        type MaxLocks: Get<u32>;
        type MaxReserves: Get<u32>;
        type MaxHolds: Get<u32>;
        type MaxFreezes: Get<u32>;
    }
    #[pallet::event]
    #[pallet::generate_deposit(pub(crate) fn deposit_event)]
    pub enum Event<T: Config> {
        Endowed { account: T::AccountId, free_balance: T::Balance },
        DustLost { account: T::AccountId, amount: T::Balance },
        Transfer { from: T::AccountId, to: T::AccountId, amount: T::Balance },
        BalanceSet { who: T::AccountId, free: T::Balance },
        Reserved { who: T::AccountId, amount: T::Balance },
        Unreserved { who: T::AccountId, amount: T::Balance },
        ReserveRepatriated { from: T::AccountId, to: T::AccountId, amount: T::Balance, destination_status: Status },
        Deposit { who: T::AccountId, amount: T::Balance },
        Withdraw { who: T::AccountId, amount: T::Balance },
        Slashed { who: T::AccountId, amount: T::Balance },
    }
    #[pallet::error]
    pub enum Error<T> {
        VestingBalance,
        LiquidityRestrictions,
        InsufficientBalance,
        ExistentialDeposit,
        Expendability,
        ExistingVestingSchedule,
        DeadAccount,
        TooManyReserves,
        TooManyHolds,
        TooManyFreezes,
    }
    #[pallet::pallet]
    pub struct Pallet<T>(_);
    #[pallet::storage]
    #[pallet::getter(fn total_issuance)]
    pub type TotalIssuance<T: Config> = StorageValue<_, T::Balance, ValueQuery>;
    #[pallet::storage]
    #[pallet::getter(fn locks)]
    pub type Locks<T: Config> =
        StorageMap<_, Blake2_128Concat, T::AccountId, BoundedVec<BalanceLock<T::Balance>, T::MaxLocks>, ValueQuery>;

    #[pallet::genesis_config]
    pub struct GenesisConfig<T: Config> {
        pub balances: Vec<(T::AccountId, T::Balance)>,
    }
    impl<T: Config> Default for GenesisConfig<T> {
        fn default() -> Self {
            Self { balances: vec![] }
        }
    }
    #[pallet::genesis_build]
    impl<T: Config> BuildGenesisConfig for GenesisConfig<T> {
        fn build(&self) {
            let total = self.balances.iter().fold(T::Balance::zero(), |a, (_, n)| a + *n);
            TotalIssuance::<T>::put(total);
            for (who, free) in &self.balances {
                assert!(*free >= T::ExistentialDeposit::get());
                frame_system::Pallet::<T>::inc_providers(who);
                assert!(T::AccountStore::mutate(who, |a| a.free = *free).is_ok());
            }
        }
    }
    #[pallet::call]
    impl<T: Config> Pallet<T> {
        #[pallet::call_index(0)]
        #[pallet::weight(Weight::from_parts(100, 0))]
        pub fn transfer_allow_death(
            origin: OriginFor<T>,
            dest: <T::Lookup as StaticLookup>::Source,
            #[pallet::compact] value: T::Balance,
        ) -> DispatchResult {
            let source = ensure_signed(origin)?;
            let dest = T::Lookup::lookup(dest)?;
            <Self as Currency<_>>::transfer(&source, &dest, value, AllowDeath)
        }
        #[pallet::call_index(3)]
        #[pallet::weight(Weight::from_parts(100, 0))]
        pub fn transfer_keep_alive(
            origin: OriginFor<T>,
            dest: <T::Lookup as StaticLookup>::Source,
            #[pallet::compact] value: T::Balance,
        ) -> DispatchResult {
            let source = ensure_signed(origin)?;
            let dest = T::Lookup::lookup(dest)?;
            <Self as Currency<_>>::transfer(&source, &dest, value, KeepAlive)
        }
        #[pallet::call_index(7)]
        #[pallet::weight(Weight::from_parts(100, 0))]
        pub fn transfer(
            origin: OriginFor<T>,
            dest: <T::Lookup as StaticLookup>::Source,
            #[pallet::compact] value: T::Balance,
        ) -> DispatchResult {
            let source = ensure_signed(origin)?;
            let dest = T::Lookup::lookup(dest)?;
            <Self as Currency<_>>::transfer(&source, &dest, value, AllowDeath)
        }
        #[pallet::call_index(8)]
        #[pallet::weight(Weight::from_parts(100, 0))]
        pub fn force_set_balance(
            origin: OriginFor<T>,
            who: <T::Lookup as StaticLookup>::Source,
            #[pallet::compact] new_free: T::Balance,
        ) -> DispatchResult {
            ensure_root(origin)?;
            let who = T::Lookup::lookup(who)?;
            let new_free = if new_free < T::ExistentialDeposit::get() { Zero::zero() } else { new_free };
            let old = Self::mutate_account_handling_dust(&who, |a| std::mem::replace(&mut a.free, new_free))?;
            if new_free > old {
                drop(PositiveImbalance::<T>(new_free - old));
            } else if new_free < old {
                drop(NegativeImbalance::<T>(old - new_free));
            }
            Self::deposit_event(Event::BalanceSet { who, free: new_free });
            Ok(())
        }
    }
}

impl<T: Config> Pallet<T> {
    fn ed() -> T::Balance {
        T::ExistentialDeposit::get()
    }
    pub fn account(who: &T::AccountId) -> AccountData<T::Balance> {
        T::AccountStore::get(who)
    }
    pub fn free_balance(who: impl std::borrow::Borrow<T::AccountId>) -> T::Balance {
        Self::account(who.borrow()).free
    }
    pub fn reserved_balance(who: impl std::borrow::Borrow<T::AccountId>) -> T::Balance {
        Self::account(who.borrow()).reserved
    }
    pub fn usable_balance(who: impl std::borrow::Borrow<T::AccountId>) -> T::Balance {
        Self::reducible(who.borrow(), false)
    }
    fn reducible(who: &T::AccountId, preserve: bool) -> T::Balance {
        let a = Self::account(who);
        let mut untouchable = a.frozen.saturating_sub(a.reserved);
        if preserve || (!a.free.is_zero() && !frame_system::Pallet::<T>::can_dec_provider(who)) {
            untouchable = untouchable.max(Self::ed());
        }
        a.free.saturating_sub(untouchable)
    }
    fn mutate_account_handling_dust<R>(
        who: &T::AccountId,
        f: impl FnOnce(&mut AccountData<T::Balance>) -> R,
    ) -> Result<R, DispatchError> {
        Self::try_mutate_account(who, |a, _| -> Result<R, DispatchError> { Ok(f(a)) })
    }
    fn try_mutate_account<R, E: From<DispatchError>>(
        who: &T::AccountId,
        f: impl FnOnce(&mut AccountData<T::Balance>, bool) -> Result<R, E>,
    ) -> Result<R, E> {
        type Sys<T> = frame_system::Pallet<T>;
        let ed = Self::ed();
        let result = T::AccountStore::try_mutate_exists(who, |maybe| {
            let is_new = maybe.is_none();
            let mut a = maybe.take().unwrap_or_default();
            let did_provide = a.free >= ed;
            let did_consume = !is_new && (!a.reserved.is_zero() || !a.frozen.is_zero());
            let r = f(&mut a, is_new)?;
            let does_provide = a.free >= ed;
            let does_consume = !a.reserved.is_zero() || !a.frozen.is_zero();
            if !did_provide && does_provide {
                Sys::<T>::inc_providers(who);
            }
            if did_consume && !does_consume {
                Sys::<T>::dec_consumers(who);
            }
            if !did_consume && does_consume {
                Sys::<T>::inc_consumers(who)?;
            }
            if did_provide && !does_provide {
                if let Err(e) = Sys::<T>::dec_providers(who) {
                    if did_consume && !does_consume {
                        let _ = Sys::<T>::inc_consumers(who);
                    }
                    if !did_consume && does_consume {
                        Sys::<T>::dec_consumers(who);
                    }
                    return Err(e.into());
                }
            }
            let endowed = if is_new { Some(a.free) } else { None };
            let dust = if a.free < ed && a.reserved.is_zero() {
                if a.free.is_zero() {
                    None
                } else {
                    Some(a.free)
                }
            } else {
                *maybe = Some(a);
                None
            };
            Ok::<_, E>((endowed, dust, r))
        })?;
        let (endowed, dust, r) = result;
        if let Some(e) = endowed {
            Self::deposit_event(Event::Endowed { account: who.clone(), free_balance: e });
        }
        if let Some(d) = dust {
            Self::deposit_event(Event::DustLost { account: who.clone(), amount: d });
            T::DustRemoval::on_unbalanced(NegativeImbalance(d));
        }
        Ok(r)
    }
    fn update_locks(who: &T::AccountId, locks: &[BalanceLock<T::Balance>]) {
        let frozen = locks.iter().fold(T::Balance::zero(), |m, l| m.max(l.amount));
        let _ = Self::mutate_account_handling_dust(who, |a| a.frozen = frozen);
        let bounded: BoundedVec<_, T::MaxLocks> = BoundedVec::truncate_from(locks.to_vec());
        let existed = Locks::<T>::contains_key(who);
        if locks.is_empty() {
            Locks::<T>::remove(who);
            if existed {
                frame_system::Pallet::<T>::dec_consumers(who);
            }
        } else {
            Locks::<T>::insert(who, bounded);
            if !existed {
                let _ = frame_system::Pallet::<T>::inc_consumers_without_limit(who);
            }
        }
    }
    fn can_deposit(who: &T::AccountId, amount: T::Balance) -> DepositConsequence {
        if amount.is_zero() {
            return DepositConsequence::Success;
        }
        let a = Self::account(who);
        let new = match a.free.checked_add(&amount) {
            None => return DepositConsequence::Overflow,
            Some(x) => x,
        };
        if new < Self::ed() {
            return DepositConsequence::BelowMinimum;
        }
        DepositConsequence::Success
    }
    fn can_withdraw(who: &T::AccountId, amount: T::Balance) -> WithdrawConsequence<T::Balance> {
        if amount.is_zero() {
            return WithdrawConsequence::Success;
        }
        if TotalIssuance::<T>::get().checked_sub(&amount).is_none() {
            return WithdrawConsequence::Underflow;
        }
        let a = Self::account(who);
        let new_free = match a.free.checked_sub(&amount) {
            Some(x) => x,
            None => return WithdrawConsequence::BalanceLow,
        };
        if amount > Self::reducible(who, false) {
            return WithdrawConsequence::Frozen;
        }
        if new_free < Self::ed() {
            if frame_system::Pallet::<T>::can_dec_provider(who) {
                WithdrawConsequence::ReducedToZero(new_free)
            } else {
                WithdrawConsequence::WouldDie
            }
        } else {
            WithdrawConsequence::Success
        }
    }
}

macro_rules! imbalance {
    ($n:ident, $o:ident, $op:ident) => {
        pub struct $n<T: Config>(pub(crate) T::Balance);
        impl<T: Config> $n<T> {
            pub fn new(b: T::Balance) -> Self {
                Self(b)
            }
        }
        impl<T: Config> Default for $n<T> {
            fn default() -> Self {
                Self(Zero::zero())
            }
        }
        impl<T: Config> TryDrop for $n<T> {
            fn try_drop(self) -> Result<(), Self> {
                self.drop_zero()
            }
        }
        impl<T: Config> Imbalance<T::Balance> for $n<T> {
            type Opposite = $o<T>;
            fn zero() -> Self {
                Self::default()
            }
            fn drop_zero(self) -> Result<(), Self> {
                if self.0.is_zero() {
                    std::mem::forget(self);
                    Ok(())
                } else {
                    Err(self)
                }
            }
            fn split(self, amount: T::Balance) -> (Self, Self) {
                let first = self.0.min(amount);
                let second = self.0 - first;
                std::mem::forget(self);
                (Self(first), Self(second))
            }
            fn merge(mut self, other: Self) -> Self {
                self.0 = self.0.saturating_add(other.0);
                std::mem::forget(other);
                self
            }
            fn subsume(&mut self, other: Self) {
                self.0 = self.0.saturating_add(other.0);
                std::mem::forget(other);
            }
            fn offset(self, other: Self::Opposite) -> SameOrOther<Self, Self::Opposite> {
                let (a, b) = (self.0, other.0);
                std::mem::forget((self, other));
                if a > b {
                    SameOrOther::Same(Self(a - b))
                } else if b > a {
                    SameOrOther::Other($o(b - a))
                } else {
                    SameOrOther::None
                }
            }
            fn peek(&self) -> T::Balance {
                self.0
            }
        }
        impl<T: Config> Drop for $n<T> {
            fn drop(&mut self) {
                TotalIssuance::<T>::mutate(|v| *v = v.$op(self.0));
            }
        }
    };
}
imbalance!(PositiveImbalance, NegativeImbalance, saturating_add);
imbalance!(NegativeImbalance, PositiveImbalance, saturating_sub);

impl<T: Config> Currency<T::AccountId> for Pallet<T> {
    type Balance = T::Balance;
    type PositiveImbalance = PositiveImbalance<T>;
    type NegativeImbalance = NegativeImbalance<T>;
    fn total_balance(who: &T::AccountId) -> T::Balance {
        Self::account(who).total()
    }
    fn can_slash(who: &T::AccountId, value: T::Balance) -> bool {
        value.is_zero() || Self::free_balance(who) >= value
    }
    fn total_issuance() -> T::Balance {
        TotalIssuance::<T>::get()
    }
    fn minimum_balance() -> T::Balance {
        Self::ed()
    }
    fn burn(mut amount: T::Balance) -> Self::PositiveImbalance {
        TotalIssuance::<T>::mutate(|i| {
            *i = i.checked_sub(&amount).unwrap_or_else(|| {
                amount = *i;
                Zero::zero()
            });
        });
        PositiveImbalance(amount)
    }
    fn issue(mut amount: T::Balance) -> Self::NegativeImbalance {
        TotalIssuance::<T>::mutate(|i| {
            *i = i.checked_add(&amount).unwrap_or_else(|| {
                amount = T::Balance::max_value() - *i;
                Bounded::max_value()
            });
        });
        NegativeImbalance(amount)
    }
    fn free_balance(who: &T::AccountId) -> T::Balance {
        Self::account(who).free
    }
    fn ensure_can_withdraw(who: &T::AccountId, amount: T::Balance, _: WithdrawReasons, new: T::Balance) -> DispatchResult {
        if amount.is_zero() {
            return Ok(());
        }
        ensure!(new >= Self::account(who).frozen, Error::<T>::LiquidityRestrictions);
        Ok(())
    }
    fn transfer(s: &T::AccountId, d: &T::AccountId, value: T::Balance, er: ExistenceRequirement) -> DispatchResult {
        if value.is_zero() || s == d {
            return Ok(());
        }
        Self::can_withdraw(s, value).into_result(er == KeepAlive)?;
        Self::can_deposit(d, value).into_result()?;
        ensure!(Self::reducible(s, er == KeepAlive) >= value, TokenError::FundsUnavailable);
        Self::mutate_account_handling_dust(s, |a| a.free = a.free.saturating_sub(value))?;
        Self::mutate_account_handling_dust(d, |a| a.free = a.free.saturating_add(value))?;
        Self::deposit_event(Event::Transfer { from: s.clone(), to: d.clone(), amount: value });
        Ok(())
    }
    fn slash(who: &T::AccountId, value: T::Balance) -> (Self::NegativeImbalance, T::Balance) {
        if value.is_zero() || Self::total_balance(who).is_zero() {
            return (NegativeImbalance::zero(), value);
        }
        let r = Self::try_mutate_account(who, |a, _| -> Result<T::Balance, DispatchError> {
            let best = a.free.min(value);
            a.free -= best;
            Ok(best)
        });
        match r {
            Ok(n) => (NegativeImbalance(n), value - n),
            Err(_) => (NegativeImbalance::zero(), value),
        }
    }
    fn deposit_into_existing(who: &T::AccountId, value: T::Balance) -> Result<Self::PositiveImbalance, DispatchError> {
        if value.is_zero() {
            return Ok(PositiveImbalance::zero());
        }
        Self::try_mutate_account(who, |a, is_new| {
            ensure!(!is_new, Error::<T>::DeadAccount);
            a.free = a.free.checked_add(&value).ok_or(ArithmeticError::Overflow)?;
            Self::deposit_event(Event::Deposit { who: who.clone(), amount: value });
            Ok(PositiveImbalance(value))
        })
    }
    fn deposit_creating(who: &T::AccountId, value: T::Balance) -> Self::PositiveImbalance {
        if value.is_zero() {
            return PositiveImbalance::zero();
        }
        Self::try_mutate_account(who, |a, is_new| -> Result<_, DispatchError> {
            ensure!(value >= Self::ed() || !is_new, Error::<T>::ExistentialDeposit);
            a.free = match a.free.checked_add(&value) {
                Some(x) => x,
                None => return Ok(PositiveImbalance::zero()),
            };
            Self::deposit_event(Event::Deposit { who: who.clone(), amount: value });
            Ok(PositiveImbalance(value))
        })
        .unwrap_or_else(|_| PositiveImbalance::zero())
    }
    fn withdraw(
        who: &T::AccountId,
        value: T::Balance,
        reasons: WithdrawReasons,
        liveness: ExistenceRequirement,
    ) -> Result<Self::NegativeImbalance, DispatchError> {
        if value.is_zero() {
            return Ok(NegativeImbalance::zero());
        }
        Self::try_mutate_account(who, |a, _| {
            let new = a.free.checked_sub(&value).ok_or(Error::<T>::InsufficientBalance)?;
            let would_kill = new < Self::ed() && a.free >= Self::ed();
            ensure!(liveness == AllowDeath || !would_kill, Error::<T>::Expendability);
            Self::ensure_can_withdraw(who, value, reasons, new)?;
            a.free = new;
            Self::deposit_event(Event::Withdraw { who: who.clone(), amount: value });
            Ok(NegativeImbalance(value))
        })
    }
    fn make_free_balance_be(who: &T::AccountId, value: T::Balance) -> SignedImbalance<T::Balance, Self::PositiveImbalance> {
        Self::try_mutate_account(who, |a, is_new| -> Result<_, DispatchError> {
            ensure!(value >= Self::ed() || !is_new, Error::<T>::ExistentialDeposit);
            let imb = if a.free <= value {
                SignedImbalance::Positive(PositiveImbalance(value - a.free))
            } else {
                SignedImbalance::Negative(NegativeImbalance(a.free - value))
            };
            a.free = value;
            Ok(imb)
        })
        .unwrap_or_else(|_| SignedImbalance::Positive(PositiveImbalance::zero()))
    }
}
impl<T: Config> ReservableCurrency<T::AccountId> for Pallet<T> {
    fn can_reserve(who: &T::AccountId, value: T::Balance) -> bool {
        value.is_zero()
            || Self::account(who).free.checked_sub(&value).map_or(false, |new| {
                new >= Self::ed() && Self::ensure_can_withdraw(who, value, WithdrawReasons::RESERVE, new).is_ok()
            })
    }
    fn reserved_balance(who: &T::AccountId) -> T::Balance {
        Self::account(who).reserved
    }
    fn reserve(who: &T::AccountId, value: T::Balance) -> DispatchResult {
        if value.is_zero() {
            return Ok(());
        }
        Self::try_mutate_account(who, |a, _| -> DispatchResult {
            a.free = a.free.checked_sub(&value).ok_or(Error::<T>::InsufficientBalance)?;
            a.reserved = a.reserved.checked_add(&value).ok_or(ArithmeticError::Overflow)?;
            Self::ensure_can_withdraw(who, value, WithdrawReasons::RESERVE, a.free)
        })?;
        Self::deposit_event(Event::Reserved { who: who.clone(), amount: value });
        Ok(())
    }
    fn unreserve(who: &T::AccountId, value: T::Balance) -> T::Balance {
        if value.is_zero() {
            return Zero::zero();
        }
        if Self::total_balance(who).is_zero() {
            return value;
        }
        let actual = match Self::mutate_account_handling_dust(who, |a| {
            let actual = a.reserved.min(value);
            a.reserved -= actual;
            a.free = a.free.saturating_add(actual);
            actual
        }) {
            Ok(x) => x,
            Err(_) => return value,
        };
        Self::deposit_event(Event::Unreserved { who: who.clone(), amount: actual });
        value - actual
    }
    fn slash_reserved(who: &T::AccountId, value: T::Balance) -> (Self::NegativeImbalance, T::Balance) {
        if value.is_zero() || Self::total_balance(who).is_zero() {
            return (NegativeImbalance::zero(), value);
        }
        match Self::mutate_account_handling_dust(who, |a| {
            let actual = a.reserved.min(value);
            a.reserved -= actual;
            actual
        }) {
            Ok(n) => (NegativeImbalance(n), value - n),
            Err(_) => (NegativeImbalance::zero(), value),
        }
    }
    fn repatriate_reserved(
        s: &T::AccountId,
        b: &T::AccountId,
        value: T::Balance,
        status: Status,
    ) -> Result<T::Balance, DispatchError> {
        let actual = Self::account(s).reserved.min(value);
        if actual.is_zero() {
            return Ok(value);
        }
        if s == b {
            return Ok(match status {
                Status::Free => value - (actual - Self::unreserve(s, actual)),
                Status::Reserved => value - actual,
            });
        }
        ensure!(!Self::total_balance(b).is_zero(), Error::<T>::DeadAccount);
        Self::mutate_account_handling_dust(s, |a| a.reserved -= actual)?;
        Self::mutate_account_handling_dust(b, |a| match status {
            Status::Free => a.free += actual,
            Status::Reserved => a.reserved += actual,
        })?;
        Ok(value - actual)
    }
}
impl<T: Config> LockableCurrency<T::AccountId> for Pallet<T> {
    type Moment = frame_system::pallet_prelude::BlockNumberFor<T>;
    type MaxLocks = T::MaxLocks;
    fn set_lock(id: LockIdentifier, who: &T::AccountId, amount: T::Balance, reasons: WithdrawReasons) {
        if amount.is_zero() || reasons == WithdrawReasons::empty() {
            return Self::remove_lock(id, who);
        }
        let mut locks = Self::locks(who).into_inner();
        match locks.iter_mut().find(|l| l.id == id) {
            Some(l) => l.amount = amount,
            None => locks.push(BalanceLock { id, amount }),
        }
        Self::update_locks(who, &locks)
    }
    fn extend_lock(id: LockIdentifier, who: &T::AccountId, amount: T::Balance, reasons: WithdrawReasons) {
        if amount.is_zero() || reasons == WithdrawReasons::empty() {
            return;
        }
        let mut locks = Self::locks(who).into_inner();
        match locks.iter_mut().find(|l| l.id == id) {
            Some(l) => l.amount = l.amount.max(amount),
            None => locks.push(BalanceLock { id, amount }),
        }
        Self::update_locks(who, &locks)
    }
    fn remove_lock(id: LockIdentifier, who: &T::AccountId) {
        let mut locks = Self::locks(who).into_inner();
        locks.retain(|l| l.id != id);
        Self::update_locks(who, &locks)
    }
}
#[allow(unused)]
type _U<T> = PhantomData<T>;
