//! Offline stand-in for orml-tokens, with its balance rules (existential deposits, dust, locks,
//! reserves, hooks).
#![allow(clippy::all)]
extern crate self as orml_tokens;
use codec::{Decode, Encode, FullCodec, MaxEncodedLen};
use frame_support::{
    dispatch::DispatchResult,
    ensure,
    traits::{
        BalanceStatus as Status, Contains, Currency as PalletCurrency, ExistenceRequirement, Get, Imbalance,
        LockIdentifier, LockableCurrency as PalletLockableCurrency, ReservableCurrency as PalletReservableCurrency,
        SameOrOther, SignedImbalance, TryDrop, WithdrawReasons,
    },
    BoundedVec, Parameter,
};
use orml_traits::{
    currency::{MutationHooks, OnDeposit, OnDust, OnSlash, OnTransfer},
    GetByKey, Happened, MultiCurrency, MultiLockableCurrency, MultiReservableCurrency,
};
use scale_info::TypeInfo;
use sp_runtime::{
    traits::{AtLeast32BitUnsigned, CheckedAdd, CheckedSub, MaybeSerializeDeserialize, Member, Saturating, StaticLookup, Zero},
    ArithmeticError, DispatchError, FixedPointOperand,
};
use std::{collections::BTreeMap, fmt::Debug, marker::PhantomData};

pub use module::*;

#[derive(Encode, Decode, Clone, PartialEq, Eq, MaxEncodedLen, Debug, TypeInfo)]
pub struct BalanceLock<Balance> {
    pub id: LockIdentifier,
    pub amount: Balance,
}
#[derive(Encode, Decode, Clone, PartialEq, Eq, Default, MaxEncodedLen, Debug, TypeInfo)]
pub struct AccountData<Balance> {
    pub free: Balance,
    pub reserved: Balance,
    pub frozen: Balance,
}
impl<B: Saturating + Copy> AccountData<B> {
    pub fn total(&self) -> B {
        self.free.saturating_add(self.reserved)
    }
}

#[frame_support::pallet]
pub mod module {
    use super::*;
    use frame_support::pallet_prelude::*;
    use frame_system::pallet_prelude::*;

    #[pallet::config]
    pub trait Config: frame_system::Config {
        type RuntimeEvent: From<Event<Self>> + IsType<<Self as frame_system::Config>::RuntimeEvent>;
        type Balance: Parameter
            + Member
            + AtLeast32BitUnsigned
            + Default
            + Copy
            + MaybeSerializeDeserialize
            + MaxEncodedLen
            + TypeInfo
            + FixedPointOperand;
        type Amount;
        type CurrencyId: Parameter + Member + Copy + MaybeSerializeDeserialize + Ord + TypeInfo + MaxEncodedLen;
        type WeightInfo;
        type ExistentialDeposits: GetByKey<Self::CurrencyId, Self::Balance>;
        type CurrencyHooks: MutationHooks<Self::AccountId, Self::CurrencyId, Self::Balance>;
        type MaxLocks: Get<u32>;
        type MaxReserves: Get<u32>;
        type ReserveIdentifier;
        type DustRemovalWhitelist: Contains<Self::AccountId>;
    }
    #[pallet::error]
    pub enum Error<T> {
        BalanceTooLow,
        AmountIntoBalanceFailed,
        LiquidityRestrictions,
        MaxLocksExceeded,
        KeepAlive,
        ExistentialDeposit,
        DeadAccount,
        TooManyReserves,
    }
    #[pallet::event]
    #[pallet::generate_deposit(pub(crate) fn deposit_event)]
    pub enum Event<T: Config> {
        Endowed { currency_id: T::CurrencyId, who: T::AccountId, amount: T::Balance },
        DustLost { currency_id: T::CurrencyId, who: T::AccountId, amount: T::Balance },
        Transfer { currency_id: T::CurrencyId, from: T::AccountId, to: T::AccountId, amount: T::Balance },
        Reserved { currency_id: T::CurrencyId, who: T::AccountId, amount: T::Balance },
        Unreserved { currency_id: T::CurrencyId, who: T::AccountId, amount: T::Balance },
        ReserveRepatriated {
            currency_id: T::CurrencyId,
            from: T::AccountId,
            to: T::AccountId,
            amount: T::Balance,
            status: Status,
        },
        BalanceSet { currency_id: T::CurrencyId, who: T::AccountId, free: T::Balance, reserved: T::Balance },
        TotalIssuanceSet { currency_id: T::CurrencyId, amount: T::Balance },
        Withdrawn { currency_id: T::CurrencyId, who: T::AccountId, amount: T::Balance },
        Slashed { currency_id: T::CurrencyId, who: T::AccountId, free_amount: T::Balance, reserved_amount: T::Balance },
        Deposited { currency_id: T::CurrencyId, who: T::AccountId, amount: T::Balance },
        LockSet { lock_id: LockIdentifier, currency_id: T::CurrencyId, who: T::AccountId, amount: T::Balance },
        LockRemoved { lock_id: LockIdentifier, currency_id: T::CurrencyId, who: T::AccountId },
    }
    #[pallet::storage]
    #[pallet::getter(fn total_issuance)]
    pub type TotalIssuance<T: Config> = StorageMap<_, Twox64Concat, T::CurrencyId, T::Balance, ValueQuery>;
    #[pallet::storage]
    #[pallet::getter(fn locks)]
    pub type Locks<T: Config> = StorageDoubleMap<
        _,
        Blake2_128Concat,
        T::AccountId,
        Twox64Concat,
        T::CurrencyId,
        BoundedVec<BalanceLock<T::Balance>, T::MaxLocks>,
        ValueQuery,
    >;
    #[pallet::storage]
    #[pallet::getter(fn accounts)]
    pub type Accounts<T: Config> = StorageDoubleMap<
        _,
        Blake2_128Concat,
        T::AccountId,
        Twox64Concat,
        T::CurrencyId,
        AccountData<T::Balance>,
        ValueQuery,
    >;
    #[pallet::genesis_config]
    pub struct GenesisConfig<T: Config> {
        pub balances: Vec<(T::AccountId, T::CurrencyId, T::Balance)>,
    }
    impl<T: Config> Default for GenesisConfig<T> {
        fn default() -> Self {
            Self { balances: vec![] }
        }
    }
    #[pallet::genesis_build]
    impl<T: Config> BuildGenesisConfig for GenesisConfig<T> {
        fn build(&self) {
            self.balances
                .iter()
                .fold(BTreeMap::<(T::AccountId, T::CurrencyId), T::Balance>::new(), |mut acc, (a, c, b)| {
                    let x = acc.entry((a.clone(), *c)).or_default();
                    *x = x.saturating_add(*b);
                    acc
                })
                .into_iter()
                .for_each(|((a, c), b)| {
                    assert!(b >= T::ExistentialDeposits::get(&c), "the balance of any account should be above ED");
                    Pallet::<T>::mutate_account(&a, c, |d, _| d.free = b);
                    TotalIssuance::<T>::mutate(c, |t| *t = t.checked_add(&b).expect("issuance overflow"));
                });
        }
    }
    #[pallet::pallet]
    pub struct Pallet<T>(_);

    #[pallet::call]
    impl<T: Config> Pallet<T> {
        #[pallet::call_index(0)]
        #[pallet::weight(Weight::from_parts(1000, 0))]
        pub fn transfer(
            origin: OriginFor<T>,
            dest: <T::Lookup as StaticLookup>::Source,
            currency_id: T::CurrencyId,
            #[pallet::compact] amount: T::Balance,
        ) -> DispatchResult {
            let from = ensure_signed(origin)?;
            let to = T::Lookup::lookup(dest)?;
            Self::do_transfer(currency_id, &from, &to, amount, ExistenceRequirement::AllowDeath)
        }
        #[pallet::call_index(1)]
        #[pallet::weight(Weight::from_parts(1000, 0))]
        pub fn transfer_all(
            origin: OriginFor<T>,
            dest: <T::Lookup as StaticLookup>::Source,
            currency_id: T::CurrencyId,
            keep_alive: bool,
        ) -> DispatchResult {
            let from = ensure_signed(origin)?;
            let to = T::Lookup::lookup(dest)?;
            let a = Self::accounts(&from, currency_id);
            let mut r = a.free.saturating_sub(a.frozen);
            if keep_alive {
                r = r.saturating_sub(T::ExistentialDeposits::get(&currency_id));
            }
            <Self as MultiCurrency<_>>::transfer(currency_id, &from, &to, r)
        }
        #[pallet::call_index(4)]
        #[pallet::weight(Weight::from_parts(1000, 0))]
        pub fn set_balance(
            origin: OriginFor<T>,
            who: <T::Lookup as StaticLookup>::Source,
            currency_id: T::CurrencyId,
            #[pallet::compact] new_free: T::Balance,
            #[pallet::compact] new_reserved: T::Balance,
        ) -> DispatchResult {
            ensure_root(origin)?;
            let who = T::Lookup::lookup(who)?;
            Self::try_mutate_account(&who, currency_id, |account, _| -> DispatchResult {
                let mut total = new_free.checked_add(&new_reserved).ok_or(ArithmeticError::Overflow)?;
                let (mut f, mut r) = (new_free, new_reserved);
                if total < T::ExistentialDeposits::get(&currency_id) {
                    total = Zero::zero();
                    f = Zero::zero();
                    r = Zero::zero();
                }
                let old = account.total();
                account.free = f;
                account.reserved = r;
                TotalIssuance::<T>::try_mutate(currency_id, |t| -> DispatchResult {
                    *t = t
                        .checked_sub(&old)
                        .and_then(|t| t.checked_add(&total))
                        .ok_or(ArithmeticError::Overflow)?;
                    Ok(())
                })?;
                Ok(())
            })?;
            Self::deposit_event(Event::BalanceSet { currency_id, who, free: new_free, reserved: new_reserved });
            Ok(())
        }
    }
}

type Hk<T> = <T as Config>::CurrencyHooks;
macro_rules! hook {
    ($h:ident) => { <<T as Config>::CurrencyHooks as MutationHooks<T::AccountId, T::CurrencyId, T::Balance>>::$h };
}

impl<T: Config> Pallet<T> {
    pub(crate) fn try_mutate_account<R, E>(
        who: &T::AccountId,
        currency_id: T::CurrencyId,
        f: impl FnOnce(&mut AccountData<T::Balance>, bool) -> Result<R, E>,
    ) -> Result<R, E> {
        let (endowed, existed, exists, dust, r) = Accounts::<T>::try_mutate_exists(who, currency_id, |maybe| {
            let existed = maybe.is_some();
            let mut account = maybe.take().unwrap_or_default();
            f(&mut account, existed).map(|r| {
                let endowed = if !existed { Some(account.free) } else { None };
                let mut dust = None;
                let total = account.total();
                *maybe = if total < T::ExistentialDeposits::get(&currency_id) {
                    if total.is_zero() {
                        None
                    } else {
                        if !T::DustRemovalWhitelist::contains(who) {
                            dust = Some(total);
                        }
                        Some(account)
                    }
                } else {
                    Some(account)
                };
                (endowed, existed, maybe.is_some(), dust, r)
            })
        })?;
        if existed && !exists {
            let _ = frame_system::Pallet::<T>::dec_providers(who);
            <hook!(OnKilledTokenAccount)>::happened(&(who.clone(), currency_id));
        } else if !existed && exists {
            frame_system::Pallet::<T>::inc_providers(who);
            <hook!(OnNewTokenAccount)>::happened(&(who.clone(), currency_id));
        }
        if let Some(amount) = endowed {
            Self::deposit_event(Event::Endowed { currency_id, who: who.clone(), amount });
        }
        if let Some(amount) = dust {
            <hook!(OnDust)>::on_dust(who, currency_id, amount);
            Self::deposit_event(Event::DustLost { currency_id, who: who.clone(), amount });
        }
        Ok(r)
    }
    pub(crate) fn mutate_account<R>(
        who: &T::AccountId,
        c: T::CurrencyId,
        f: impl FnOnce(&mut AccountData<T::Balance>, bool) -> R,
    ) -> R {
        Self::try_mutate_account(who, c, |a, e| Ok::<R, ()>(f(a, e))).expect("infallible")
    }
    pub fn set_free_balance(c: T::CurrencyId, who: &T::AccountId, amount: T::Balance) {
        Self::mutate_account(who, c, |a, _| a.free = amount)
    }
    pub fn set_reserved_balance(c: T::CurrencyId, who: &T::AccountId, amount: T::Balance) {
        Self::mutate_account(who, c, |a, _| a.reserved = amount)
    }
    fn would_be_dead(who: &T::AccountId, c: T::CurrencyId, a: &AccountData<T::Balance>) -> bool {
        let ed = T::ExistentialDeposits::get(&c);
        if a.total() < ed {
            a.total().is_zero() || !T::DustRemovalWhitelist::contains(who)
        } else {
            false
        }
    }
    pub fn do_transfer(
        c: T::CurrencyId,
        from: &T::AccountId,
        to: &T::AccountId,
        amount: T::Balance,
        er: ExistenceRequirement,
    ) -> DispatchResult {
        if amount.is_zero() || from == to {
            return Ok(());
        }
        <hook!(PreTransfer)>::on_transfer(c, from, to, amount)?;
        Self::try_mutate_account(to, c, |to_account, _| -> DispatchResult {
            Self::try_mutate_account(from, c, |from_account, _| -> DispatchResult {
                from_account.free = from_account.free.checked_sub(&amount).ok_or(Error::<T>::BalanceTooLow)?;
                to_account.free = to_account.free.checked_add(&amount).ok_or(ArithmeticError::Overflow)?;
                let ed = T::ExistentialDeposits::get(&c);
                ensure!(
                    to_account.total() >= ed || T::DustRemovalWhitelist::contains(to),
                    Error::<T>::ExistentialDeposit
                );
                Self::ensure_can_withdraw(c, from, amount)?;
                let allow_death =
                    er == ExistenceRequirement::AllowDeath && frame_system::Pallet::<T>::can_dec_provider(from);
                ensure!(allow_death || !Self::would_be_dead(from, c, from_account), Error::<T>::KeepAlive);
                Ok(())
            })
        })?;
        <hook!(PostTransfer)>::on_transfer(c, from, to, amount)?;
        Self::deposit_event(Event::Transfer { currency_id: c, from: from.clone(), to: to.clone(), amount });
        Ok(())
    }
    pub fn do_withdraw(
        c: T::CurrencyId,
        who: &T::AccountId,
        amount: T::Balance,
        er: ExistenceRequirement,
        change_total_issuance: bool,
    ) -> DispatchResult {
        if amount.is_zero() {
            return Ok(());
        }
        Self::ensure_can_withdraw(c, who, amount)?;
        Self::try_mutate_account(who, c, |account, _| -> DispatchResult {
            account.free = account.free.saturating_sub(amount);
            let allow_death =
                er == ExistenceRequirement::AllowDeath && frame_system::Pallet::<T>::can_dec_provider(who);
            ensure!(allow_death || !Self::would_be_dead(who, c, account), Error::<T>::KeepAlive);
            if change_total_issuance {
                TotalIssuance::<T>::mutate(c, |v| *v = v.saturating_sub(amount));
            }
            Ok(())
        })?;
        Self::deposit_event(Event::Withdrawn { currency_id: c, who: who.clone(), amount });
        Ok(())
    }
    pub fn do_deposit(
        c: T::CurrencyId,
        who: &T::AccountId,
        amount: T::Balance,
        require_existed: bool,
        change_total_issuance: bool,
    ) -> Result<T::Balance, DispatchError> {
        if amount.is_zero() {
            return Ok(amount);
        }
        <hook!(PreDeposit)>::on_deposit(c, who, amount)?;
        Self::try_mutate_account(who, c, |account, existed| -> DispatchResult {
            if require_existed {
                ensure!(existed, Error::<T>::DeadAccount);
            } else {
                ensure!(amount >= T::ExistentialDeposits::get(&c) || existed, Error::<T>::ExistentialDeposit);
            }
            let n = Self::total_issuance(c).checked_add(&amount).ok_or(ArithmeticError::Overflow)?;
            if change_total_issuance {
                TotalIssuance::<T>::insert(c, n);
            }
            account.free = account.free.saturating_add(amount);
            Ok(())
        })?;
        <hook!(PostDeposit)>::on_deposit(c, who, amount)?;
        Self::deposit_event(Event::Deposited { currency_id: c, who: who.clone(), amount });
        Ok(amount)
    }
    fn update_locks(c: T::CurrencyId, who: &T::AccountId, locks: &[BalanceLock<T::Balance>]) -> DispatchResult {
        let old = Self::locks(who, c).len();
        let mut frozen = T::Balance::zero();
        for l in locks {
            frozen = frozen.max(l.amount);
        }
        Self::mutate_account(who, c, |a, _| a.frozen = frozen);
        if locks.is_empty() {
            Locks::<T>::remove(who, c);
            if old > 0 {
                frame_system::Pallet::<T>::dec_consumers(who);
            }
        } else {
            let b: BoundedVec<_, T::MaxLocks> =
                locks.to_vec().try_into().map_err(|_| Error::<T>::MaxLocksExceeded)?;
            Locks::<T>::insert(who, c, b);
            if old == 0 {
                let _ = frame_system::Pallet::<T>::inc_consumers(who);
            }
        }
        Ok(())
    }
}

impl<T: Config> MultiCurrency<T::AccountId> for Pallet<T> {
    type CurrencyId = T::CurrencyId;
    type Balance = T::Balance;
    fn minimum_balance(c: T::CurrencyId) -> T::Balance {
        T::ExistentialDeposits::get(&c)
    }
    fn total_issuance(c: T::CurrencyId) -> T::Balance {
        TotalIssuance::<T>::get(c)
    }
    fn total_balance(c: T::CurrencyId, who: &T::AccountId) -> T::Balance {
        Self::accounts(who, c).total()
    }
    fn free_balance(c: T::CurrencyId, who: &T::AccountId) -> T::Balance {
        Self::accounts(who, c).free
    }
    fn ensure_can_withdraw(c: T::CurrencyId, who: &T::AccountId, amount: T::Balance) -> DispatchResult {
        if amount.is_zero() {
            return Ok(());
        }
        let n = Self::free_balance(c, who).checked_sub(&amount).ok_or(Error::<T>::BalanceTooLow)?;
        ensure!(n >= Self::accounts(who, c).frozen, Error::<T>::LiquidityRestrictions);
        Ok(())
    }
    fn transfer(c: T::CurrencyId, from: &T::AccountId, to: &T::AccountId, amount: T::Balance) -> DispatchResult {
        Self::do_transfer(c, from, to, amount, ExistenceRequirement::AllowDeath)
    }
    fn deposit(c: T::CurrencyId, who: &T::AccountId, amount: T::Balance) -> DispatchResult {
        Self::do_deposit(c, who, amount, false, true)?;
        Ok(())
    }
    fn withdraw(c: T::CurrencyId, who: &T::AccountId, amount: T::Balance) -> DispatchResult {
        Self::do_withdraw(c, who, amount, ExistenceRequirement::AllowDeath, true)
    }
    fn can_slash(c: T::CurrencyId, who: &T::AccountId, value: T::Balance) -> bool {
        value.is_zero() || Self::free_balance(c, who) >= value
    }
    fn slash(c: T::CurrencyId, who: &T::AccountId, amount: T::Balance) -> T::Balance {
        if amount.is_zero() {
            return amount;
        }
        <hook!(OnSlash)>::on_slash(c, who, amount);
        let a = Self::accounts(who, c);
        let fs = a.free.min(amount);
        let mut rem = amount - fs;
        if !fs.is_zero() {
            Self::set_free_balance(c, who, a.free - fs);
        }
        if !rem.is_zero() {
            let rs = a.reserved.min(rem);
            rem = rem - rs;
            Self::set_reserved_balance(c, who, a.reserved - rs);
        }
        TotalIssuance::<T>::mutate(c, |v| *v = v.saturating_sub(amount - rem));
        Self::deposit_event(Event::Slashed {
            currency_id: c,
            who: who.clone(),
            free_amount: fs,
            reserved_amount: amount - fs - rem,
        });
        rem
    }
}
impl<T: Config> MultiReservableCurrency<T::AccountId> for Pallet<T> {
    fn can_reserve(c: T::CurrencyId, who: &T::AccountId, value: T::Balance) -> bool {
        value.is_zero() || Self::ensure_can_withdraw(c, who, value).is_ok()
    }
    fn slash_reserved(c: T::CurrencyId, who: &T::AccountId, value: T::Balance) -> T::Balance {
        if value.is_zero() {
            return value;
        }
        <hook!(OnSlash)>::on_slash(c, who, value);
        let r = Self::reserved_balance(c, who);
        let actual = r.min(value);
        Self::mutate_account(who, c, |a, _| a.reserved = r - actual);
        TotalIssuance::<T>::mutate(c, |v| *v = v.saturating_sub(actual));
        Self::deposit_event(Event::Slashed {
            currency_id: c,
            who: who.clone(),
            free_amount: Zero::zero(),
            reserved_amount: actual,
        });
        value - actual
    }
    fn reserved_balance(c: T::CurrencyId, who: &T::AccountId) -> T::Balance {
        Self::accounts(who, c).reserved
    }
    fn reserve(c: T::CurrencyId, who: &T::AccountId, value: T::Balance) -> DispatchResult {
        if value.is_zero() {
            return Ok(());
        }
        Self::ensure_can_withdraw(c, who, value)?;
        Self::mutate_account(who, c, |a, _| {
            a.free = a.free.saturating_sub(value);
            a.reserved = a.reserved.saturating_add(value);
            Self::deposit_event(Event::Reserved { currency_id: c, who: who.clone(), amount: value });
        });
        Ok(())
    }
    fn unreserve(c: T::CurrencyId, who: &T::AccountId, value: T::Balance) -> T::Balance {
        if value.is_zero() {
            return value;
        }
        Self::mutate_account(who, c, |a, _| {
            let actual = a.reserved.min(value);
            a.reserved = a.reserved - actual;
            a.free = a.free.saturating_add(actual);
            Self::deposit_event(Event::Unreserved { currency_id: c, who: who.clone(), amount: actual });
            value - actual
        })
    }
    fn repatriate_reserved(
        c: T::CurrencyId,
        slashed: &T::AccountId,
        beneficiary: &T::AccountId,
        value: T::Balance,
        status: Status,
    ) -> Result<T::Balance, DispatchError> {
        if value.is_zero() {
            return Ok(value);
        }
        if slashed == beneficiary {
            return match status {
                Status::Free => Ok(Self::unreserve(c, slashed, value)),
                Status::Reserved => Ok(value.saturating_sub(Self::reserved_balance(c, slashed))),
            };
        }
        let f = Self::accounts(slashed, c);
        let t = Self::accounts(beneficiary, c);
        let actual = f.reserved.min(value);
        match status {
            Status::Free => Self::set_free_balance(c, beneficiary, t.free.saturating_add(actual)),
            Status::Reserved => Self::set_reserved_balance(c, beneficiary, t.reserved.saturating_add(actual)),
        }
        Self::set_reserved_balance(c, slashed, f.reserved - actual);
        Self::deposit_event(Event::ReserveRepatriated {
            currency_id: c,
            from: slashed.clone(),
            to: beneficiary.clone(),
            amount: actual,
            status,
        });
        Ok(value - actual)
    }
}
impl<T: Config> MultiLockableCurrency<T::AccountId> for Pallet<T> {
    type Moment = frame_system::pallet_prelude::BlockNumberFor<T>;
    fn set_lock(id: LockIdentifier, c: T::CurrencyId, who: &T::AccountId, amount: T::Balance) -> DispatchResult {
        if amount.is_zero() {
            return Self::remove_lock(id, c, who);
        }
        let mut new = Some(BalanceLock { id, amount });
        let mut locks: Vec<_> = Self::locks(who, c)
            .into_iter()
            .filter_map(|l| if l.id == id { new.take() } else { Some(l) })
            .collect();
        if let Some(l) = new {
            locks.push(l)
        }
        Self::update_locks(c, who, &locks)
    }
    fn extend_lock(id: LockIdentifier, c: T::CurrencyId, who: &T::AccountId, amount: T::Balance) -> DispatchResult {
        if amount.is_zero() {
            return Ok(());
        }
        let mut new = Some(BalanceLock { id, amount });
        let mut locks: Vec<_> = Self::locks(who, c)
            .into_iter()
            .filter_map(|l| {
                if l.id == id {
                    new.take().map(|n| BalanceLock { id, amount: l.amount.max(n.amount) })
                } else {
                    Some(l)
                }
            })
            .collect();
        if let Some(l) = new {
            locks.push(l)
        }
        Self::update_locks(c, who, &locks)
    }
    fn remove_lock(id: LockIdentifier, c: T::CurrencyId, who: &T::AccountId) -> DispatchResult {
        let mut locks = Self::locks(who, c).into_inner();
        locks.retain(|l| l.id != id);
        Self::update_locks(c, who, &locks)
    }
}

// ---- imbalances and the single-currency view

macro_rules! imbalance {
    ($n:ident, $o:ident, $op:ident) => {
        pub struct $n<T: Config, G: Get<T::CurrencyId>>(pub(crate) T::Balance, PhantomData<G>);
        impl<T: Config, G: Get<T::CurrencyId>> $n<T, G> {
            pub fn new(b: T::Balance) -> Self {
                Self(b, PhantomData)
            }
        }
        impl<T: Config, G: Get<T::CurrencyId>> Default for $n<T, G> {
            fn default() -> Self {
                Self::new(Zero::zero())
            }
        }
        impl<T: Config, G: Get<T::CurrencyId>> TryDrop for $n<T, G> {
            fn try_drop(self) -> Result<(), Self> {
                self.drop_zero()
            }
        }
        impl<T: Config, G: Get<T::CurrencyId>> Imbalance<T::Balance> for $n<T, G> {
            type Opposite = $o<T, G>;
            fn zero() -> Self {
                Self::default()
            }
            fn drop_zero(self) -> Result<(), Self> {
                if self.0.is_zero() {
                    std::mem::forget(self);
                    Ok(())
                } else {
                    Err(self)
                }
            }
            fn split(self, amount: T::Balance) -> (Self, Self) {
                let first = self.0.min(amount);
                let second = self.0 - first;
                std::mem::forget(self);
                (Self::new(first), Self::new(second))
            }
            fn merge(mut self, other: Self) -> Self {
                self.0 = self.0.saturating_add(other.0);
                std::mem::forget(other);
                self
            }
            fn subsume(&mut self, other: Self) {
                self.0 = self.0.saturating_add(other.0);
                std::mem::forget(other);
            }
            fn offset(self, other: Self::Opposite) -> SameOrOther<Self, Self::Opposite> {
                let (a, b) = (self.0, other.0);
                std::mem::forget((self, other));
                if a > b {
                    SameOrOther::Same(Self::new(a - b))
                } else if b > a {
                    SameOrOther::Other($o::new(b - a))
                } else {
                    SameOrOther::None
                }
            }
            fn peek(&self) -> T::Balance {
                self.0
            }
        }
        impl<T: Config, G: Get<T::CurrencyId>> Drop for $n<T, G> {
            fn drop(&mut self) {
                TotalIssuance::<T>::mutate(G::get(), |v| *v = v.$op(self.0));
            }
        }
    };
}
imbalance!(PositiveImbalance, NegativeImbalance, saturating_add);
imbalance!(NegativeImbalance, PositiveImbalance, saturating_sub);

pub struct CurrencyAdapter<T, GetCurrencyId>(PhantomData<(T, GetCurrencyId)>);
impl<T: Config, G: Get<T::CurrencyId>> PalletCurrency<T::AccountId> for CurrencyAdapter<T, G> {
    type Balance = T::Balance;
    type PositiveImbalance = PositiveImbalance<T, G>;
    type NegativeImbalance = NegativeImbalance<T, G>;
    fn total_balance(who: &T::AccountId) -> T::Balance {
        <Pallet<T> as MultiCurrency<_>>::total_balance(G::get(), who)
    }
    fn can_slash(who: &T::AccountId, value: T::Balance) -> bool {
        <Pallet<T> as MultiCurrency<_>>::can_slash(G::get(), who, value)
    }
    fn total_issuance() -> T::Balance {
        TotalIssuance::<T>::get(G::get())
    }
    fn minimum_balance() -> T::Balance {
        T::ExistentialDeposits::get(&G::get())
    }
    fn burn(mut amount: T::Balance) -> Self::PositiveImbalance {
        TotalIssuance::<T>::mutate(G::get(), |i| {
            *i = i.checked_sub(&amount).unwrap_or_else(|| {
                amount = *i;
                Zero::zero()
            });
        });
        PositiveImbalance::new(amount)
    }
    fn issue(mut amount: T::Balance) -> Self::NegativeImbalance {
        TotalIssuance::<T>::mutate(G::get(), |i| {
            *i = i.checked_add(&amount).unwrap_or_else(|| {
                amount = sp_runtime::traits::Bounded::max_value();
                amount = amount - *i;
                sp_runtime::traits::Bounded::max_value()
            });
        });
        NegativeImbalance::new(amount)
    }
    fn free_balance(who: &T::AccountId) -> T::Balance {
        <Pallet<T> as MultiCurrency<_>>::free_balance(G::get(), who)
    }
    fn ensure_can_withdraw(
        who: &T::AccountId,
        amount: T::Balance,
        _: WithdrawReasons,
        _: T::Balance,
    ) -> DispatchResult {
        <Pallet<T> as MultiCurrency<_>>::ensure_can_withdraw(G::get(), who, amount)
    }
    fn transfer(s: &T::AccountId, d: &T::AccountId, value: T::Balance, er: ExistenceRequirement) -> DispatchResult {
        Pallet::<T>::do_transfer(G::get(), s, d, value, er)
    }
    fn slash(who: &T::AccountId, value: T::Balance) -> (Self::NegativeImbalance, T::Balance) {
        if value.is_zero() {
            return (NegativeImbalance::zero(), value);
        }
        let c = G::get();
        <hook!(OnSlash)>::on_slash(c, who, value);
        let a = Pallet::<T>::accounts(who, c);
        let fs = a.free.min(value);
        let rem = value - fs;
        if !fs.is_zero() {
            Pallet::<T>::set_free_balance(c, who, a.free - fs);
        }
        if !rem.is_zero() {
            let rs = a.reserved.min(rem);
            Pallet::<T>::set_reserved_balance(c, who, a.reserved - rs);
            (NegativeImbalance::new(fs.saturating_add(rs)), rem - rs)
        } else {
            (NegativeImbalance::new(value), rem)
        }
    }
    fn deposit_into_existing(who: &T::AccountId, value: T::Balance) -> Result<Self::PositiveImbalance, DispatchError> {
        Pallet::<T>::do_deposit(G::get(), who, value, true, false).map(PositiveImbalance::new)
    }
    fn deposit_creating(who: &T::AccountId, value: T::Balance) -> Self::PositiveImbalance {
        match Pallet::<T>::do_deposit(G::get(), who, value, false, false) {
            Ok(v) => PositiveImbalance::new(v),
            Err(_) => Self::PositiveImbalance::zero(),
        }
    }
    fn withdraw(
        who: &T::AccountId,
        value: T::Balance,
        _: WithdrawReasons,
        liveness: ExistenceRequirement,
    ) -> Result<Self::NegativeImbalance, DispatchError> {
        Pallet::<T>::do_withdraw(G::get(), who, value, liveness, false).map(|_| NegativeImbalance::new(value))
    }
    fn make_free_balance_be(
        who: &T::AccountId,
        value: T::Balance,
    ) -> SignedImbalance<T::Balance, Self::PositiveImbalance> {
        let c = G::get();
        Pallet::<T>::try_mutate_account(who, c, |account, existed| -> Result<_, ()> {
            let ed = T::ExistentialDeposits::get(&c);
            if !existed && value < ed {
                return Err(());
            }
            let imb = if account.free <= value {
                SignedImbalance::Positive(PositiveImbalance::new(value - account.free))
            } else {
                SignedImbalance::Negative(NegativeImbalance::new(account.free - value))
            };
            account.free = value;
            Ok(imb)
        })
        .unwrap_or_else(|_| SignedImbalance::Positive(Self::PositiveImbalance::zero()))
    }
}
impl<T: Config, G: Get<T::CurrencyId>> PalletReservableCurrency<T::AccountId> for CurrencyAdapter<T, G> {
    fn can_reserve(who: &T::AccountId, value: T::Balance) -> bool {
        <Pallet<T> as MultiReservableCurrency<_>>::can_reserve(G::get(), who, value)
    }
    fn slash_reserved(who: &T::AccountId, value: T::Balance) -> (Self::NegativeImbalance, T::Balance) {
        let c = G::get();
        let r = Pallet::<T>::accounts(who, c).reserved;
        let actual = r.min(value);
        Pallet::<T>::set_reserved_balance(c, who, r - actual);
        (NegativeImbalance::new(actual), value - actual)
    }
    fn reserved_balance(who: &T::AccountId) -> T::Balance {
        <Pallet<T> as MultiReservableCurrency<_>>::reserved_balance(G::get(), who)
    }
    fn reserve(who: &T::AccountId, value: T::Balance) -> DispatchResult {
        <Pallet<T> as MultiReservableCurrency<_>>::reserve(G::get(), who, value)
    }
    fn unreserve(who: &T::AccountId, value: T::Balance) -> T::Balance {
        <Pallet<T> as MultiReservableCurrency<_>>::unreserve(G::get(), who, value)
    }
    fn repatriate_reserved(
        s: &T::AccountId,
        b: &T::AccountId,
        value: T::Balance,
        status: Status,
    ) -> Result<T::Balance, DispatchError> {
        <Pallet<T> as MultiReservableCurrency<_>>::repatriate_reserved(G::get(), s, b, value, status)
    }
}
impl<T: Config, G: Get<T::CurrencyId>> PalletLockableCurrency<T::AccountId> for CurrencyAdapter<T, G> {
    type Moment = frame_system::pallet_prelude::BlockNumberFor<T>;
    type MaxLocks = T::MaxLocks;
    fn set_lock(id: LockIdentifier, who: &T::AccountId, amount: T::Balance, _: WithdrawReasons) {
        let _ = <Pallet<T> as MultiLockableCurrency<_>>::set_lock(id, G::get(), who, amount);
    }
    fn extend_lock(id: LockIdentifier, who: &T::AccountId, amount: T::Balance, _: WithdrawReasons) {
        let _ = <Pallet<T> as MultiLockableCurrency<_>>::extend_lock(id, G::get(), who, amount);
    }
    fn remove_lock(id: LockIdentifier, who: &T::AccountId) {
        let _ = <Pallet<T> as MultiLockableCurrency<_>>::remove_lock(id, G::get(), who);
    }
}

#[allow(unused)]
type _Unused<T> = (Hk<T>, PhantomData<T>);
#[allow(unused)]
fn _u<T: FullCodec + Debug>() {}

impl<T: Config> frame_support::traits::tokens::fungibles::Inspect<T::AccountId> for Pallet<T> {
    type AssetId = T::CurrencyId;
    type Balance = T::Balance;
    fn total_issuance(asset: T::CurrencyId) -> T::Balance {
        TotalIssuance::<T>::get(asset)
    }
    fn minimum_balance(asset: T::CurrencyId) -> T::Balance {
        T::ExistentialDeposits::get(&asset)
    }
    fn total_balance(asset: T::CurrencyId, who: &T::AccountId) -> T::Balance {
        Self::accounts(who, asset).total()
    }
    fn balance(asset: T::CurrencyId, who: &T::AccountId) -> T::Balance {
        Self::accounts(who, asset).free
    }
    fn reducible_balance(
        asset: T::CurrencyId,
        who: &T::AccountId,
        preservation: frame_support::traits::tokens::Preservation,
        _force: frame_support::traits::tokens::Fortitude,
    ) -> T::Balance {
        let a = Self::accounts(who, asset);
        let liquid = a.free.saturating_sub(a.frozen);
        if frame_system::Pallet::<T>::can_dec_provider(who)
            && preservation != frame_support::traits::tokens::Preservation::Protect
        {
            liquid
        } else {
            let keep = T::ExistentialDeposits::get(&asset).saturating_sub(a.total() - liquid);
            liquid.saturating_sub(keep)
        }
    }
    fn can_deposit(
        asset: T::CurrencyId,
        who: &T::AccountId,
        amount: T::Balance,
        _: frame_support::traits::tokens::Provenance,
    ) -> frame_support::traits::tokens::DepositConsequence {
        use frame_support::traits::tokens::DepositConsequence::*;
        if amount.is_zero() {
            return Success;
        }
        if TotalIssuance::<T>::get(asset).checked_add(&amount).is_none() {
            return Overflow;
        }
        match Self::accounts(who, asset).total().checked_add(&amount) {
            None => Overflow,
            Some(n) if n < T::ExistentialDeposits::get(&asset) => BelowMinimum,
            Some(_) => Success,
        }
    }
    fn can_withdraw(
        asset: T::CurrencyId,
        who: &T::AccountId,
        amount: T::Balance,
    ) -> frame_support::traits::tokens::WithdrawConsequence<T::Balance> {
        use frame_support::traits::tokens::WithdrawConsequence::*;
        if amount.is_zero() {
            return Success;
        }
        let a = Self::accounts(who, asset);
        match a.free.checked_sub(&amount) {
            None => BalanceLow,
            Some(f) if f < a.frozen => Frozen,
            Some(_) => Success,
        }
    }
    fn asset_exists(asset: T::CurrencyId) -> bool {
        TotalIssuance::<T>::contains_key(asset)
    }
}

/// Sends dust to an account.
pub struct TransferDust<T, GetAccountId>(PhantomData<(T, GetAccountId)>);
impl<T: Config, G: Get<T::AccountId>> OnDust<T::AccountId, T::CurrencyId, T::Balance> for TransferDust<T, G> {
    fn on_dust(who: &T::AccountId, currency_id: T::CurrencyId, amount: T::Balance) {
        let _ = <Pallet<T> as MultiCurrency<T::AccountId>>::transfer(currency_id, who, &G::get(), amount);
    }
}

impl<T: Config, G: Get<T::CurrencyId>> frame_support::traits::tokens::fungible::Inspect<T::AccountId> for CurrencyAdapter<T, G> {
    type Balance = T::Balance;
    fn total_issuance() -> T::Balance {
        TotalIssuance::<T>::get(G::get())
    }
    fn minimum_balance() -> T::Balance {
        T::ExistentialDeposits::get(&G::get())
    }
    fn total_balance(who: &T::AccountId) -> T::Balance {
        Pallet::<T>::accounts(who, G::get()).total()
    }
    fn balance(who: &T::AccountId) -> T::Balance {
        Pallet::<T>::accounts(who, G::get()).free
    }
    fn reducible_balance(
        who: &T::AccountId,
        preservation: frame_support::traits::tokens::Preservation,
        force: frame_support::traits::tokens::Fortitude,
    ) -> T::Balance {
        <Pallet<T> as frame_support::traits::tokens::fungibles::Inspect<_>>::reducible_balance(G::get(), who, preservation, force)
    }
    fn can_deposit(
        who: &T::AccountId,
        amount: T::Balance,
        provenance: frame_support::traits::tokens::Provenance,
    ) -> frame_support::traits::tokens::DepositConsequence {
        <Pallet<T> as frame_support::traits::tokens::fungibles::Inspect<_>>::can_deposit(G::get(), who, amount, provenance)
    }
    fn can_withdraw(who: &T::AccountId, amount: T::Balance) -> frame_support::traits::tokens::WithdrawConsequence<T::Balance> {
        <Pallet<T> as frame_support::traits::tokens::fungibles::Inspect<_>>::can_withdraw(G::get(), who, amount)
    }
}
