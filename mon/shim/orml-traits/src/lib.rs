//! Offline stand-in for orml-traits.
use codec::{Codec, FullCodec, MaxEncodedLen};
pub use frame_support::traits::BalanceStatus;
use frame_support::{dispatch::DispatchResult, traits::LockIdentifier};
use scale_info::TypeInfo;
use sp_runtime::{
    traits::{AtLeast32BitUnsigned, MaybeSerializeDeserialize},
    DispatchError,
};
use std::fmt::Debug;

pub use currency::*;
pub mod currency {
    pub use super::*;
    pub trait MultiCurrency<AccountId> {
        type CurrencyId: FullCodec + Eq + PartialEq + Copy + MaybeSerializeDeserialize + Debug + TypeInfo + MaxEncodedLen;
        type Balance: AtLeast32BitUnsigned
            + FullCodec
            + Copy
            + MaybeSerializeDeserialize
            + Debug
            + Default
            + TypeInfo
            + MaxEncodedLen;
        fn minimum_balance(currency_id: Self::CurrencyId) -> Self::Balance;
        fn total_issuance(currency_id: Self::CurrencyId) -> Self::Balance;
        fn total_balance(currency_id: Self::CurrencyId, who: &AccountId) -> Self::Balance;
        fn free_balance(currency_id: Self::CurrencyId, who: &AccountId) -> Self::Balance;
        fn ensure_can_withdraw(currency_id: Self::CurrencyId, who: &AccountId, amount: Self::Balance) -> DispatchResult;
        fn transfer(
            currency_id: Self::CurrencyId,
            from: &AccountId,
            to: &AccountId,
            amount: Self::Balance,
        ) -> DispatchResult;
        fn deposit(currency_id: Self::CurrencyId, who: &AccountId, amount: Self::Balance) -> DispatchResult;
        fn withdraw(currency_id: Self::CurrencyId, who: &AccountId, amount: Self::Balance) -> DispatchResult;
        fn can_slash(currency_id: Self::CurrencyId, who: &AccountId, value: Self::Balance) -> bool;
        fn slash(currency_id: Self::CurrencyId, who: &AccountId, amount: Self::Balance) -> Self::Balance;
    }
    pub trait MultiReservableCurrency<AccountId>: MultiCurrency<AccountId> {
        fn can_reserve(currency_id: Self::CurrencyId, who: &AccountId, value: Self::Balance) -> bool;
        fn slash_reserved(currency_id: Self::CurrencyId, who: &AccountId, value: Self::Balance) -> Self::Balance;
        fn reserved_balance(currency_id: Self::CurrencyId, who: &AccountId) -> Self::Balance;
        fn reserve(currency_id: Self::CurrencyId, who: &AccountId, value: Self::Balance) -> DispatchResult;
        fn unreserve(currency_id: Self::CurrencyId, who: &AccountId, value: Self::Balance) -> Self::Balance;
        fn repatriate_reserved(
            currency_id: Self::CurrencyId,
            slashed: &AccountId,
            beneficiary: &AccountId,
            value: Self::Balance,
            status: BalanceStatus,
        ) -> Result<Self::Balance, DispatchError>;
    }
    pub trait MultiLockableCurrency<AccountId>: MultiCurrency<AccountId> {
        type Moment;
        fn set_lock(id: LockIdentifier, c: Self::CurrencyId, who: &AccountId, amount: Self::Balance) -> DispatchResult;
        fn extend_lock(id: LockIdentifier, c: Self::CurrencyId, who: &AccountId, amount: Self::Balance) -> DispatchResult;
        fn remove_lock(id: LockIdentifier, c: Self::CurrencyId, who: &AccountId) -> DispatchResult;
    }

    pub trait OnDust<AccountId, CurrencyId, Balance> {
        fn on_dust(who: &AccountId, currency_id: CurrencyId, amount: Balance);
    }
    impl<A, C, B> OnDust<A, C, B> for () {
        fn on_dust(_: &A, _: C, _: B) {}
    }
    pub trait OnSlash<AccountId, CurrencyId, Balance> {
        fn on_slash(currency_id: CurrencyId, who: &AccountId, amount: Balance);
    }
    impl<A, C, B> OnSlash<A, C, B> for () {
        fn on_slash(_: C, _: &A, _: B) {}
    }
    pub trait OnDeposit<AccountId, CurrencyId, Balance> {
        fn on_deposit(currency_id: CurrencyId, who: &AccountId, amount: Balance) -> DispatchResult;
    }
    impl<A, C, B> OnDeposit<A, C, B> for () {
        fn on_deposit(_: C, _: &A, _: B) -> DispatchResult {
            Ok(())
        }
    }
    pub trait OnTransfer<AccountId, CurrencyId, Balance> {
        fn on_transfer(currency_id: CurrencyId, from: &AccountId, to: &AccountId, amount: Balance) -> DispatchResult;
    }
    impl<A, C, B> OnTransfer<A, C, B> for () {
        fn on_transfer(_: C, _: &A, _: &A, _: B) -> DispatchResult {
            Ok(())
        }
    }
    pub trait MutationHooks<AccountId, CurrencyId, Balance> {
        type OnDust: OnDust<AccountId, CurrencyId, Balance>;
        type OnSlash: OnSlash<AccountId, CurrencyId, Balance>;
        type PreDeposit: OnDeposit<AccountId, CurrencyId, Balance>;
        type PostDeposit: OnDeposit<AccountId, CurrencyId, Balance>;
        type PreTransfer: OnTransfer<AccountId, CurrencyId, Balance>;
        type PostTransfer: OnTransfer<AccountId, CurrencyId, Balance>;
        type OnNewTokenAccount: Happened<(AccountId, CurrencyId)>;
        type OnKilledTokenAccount: Happened<(AccountId, CurrencyId)>;
    }
    impl<A, C, B> MutationHooks<A, C, B> for () {
        type OnDust = ();
        type OnSlash = ();
        type PreDeposit = ();
        type PostDeposit = ();
        type PreTransfer = ();
        type PostTransfer = ();
        type OnNewTokenAccount = ();
        type OnKilledTokenAccount = ();
    }
}

pub trait Happened<T> {
    fn happened(t: &T);
}
impl<T> Happened<T> for () {
    fn happened(_: &T) {}
}
pub mod get_by_key {
    pub use super::GetByKey;
}
pub trait GetByKey<Key, Value> {
    fn get(k: &Key) -> Value;
}
impl<K, V: Default> GetByKey<K, V> for () {
    fn get(_: &K) -> V {
        V::default()
    }
}

#[macro_export]
macro_rules! parameter_type_with_key {
    (
        pub $name:ident: |$k:ident: $key:ty| -> $value:ty $body:block;
    ) => {
        pub struct $name;
        impl $crate::GetByKey<$key, $value> for $name {
            fn get($k: &$key) -> $value { $body }
        }
        impl $name {
            #[allow(dead_code)]
            pub fn get($k: &$key) -> $value { $body }
        }
    };
}
#[allow(unused)]
fn _unused<T: Codec>() {}
