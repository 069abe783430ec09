use codec::{Decode, Encode, MaxEncodedLen};
use scale_info::TypeInfo;
use sp_runtime::{ArithmeticError, DispatchError, TokenError};
use std::ops::BitOr;

#[derive(Copy, Clone, Eq, PartialEq, Debug, Encode, Decode, TypeInfo, MaxEncodedLen)]
pub enum BalanceStatus {
    Free,
    Reserved,
}
#[derive(Copy, Clone, Eq, PartialEq, Debug)]
pub enum ExistenceRequirement {
    KeepAlive,
    AllowDeath,
}
#[derive(Copy, Clone, Eq, PartialEq, Debug)]
pub enum Preservation {
    Expendable,
    Protect,
    Preserve,
}
#[derive(Copy, Clone, Eq, PartialEq, Debug)]
pub enum Fortitude {
    Polite,
    Force,
}
#[derive(Copy, Clone, Eq, PartialEq, Debug)]
pub enum Precision {
    Exact,
    BestEffort,
}
#[derive(Copy, Clone, Eq, PartialEq, Debug)]
pub enum Provenance {
    Minted,
    Extant,
}
pub type AssetId = u32;

#[derive(Copy, Clone, Eq, PartialEq, Debug, Encode, Decode, MaxEncodedLen, TypeInfo)]
pub struct WithdrawReasons(i8);
#[allow(non_upper_case_globals)]
impl WithdrawReasons {
    pub const TRANSACTION_PAYMENT: Self = Self(0b1);
    pub const TRANSFER: Self = Self(0b10);
    pub const RESERVE: Self = Self(0b100);
    pub const FEE: Self = Self(0b1000);
    pub const TIP: Self = Self(0b10000);
    pub const fn all() -> Self {
        Self(0b11111)
    }
    pub const fn empty() -> Self {
        Self(0)
    }
    pub fn except(one: Self) -> Self {
        Self(Self::all().0 & !one.0)
    }
    pub fn intersects(self, o: Self) -> bool {
        self.0 & o.0 != 0
    }
    pub fn contains(self, o: Self) -> bool {
        self.0 & o.0 == o.0
    }
}
impl BitOr for WithdrawReasons {
    type Output = Self;
    fn bitor(self, o: Self) -> Self {
        Self(self.0 | o.0)
    }
}

#[derive(Debug, PartialEq, Eq, Clone, Copy)]
pub enum WithdrawConsequence<Balance> {
    BalanceLow,
    WouldDie,
    UnknownAsset,
    Underflow,
    Overflow,
    Frozen,
    ReducedToZero(Balance),
    Success,
}
impl<B: Default> WithdrawConsequence<B> {
    pub fn into_result(self, keep_nonzero: bool) -> Result<B, DispatchError> {
        use WithdrawConsequence::*;
        match self {
            BalanceLow => Err(TokenError::FundsUnavailable.into()),
            WouldDie => Err(TokenError::OnlyProvider.into()),
            UnknownAsset => Err(TokenError::UnknownAsset.into()),
            Underflow => Err(ArithmeticError::Underflow.into()),
            Overflow => Err(ArithmeticError::Overflow.into()),
            Frozen => Err(TokenError::Frozen.into()),
            ReducedToZero(_) if keep_nonzero => Err(TokenError::NotExpendable.into()),
            ReducedToZero(x) => Ok(x),
            Success => Ok(Default::default()),
        }
    }
}
#[derive(Debug, PartialEq, Eq, Clone, Copy)]
pub enum DepositConsequence {
    BelowMinimum,
    CannotCreate,
    UnknownAsset,
    Overflow,
    Success,
    Blocked,
}
impl DepositConsequence {
    pub fn into_result(self) -> Result<(), DispatchError> {
        use DepositConsequence::*;
        Err(match self {
            BelowMinimum => TokenError::BelowMinimum.into(),
            CannotCreate => TokenError::CannotCreate.into(),
            UnknownAsset => TokenError::UnknownAsset.into(),
            Overflow => ArithmeticError::Overflow.into(),
            Blocked => DispatchError::Other("blocked"),
            Success => return Ok(()),
        })
    }
}

pub mod fungibles {
    use super::*;
    pub trait Inspect<AccountId>: Sized {
        type AssetId: Copy;
        type Balance: Copy;
        fn total_issuance(asset: Self::AssetId) -> Self::Balance;
        fn active_issuance(asset: Self::AssetId) -> Self::Balance {
            Self::total_issuance(asset)
        }
        fn minimum_balance(asset: Self::AssetId) -> Self::Balance;
        fn total_balance(asset: Self::AssetId, who: &AccountId) -> Self::Balance;
        fn balance(asset: Self::AssetId, who: &AccountId) -> Self::Balance;
        fn reducible_balance(
            asset: Self::AssetId,
            who: &AccountId,
            preservation: Preservation,
            force: Fortitude,
        ) -> Self::Balance;
        fn can_deposit(
            asset: Self::AssetId,
            who: &AccountId,
            amount: Self::Balance,
            provenance: Provenance,
        ) -> DepositConsequence;
        fn can_withdraw(
            asset: Self::AssetId,
            who: &AccountId,
            amount: Self::Balance,
        ) -> WithdrawConsequence<Self::Balance>;
        fn asset_exists(asset: Self::AssetId) -> bool;
    }
}

pub mod fungible {
    use super::*;
    pub trait Inspect<AccountId>: Sized {
        type Balance: Copy;
        fn total_issuance() -> Self::Balance;
        fn active_issuance() -> Self::Balance {
            Self::total_issuance()
        }
        fn minimum_balance() -> Self::Balance;
        fn total_balance(who: &AccountId) -> Self::Balance;
        fn balance(who: &AccountId) -> Self::Balance;
        fn reducible_balance(who: &AccountId, preservation: Preservation, force: Fortitude) -> Self::Balance;
        fn can_deposit(who: &AccountId, amount: Self::Balance, provenance: Provenance) -> DepositConsequence;
        fn can_withdraw(who: &AccountId, amount: Self::Balance) -> WithdrawConsequence<Self::Balance>;
    }
}
