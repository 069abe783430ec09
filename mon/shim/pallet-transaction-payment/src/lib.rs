//! Offline stand-in for the part of pallet-transaction-payment the fee payment uses.
use codec::{Decode, Encode};
use frame_support::traits::{Currency, ExistenceRequirement, Get, Imbalance, OnUnbalanced, SignedImbalance, WithdrawReasons};
use sp_runtime::{
    traits::{DispatchInfoOf, PostDispatchInfoOf, Saturating, Zero},
    transaction_validity::{InvalidTransaction, TransactionValidityError},
};
use std::{fmt::Debug, marker::PhantomData};

pub trait Config: frame_system::Config
where
    Self::RuntimeCall: sp_runtime::traits::Dispatchable,
{
    type OnChargeTransaction: OnChargeTransaction<Self>;
}
pub trait OnChargeTransaction<T: Config> {
    type Balance: sp_runtime::traits::AtLeast32BitUnsigned + codec::FullCodec + Copy + Debug + Default;
    type LiquidityInfo: Default;
    fn withdraw_fee(
        who: &T::AccountId,
        call: &T::RuntimeCall,
        dispatch_info: &DispatchInfoOf<T::RuntimeCall>,
        fee: Self::Balance,
        tip: Self::Balance,
    ) -> Result<Self::LiquidityInfo, TransactionValidityError>;
    fn correct_and_deposit_fee(
        who: &T::AccountId,
        dispatch_info: &DispatchInfoOf<T::RuntimeCall>,
        post_info: &PostDispatchInfoOf<T::RuntimeCall>,
        corrected_fee: Self::Balance,
        tip: Self::Balance,
        already_withdrawn: Self::LiquidityInfo,
    ) -> Result<(), TransactionValidityError>;
}
pub struct CurrencyAdapter<C, OU>(PhantomData<(C, OU)>);
impl<T, C, OU> OnChargeTransaction<T> for CurrencyAdapter<C, OU>
where
    T: Config,
    C: Currency<T::AccountId>,
    OU: OnUnbalanced<<C as Currency<T::AccountId>>::NegativeImbalance>,
{
    type LiquidityInfo = Option<<C as Currency<T::AccountId>>::NegativeImbalance>;
    type Balance = C::Balance;
    fn withdraw_fee(
        who: &T::AccountId,
        _call: &T::RuntimeCall,
        _info: &DispatchInfoOf<T::RuntimeCall>,
        fee: C::Balance,
        tip: C::Balance,
    ) -> Result<Self::LiquidityInfo, TransactionValidityError> {
        if fee.is_zero() {
            return Ok(None);
        }
        let reason = if tip.is_zero() {
            WithdrawReasons::TRANSACTION_PAYMENT
        } else {
            WithdrawReasons::TRANSACTION_PAYMENT | WithdrawReasons::TIP
        };
        C::withdraw(who, fee, reason, ExistenceRequirement::KeepAlive)
            .map(Some)
            .map_err(|_| InvalidTransaction::Payment.into())
    }
    fn correct_and_deposit_fee(
        who: &T::AccountId,
        _info: &DispatchInfoOf<T::RuntimeCall>,
        _post: &PostDispatchInfoOf<T::RuntimeCall>,
        corrected_fee: C::Balance,
        tip: C::Balance,
        already_withdrawn: Self::LiquidityInfo,
    ) -> Result<(), TransactionValidityError> {
        if let Some(paid) = already_withdrawn {
            let refund = paid.peek().saturating_sub(corrected_fee);
            let refund_imbalance = C::deposit_into_existing(who, refund).unwrap_or_else(|_| C::PositiveImbalance::zero());
            let adjusted = paid
                .offset(refund_imbalance)
                .same()
                .map_err(|_| TransactionValidityError::Invalid(InvalidTransaction::Payment))?;
            let (tip, fee) = adjusted.split(tip);
            OU::on_unbalanceds(Some(fee).into_iter().chain(Some(tip)));
        }
        Ok(())
    }
}
#[allow(unused)]
fn _u<T: Encode + Decode, G: Get<u32>, B, P: Imbalance<B>>(_: Option<SignedImbalance<B, P>>) {}
