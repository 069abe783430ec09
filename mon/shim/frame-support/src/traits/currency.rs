use super::*;

#[must_use]
pub enum SameOrOther<A, B> {
    None,
    Same(A),
    Other(B),
}
impl<A, B> SameOrOther<A, B> {
    pub fn try_same(self) -> Result<A, Self> {
        match self {
            SameOrOther::Same(a) => Ok(a),
            x => Err(x),
        }
    }
    pub fn try_other(self) -> Result<B, Self> {
        match self {
            SameOrOther::Other(b) => Ok(b),
            x => Err(x),
        }
    }
    pub fn try_none(self) -> Result<(), Self> {
        match self {
            SameOrOther::None => Ok(()),
            x => Err(x),
        }
    }
    pub fn same(self) -> Result<A, B>
    where
        A: Default,
    {
        match self {
            SameOrOther::Same(a) => Ok(a),
            SameOrOther::None => Ok(A::default()),
            SameOrOther::Other(b) => Err(b),
        }
    }
    pub fn other(self) -> Result<B, A>
    where
        B: Default,
    {
        match self {
            SameOrOther::Same(a) => Err(a),
            SameOrOther::None => Ok(B::default()),
            SameOrOther::Other(b) => Ok(b),
        }
    }
    pub fn try_drop(self) -> Result<(), Self>
    where
        A: TryDrop,
        B: TryDrop,
    {
        match self {
            SameOrOther::None => Ok(()),
            SameOrOther::Same(x) => x.try_drop().map_err(SameOrOther::Same),
            SameOrOther::Other(x) => x.try_drop().map_err(SameOrOther::Other),
        }
    }
}
pub trait TryDrop: Sized {
    fn try_drop(self) -> Result<(), Self>;
}
impl TryDrop for () {
    fn try_drop(self) -> Result<(), Self> {
        Ok(())
    }
}
pub trait Imbalance<Balance>: Sized + TryDrop + Default {
    type Opposite: Imbalance<Balance>;
    fn zero() -> Self;
    fn drop_zero(self) -> Result<(), Self>;
    fn split(self, amount: Balance) -> (Self, Self);
    fn ration(self, first: u32, second: u32) -> (Self, Self)
    where
        Balance: From<u32> + sp_runtime::traits::Saturating + std::ops::Div<Output = Balance> + Copy + Zero,
    {
        let total: u32 = first.saturating_add(second);
        if total == 0 {
            return (Self::zero(), Self::zero());
        }
        let a1 = self.peek().saturating_mul(first.into()) / total.into();
        self.split(a1)
    }
    fn merge(self, other: Self) -> Self;
    fn subsume(&mut self, other: Self);
    fn offset(self, other: Self::Opposite) -> SameOrOther<Self, Self::Opposite>;
    fn peek(&self) -> Balance;
}
impl<Balance: Default> Imbalance<Balance> for () {
    type Opposite = ();
    fn zero() -> Self {}
    fn drop_zero(self) -> Result<(), Self> {
        Ok(())
    }
    fn split(self, _: Balance) -> (Self, Self) {
        ((), ())
    }
    fn merge(self, _: Self) -> Self {}
    fn subsume(&mut self, _: Self) {}
    fn offset(self, _: ()) -> SameOrOther<(), ()> {
        SameOrOther::None
    }
    fn peek(&self) -> Balance {
        Default::default()
    }
}
pub enum SignedImbalance<B, PositiveImbalance: Imbalance<B>> {
    Positive(PositiveImbalance),
    Negative(PositiveImbalance::Opposite),
}
impl<B, P: Imbalance<B, Opposite = N>, N: Imbalance<B, Opposite = P>> SignedImbalance<B, P> {
    pub fn zero() -> Self {
        SignedImbalance::Positive(P::zero())
    }
}
pub trait OnUnbalanced<I: TryDrop> {
    fn on_unbalanceds<B>(amounts: impl Iterator<Item = I>)
    where
        I: Imbalance<B>,
    {
        Self::on_unbalanced(amounts.fold(I::default(), |i, x| x.merge(i)))
    }
    fn on_unbalanced(amount: I) {
        amount.try_drop().unwrap_or_else(Self::on_nonzero_unbalanced)
    }
    fn on_nonzero_unbalanced(amount: I) {
        drop(amount);
    }
}
impl<I: TryDrop> OnUnbalanced<I> for () {}

pub trait Currency<AccountId> {
    type Balance: AtLeast32BitUnsigned
        + FullCodec
        + Copy
        + MaybeSerializeDeserialize
        + Debug
        + Default
        + TypeInfo
        + MaxEncodedLen
        + sp_runtime::FixedPointOperand;
    type PositiveImbalance: Imbalance<Self::Balance, Opposite = Self::NegativeImbalance>;
    type NegativeImbalance: Imbalance<Self::Balance, Opposite = Self::PositiveImbalance>;
    fn total_balance(who: &AccountId) -> Self::Balance;
    fn can_slash(who: &AccountId, value: Self::Balance) -> bool;
    fn total_issuance() -> Self::Balance;
    fn active_issuance() -> Self::Balance {
        Self::total_issuance()
    }
    fn deactivate(_: Self::Balance) {}
    fn reactivate(_: Self::Balance) {}
    fn minimum_balance() -> Self::Balance;
    fn burn(amount: Self::Balance) -> Self::PositiveImbalance;
    fn issue(amount: Self::Balance) -> Self::NegativeImbalance;
    fn pair(amount: Self::Balance) -> (Self::PositiveImbalance, Self::NegativeImbalance) {
        (Self::burn(amount), Self::issue(amount))
    }
    fn free_balance(who: &AccountId) -> Self::Balance;
    fn ensure_can_withdraw(
        who: &AccountId,
        amount: Self::Balance,
        reasons: WithdrawReasons,
        new_balance: Self::Balance,
    ) -> DispatchResult;
    fn transfer(
        source: &AccountId,
        dest: &AccountId,
        value: Self::Balance,
        existence_requirement: ExistenceRequirement,
    ) -> DispatchResult;
    fn slash(who: &AccountId, value: Self::Balance) -> (Self::NegativeImbalance, Self::Balance);
    fn deposit_into_existing(who: &AccountId, value: Self::Balance) -> Result<Self::PositiveImbalance, DispatchError>;
    fn resolve_into_existing(
        who: &AccountId,
        value: Self::NegativeImbalance,
    ) -> Result<(), Self::NegativeImbalance> {
        let v = value.peek();
        match Self::deposit_into_existing(who, v) {
            Ok(opposite) => Ok(drop(value.offset(opposite))),
            _ => Err(value),
        }
    }
    fn deposit_creating(who: &AccountId, value: Self::Balance) -> Self::PositiveImbalance;
    fn resolve_creating(who: &AccountId, value: Self::NegativeImbalance) {
        let v = value.peek();
        drop(value.offset(Self::deposit_creating(who, v)));
    }
    fn withdraw(
        who: &AccountId,
        value: Self::Balance,
        reasons: WithdrawReasons,
        liveness: ExistenceRequirement,
    ) -> Result<Self::NegativeImbalance, DispatchError>;
    fn settle(
        who: &AccountId,
        value: Self::PositiveImbalance,
        reasons: WithdrawReasons,
        liveness: ExistenceRequirement,
    ) -> Result<(), Self::PositiveImbalance> {
        let v = value.peek();
        match Self::withdraw(who, v, reasons, liveness) {
            Ok(opposite) => Ok(drop(value.offset(opposite))),
            _ => Err(value),
        }
    }
    fn make_free_balance_be(
        who: &AccountId,
        balance: Self::Balance,
    ) -> SignedImbalance<Self::Balance, Self::PositiveImbalance>;
}

pub trait ReservableCurrency<AccountId>: Currency<AccountId> {
    fn can_reserve(who: &AccountId, value: Self::Balance) -> bool;
    fn slash_reserved(who: &AccountId, value: Self::Balance) -> (Self::NegativeImbalance, Self::Balance);
    fn reserved_balance(who: &AccountId) -> Self::Balance;
    fn reserve(who: &AccountId, value: Self::Balance) -> DispatchResult;
    fn unreserve(who: &AccountId, value: Self::Balance) -> Self::Balance;
    fn repatriate_reserved(
        slashed: &AccountId,
        beneficiary: &AccountId,
        value: Self::Balance,
        status: BalanceStatus,
    ) -> Result<Self::Balance, DispatchError>;
}
pub type LockIdentifier = [u8; 8];
pub trait LockableCurrency<AccountId>: Currency<AccountId> {
    type Moment;
    type MaxLocks: Get<u32>;
    fn set_lock(id: LockIdentifier, who: &AccountId, amount: Self::Balance, reasons: WithdrawReasons);
    fn extend_lock(id: LockIdentifier, who: &AccountId, amount: Self::Balance, reasons: WithdrawReasons);
    fn remove_lock(id: LockIdentifier, who: &AccountId);
}
