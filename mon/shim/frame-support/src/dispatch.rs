pub use crate::{traits::UnfilteredDispatchable, Parameter};
pub use codec::{Codec, Decode, Encode, EncodeLike, HasCompact, Input, Output};
pub use scale_info::TypeInfo;
pub use sp_runtime::{
    traits::{Dispatchable, Hash},
    DispatchError, DispatchResult, RuntimeDebug,
};
use sp_weights::Weight;

pub type DispatchResultWithPostInfo = sp_runtime::DispatchResultWithInfo<PostDispatchInfo>;
pub type DispatchErrorWithPostInfo = sp_runtime::DispatchErrorWithPostInfo<PostDispatchInfo>;

pub trait Callable<T> {
    type RuntimeCall: UnfilteredDispatchable + Clone + PartialEq + Eq;
}
pub type CallableCallFor<A, R> = <A as Callable<R>>::RuntimeCall;

#[derive(Clone, Copy, Eq, PartialEq, Debug, Encode, Decode, TypeInfo)]
pub enum Pays {
    Yes,
    No,
}
impl Default for Pays {
    fn default() -> Self {
        Self::Yes
    }
}
#[derive(Clone, Copy, Eq, PartialEq, Debug, Encode, Decode, TypeInfo)]
pub enum DispatchClass {
    Normal,
    Operational,
    Mandatory,
}
impl Default for DispatchClass {
    fn default() -> Self {
        Self::Normal
    }
}

#[derive(Clone, Copy, Eq, PartialEq, Default, Debug, Encode, Decode, TypeInfo)]
pub struct DispatchInfo {
    pub weight: Weight,
    pub class: DispatchClass,
    pub pays_fee: Pays,
}
pub trait GetDispatchInfo {
    fn get_dispatch_info(&self) -> DispatchInfo;
}
impl GetDispatchInfo for () {
    fn get_dispatch_info(&self) -> DispatchInfo {
        DispatchInfo::default()
    }
}

#[derive(Clone, Copy, Eq, PartialEq, Default, Debug, Encode, Decode, TypeInfo)]
pub struct PostDispatchInfo {
    pub actual_weight: Option<Weight>,
    pub pays_fee: Pays,
}
impl PostDispatchInfo {
    pub fn calc_unspent(&self, info: &DispatchInfo) -> Weight {
        info.weight - self.calc_actual_weight(info)
    }
    pub fn calc_actual_weight(&self, info: &DispatchInfo) -> Weight {
        self.actual_weight.map(|w| w.min(info.weight)).unwrap_or(info.weight)
    }
    pub fn pays_fee(&self, info: &DispatchInfo) -> Pays {
        if info.pays_fee == Pays::No || self.pays_fee == Pays::No {
            Pays::No
        } else {
            Pays::Yes
        }
    }
}
impl From<()> for PostDispatchInfo {
    fn from(_: ()) -> Self {
        Default::default()
    }
}
impl From<(Option<Weight>, Pays)> for PostDispatchInfo {
    fn from((actual_weight, pays_fee): (Option<Weight>, Pays)) -> Self {
        Self { actual_weight, pays_fee }
    }
}
impl From<Pays> for PostDispatchInfo {
    fn from(pays_fee: Pays) -> Self {
        Self { actual_weight: None, pays_fee }
    }
}
impl From<Option<Weight>> for PostDispatchInfo {
    fn from(actual_weight: Option<Weight>) -> Self {
        Self { actual_weight, pays_fee: Default::default() }
    }
}
impl core::fmt::Display for PostDispatchInfo {
    fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result {
        write!(f, "{:?}", self)
    }
}
impl sp_runtime::traits::Printable for PostDispatchInfo {
    fn print(&self) {}
}

pub trait WithPostDispatchInfo {
    fn with_weight(self, actual_weight: Weight) -> DispatchErrorWithPostInfo;
}
impl<T: Into<DispatchError>> WithPostDispatchInfo for T {
    fn with_weight(self, actual_weight: Weight) -> DispatchErrorWithPostInfo {
        DispatchErrorWithPostInfo {
            post_info: PostDispatchInfo { actual_weight: Some(actual_weight), pays_fee: Default::default() },
            error: self.into(),
        }
    }
}

pub trait IntoDispatchInfo {
    fn into_info(self) -> DispatchInfo;
}
impl IntoDispatchInfo for Weight {
    fn into_info(self) -> DispatchInfo {
        DispatchInfo { weight: self, ..Default::default() }
    }
}
impl IntoDispatchInfo for u64 {
    fn into_info(self) -> DispatchInfo {
        DispatchInfo { weight: Weight::from_parts(self, 0), ..Default::default() }
    }
}
impl<W: IntoDispatchInfo> IntoDispatchInfo for (W, DispatchClass) {
    fn into_info(self) -> DispatchInfo {
        DispatchInfo { class: self.1, ..self.0.into_info() }
    }
}
impl<W: IntoDispatchInfo> IntoDispatchInfo for (W, Pays) {
    fn into_info(self) -> DispatchInfo {
        DispatchInfo { pays_fee: self.1, ..self.0.into_info() }
    }
}
impl<W: IntoDispatchInfo> IntoDispatchInfo for (W, DispatchClass, Pays) {
    fn into_info(self) -> DispatchInfo {
        DispatchInfo { class: self.1, pays_fee: self.2, ..self.0.into_info() }
    }
}

pub fn extract_actual_weight(result: &DispatchResultWithPostInfo, info: &DispatchInfo) -> Weight {
    match result {
        Ok(p) => p.calc_actual_weight(info),
        Err(e) => e.post_info.calc_actual_weight(info),
    }
}

#[derive(PartialEq, Eq, Clone, Debug, Encode, Decode, TypeInfo)]
pub enum RawOrigin<AccountId> {
    Root,
    Signed(AccountId),
    None,
}
impl<A> From<Option<A>> for RawOrigin<A> {
    fn from(s: Option<A>) -> Self {
        match s {
            Some(w) => RawOrigin::Signed(w),
            None => RawOrigin::None,
        }
    }
}
