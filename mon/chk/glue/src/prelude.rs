//! What the runtimes' own code names, as stand-ins where it is not in this repository.
pub use codec::{Decode, Encode};
pub use frame_support::{
    parameter_types,
    traits::{
        Contains, Currency as PalletCurrency, EnsureOrigin, ExistenceRequirement, Get, Imbalance, InstanceFilter, OnUnbalanced,
    },
    PalletId,
};
pub use frame_system::{EnsureRoot, RawOrigin};
pub use orml_traits::{parameter_type_with_key, MultiCurrency};
pub use primitives::{
    AccountId, Balance, BlockNumber, CurrencyId,
    CurrencyId::{ForeignAsset, LendToken, Token},
    CurrencyInfo, CustomMetadata, DOT, IBTC, INTR, KBTC, KINT, KSM,
};
pub use rt::runtime::{EscrowAnnuity, EscrowRewards, Loans, Runtime, RuntimeOrigin, Tokens, VaultAnnuity, VaultCapacity};
pub use sp_arithmetic::Permill;
pub use sp_runtime::{
    traits::{AccountIdConversion, Convert, Zero},
    DispatchError, DispatchResult,
};
pub use std::{cell::RefCell, marker::PhantomData};
pub mod hex_literal {
    macro_rules! hex_ {
        ($s:literal) => {
            crate::prelude::hex_literal::read($s)
        };
    }
    pub(crate) use hex_ as hex;
    pub fn read<const N: usize>(s: &str) -> [u8; N] {
        assert_eq!(s.len(), 2 * N);
        std::array::from_fn(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap())
    }
}
pub mod sp_std {
    pub use std::*;
}

thread_local! {
    pub static PAUSED: RefCell<bool> = Default::default();
    pub static AUTHOR: RefCell<Option<AccountId>> = Default::default();
    pub static PARA: RefCell<u32> = Default::default();
    /// registered assets: id, location, fee
    pub static REGISTRY: RefCell<Vec<(u32, Option<MultiLocation>, u128)>> = Default::default();
}

/// Any call of a pallet.
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Any;
pub struct TxPause;
impl TxPause {
    pub fn contains<C>(_: &C) -> bool {
        !PAUSED.with(|p| *p.borrow())
    }
}
pub mod pallet_xcm {
    use std::marker::PhantomData;
    macro_rules! calls {
        ($($n:ident)*) => {
            #[allow(non_camel_case_types)]
            #[derive(Debug)]
            pub enum Call<T> {
                $($n { dest: u8, message: u8 },)*
                __Never(PhantomData<T>),
            }
            impl<T> Clone for Call<T> {
                fn clone(&self) -> Self {
                    match self {
                        $(Call::$n { dest, message } => Call::$n { dest: *dest, message: *message },)*
                        Call::__Never(_) => Call::__Never(PhantomData),
                    }
                }
            }
            impl<T> PartialEq for Call<T> {
                fn eq(&self, o: &Self) -> bool {
                    std::mem::discriminant(self) == std::mem::discriminant(o)
                }
            }
            impl<T> Eq for Call<T> {}
        };
    }
    calls! { send execute teleport_assets reserve_transfer_assets limited_reserve_transfer_assets limited_teleport_assets force_xcm_version
    force_default_xcm_version force_subscribe_version_notify force_unsubscribe_version_notify force_suspension }
}
pub mod pallet_authorship {
    use super::*;
    pub trait Config: frame_system::Config {}
    impl Config for Runtime {}
    pub struct Pallet<T>(PhantomData<T>);
    impl<T: Config> Pallet<T> {
        pub fn author() -> Option<<T as frame_system::Config>::AccountId> {
            AUTHOR.with(|a| a.borrow().clone()).map(|a| Decode::decode(&mut &a.encode()[..]).unwrap())
        }
    }
}
pub trait MergeInto<B> {
    fn merge_into(self, other: &mut Self);
}
impl<B, I: Imbalance<B>> MergeInto<B> for I {
    fn merge_into(self, other: &mut Self) {
        *other = self.merge(std::mem::replace(other, I::zero()))
    }
}
pub trait EnsureOriginWithArg<O, A> {
    type Success;
    fn try_origin(o: O, a: &A) -> Result<Self::Success, O>;
}

// ---- locations
#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub enum NetworkId {
    Polkadot,
    Kusama,
    Westend,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub enum Junction {
    Parachain(u32),
    AccountId32 { network: Option<NetworkId>, id: [u8; 32] },
    AccountKey20 { network: Option<NetworkId>, key: [u8; 20] },
    PalletInstance(u8),
    GeneralIndex(u128),
    GeneralKey { length: u8, data: [u8; 32] },
    OnlyChild,
    GlobalConsensus(NetworkId),
}
pub use Junction::{AccountId32, AccountKey20, GeneralIndex, GeneralKey, GlobalConsensus, OnlyChild, PalletInstance, Parachain};
#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub enum Junctions {
    Here,
    X1(Junction),
    X2(Junction, Junction),
    X3(Junction, Junction, Junction),
    X4(Junction, Junction, Junction, Junction),
}
pub use Junctions::{Here, X1, X2, X3, X4};
impl Junctions {
    pub fn first(&self) -> Option<&Junction> {
        match self {
            Here => None,
            X1(a) | X2(a, _) | X3(a, ..) | X4(a, ..) => Some(a),
        }
    }
}
pub type InteriorMultiLocation = Junctions;
#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub struct MultiLocation {
    pub parents: u8,
    pub interior: Junctions,
}
impl MultiLocation {
    pub fn new(parents: u8, interior: impl Into<Junctions>) -> Self {
        Self { parents, interior: interior.into() }
    }
    pub const fn parent() -> Self {
        Self { parents: 1, interior: Here }
    }
    pub const fn here() -> Self {
        Self { parents: 0, interior: Here }
    }
    pub fn first_interior(&self) -> Option<&Junction> {
        self.interior.first()
    }
    pub fn interior(&self) -> &Junctions {
        &self.interior
    }
    pub fn parent_count(&self) -> u8 {
        self.parents
    }
}
impl From<Junction> for Junctions {
    fn from(j: Junction) -> Self {
        X1(j)
    }
}
impl From<Junctions> for MultiLocation {
    fn from(interior: Junctions) -> Self {
        Self { parents: 0, interior }
    }
}
impl From<Junction> for MultiLocation {
    fn from(j: Junction) -> Self {
        Self { parents: 0, interior: X1(j) }
    }
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum AssetId {
    Concrete(MultiLocation),
    Abstract([u8; 32]),
}
pub use AssetId::{Abstract, Concrete};
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Fungibility {
    Fungible(u128),
    NonFungible(u64),
}
pub use Fungibility::{Fungible, NonFungible};
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct MultiAsset {
    pub id: AssetId,
    pub fun: Fungibility,
}
pub trait TakeRevenue {
    fn take_revenue(revenue: MultiAsset);
}
pub trait FixedConversionRateProvider {
    fn get_fee_per_second(location: &MultiLocation) -> Option<u128>;
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct ParaId(u32);
impl From<u32> for ParaId {
    fn from(x: u32) -> Self {
        ParaId(x)
    }
}
impl From<ParaId> for u32 {
    fn from(x: ParaId) -> u32 {
        x.0
    }
}
pub struct ParachainInfo;
impl ParachainInfo {
    pub fn get() -> ParaId {
        PARA.with(|p| ParaId(*p.borrow()))
    }
    pub fn parachain_id() -> ParaId {
        Self::get()
    }
}
pub struct Metadata {
    pub additional: CustomMetadata,
}
pub struct AssetRegistry;
impl AssetRegistry {
    fn at<T>(f: impl Fn(&(u32, Option<MultiLocation>, u128)) -> Option<T>) -> Option<T> {
        REGISTRY.with(|r| r.borrow().iter().find_map(f))
    }
    pub fn multilocation(id: &u32) -> Result<Option<MultiLocation>, DispatchError> {
        match Self::at(|a| (a.0 == *id).then_some(a.1)) {
            Some(l) => Ok(l),
            None => Ok(None),
        }
    }
    pub fn location_to_asset_id(l: &MultiLocation) -> Option<u32> {
        Self::at(|a| (a.1 == Some(*l)).then_some(a.0))
    }
    pub fn fetch_metadata_by_location(l: &MultiLocation) -> Option<Metadata> {
        Self::at(|a| {
            (a.1 == Some(*l)).then(|| Metadata { additional: CustomMetadata { fee_per_second: a.2, coingecko_id: vec![] } })
        })
    }
}
