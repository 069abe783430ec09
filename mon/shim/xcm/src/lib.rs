//! Offline stand-in for the part of XCM version 3 the barriers look at.
pub mod latest {
    pub use frame_support::weights::Weight;
    #[derive(Clone, Debug, Default, PartialEq, Eq)]
    pub struct MultiLocation {
        pub parents: u8,
        pub interior: Vec<u32>,
    }
    #[derive(Clone, Copy, Debug, PartialEq, Eq)]
    pub enum OriginKind {
        Native,
        SovereignAccount,
        Superuser,
        Xcm,
    }
    #[derive(Clone, Debug, PartialEq, Eq)]
    pub struct DoubleEncoded<Call>(pub Vec<u8>, pub std::marker::PhantomData<Call>);
    #[derive(Clone, Debug, PartialEq, Eq)]
    pub struct Xcm<Call>(pub Vec<Instruction<Call>>);
    #[derive(Clone, Debug, PartialEq, Eq)]
    pub enum Instruction<Call> {
        WithdrawAsset(Vec<(MultiLocation, u128)>),
        ReserveAssetDeposited(Vec<(MultiLocation, u128)>),
        BuyExecution { fees: u128, weight_limit: Option<Weight> },
        DepositAsset { assets: Vec<u128>, beneficiary: MultiLocation },
        DepositReserveAsset { assets: Vec<u128>, dest: MultiLocation, xcm: Xcm<()> },
        TransferReserveAsset { assets: Vec<u128>, dest: MultiLocation, xcm: Xcm<()> },
        InitiateReserveWithdraw { assets: Vec<u128>, reserve: MultiLocation, xcm: Xcm<()> },
        ExportMessage { network: u8, destination: MultiLocation, xcm: Xcm<()> },
        Transact { origin_kind: OriginKind, require_weight_at_most: Weight, call: DoubleEncoded<Call> },
        SetErrorHandler(Xcm<Call>),
        SetAppendix(Xcm<Call>),
        DescendOrigin(MultiLocation),
        ClearOrigin,
        RefundSurplus,
        Trap(u64),
    }
}
