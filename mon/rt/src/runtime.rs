//! A runtime in the shape of /repo/parachain/runtime/interlay: the same pallets, instances, hooks
//! and constants, on the FRAME stand-ins of mon/shim.
use codec::{Decode, Encode};
pub use frame_support::{
    construct_runtime, parameter_types,
    traits::{
        ConstU32, Contains, Currency as PalletCurrency, EnsureOrigin, ExistenceRequirement, FindAuthor, Get, Nothing, OnUnbalanced,
        ReservableCurrency, ValidatorRegistration,
    },
    weights::Weight,
    PalletId,
};
use frame_system::EnsureRoot;
use orml_traits::{currency::MutationHooks, parameter_type_with_key};
pub use primitives::{
    AccountId, Balance, BlockNumber, CurrencyId,
    CurrencyId::{ForeignAsset, LendToken, Token},
    CurrencyInfo, Hash, Moment, Nonce, Rate, Ratio, SignedFixedPoint, SignedInner, StablePoolId, UnsignedFixedPoint,
    DOT, IBTC, INTR, KBTC, KINT, KSM,
};
pub use sp_arithmetic::Permill;
use sp_runtime::{
    traits::{AccountIdConversion, BlakeTwo256, Convert, IdentityLookup, Zero},
    DispatchError, DispatchResult, FixedPointNumber,
};
use std::marker::PhantomData;

use loans::{OnSlashHook, PostDeposit, PostTransfer, PreDeposit, PreTransfer};

pub type VaultId = primitives::VaultId<AccountId, CurrencyId>;
pub type Block = frame_system::mocking::MockBlockU32<Runtime>;

pub const MILLISECS_PER_BLOCK: u64 = 12000;
pub const MINUTES: BlockNumber = 60_000 / (MILLISECS_PER_BLOCK as BlockNumber);
pub const HOURS: BlockNumber = MINUTES * 60;
pub const DAYS: BlockNumber = HOURS * 24;
pub const WEEKS: BlockNumber = DAYS * 7;
pub const YEARS: BlockNumber = DAYS * 365;
pub const BITCOIN_BLOCK_SPACING: BlockNumber = btc_relay::TARGET_SPACING * 1000 / MILLISECS_PER_BLOCK as BlockNumber;
pub const UNITS: Balance = INTR.one();

pub const NATIVE: CurrencyId = Token(INTR);
pub const RELAY: CurrencyId = Token(DOT);
pub const WRAPPED: CurrencyId = Token(IBTC);

pub mod token_distribution {
    use super::*;
    pub const INITIAL_ALLOCATION: Balance = 1_000_000_000 * UNITS;
    pub const ESCROW_INFLATION_REWARDS: Permill = Permill::from_parts(67000);
    pub const VAULT_INFLATION_REWARDS: Permill = Permill::from_percent(40);
}

construct_runtime! {
    pub enum Runtime
    {
        System: frame_system::{Pallet, Call, Config<T>, Storage, Event<T>} = 0,
        Timestamp: pallet_timestamp::{Pallet, Call, Storage, Inherent} = 1,
        Scheduler: crate::sched::{Pallet, Storage} = 5,
        Preimage: crate::preimg::{Pallet, Call, Storage} = 6,
        TxPause: tx_pause::{Pallet, Call, Storage, Event<T>} = 10,

        Currency: currency::{Pallet} = 20,
        Tokens: orml_tokens::{Pallet, Call, Storage, Config<T>, Event<T>} = 21,
        Supply: supply::{Pallet, Storage, Call, Event<T>, Config<T>} = 22,
        MultiTransactionPayment: multi_transaction_payment::{Pallet, Call, Storage}  = 25,

        Escrow: escrow::{Pallet, Call, Storage, Event<T>} = 30,
        EscrowAnnuity: annuity::<Instance1>::{Pallet, Call, Storage, Event<T>} = 31,
        EscrowRewards: reward::<Instance1>::{Pallet, Storage, Event<T>} = 32,

        VaultAnnuity: annuity::<Instance2>::{Pallet, Call, Storage, Event<T>} = 40,
        VaultRewards: reward::<Instance2>::{Pallet, Storage, Event<T>} = 41,
        VaultStaking: staking::{Pallet, Storage, Event<T>} = 42,
        VaultCapacity: reward::<Instance3>::{Pallet, Storage, Event<T>} = 43,

        Farming: farming::{Pallet, Call, Storage, Event<T>} = 44,
        FarmingRewards: reward::<Instance4>::{Pallet, Storage, Event<T>} = 45,

        BTCRelay: btc_relay::{Pallet, Call, Config<T>, Storage, Event<T>} = 50,

        Security: security::{Pallet, Call, Storage, Event<T>} = 60,
        VaultRegistry: vault_registry::{Pallet, Call, Config<T>, Storage, Event<T>, ValidateUnsigned} = 61,
        Oracle: oracle::{Pallet, Call, Config<T>, Storage, Event<T>} = 62,
        Issue: issue::{Pallet, Call, Config<T>, Storage, Event<T>} = 63,
        Redeem: redeem::{Pallet, Call, Config<T>, Storage, Event<T>} = 64,
        Replace: replace::{Pallet, Call, Config<T>, Storage, Event<T>} = 65,
        Fee: fee::{Pallet, Call, Config<T>, Storage} = 66,
        Nomination: nomination::{Pallet, Call, Storage, Config<T>, Event<T>} = 68,
        ClientsInfo: clients_info::{Pallet, Call, Storage, Event<T>} = 69,

        Democracy: democracy::{Pallet, Call, Storage, Config<T>, Event<T>} = 70,

        CollatorSelection: collator_selection::{Pallet, Call, Storage, Event<T>, Config<T>} = 81,

        Loans: loans::{Pallet, Call, Storage, Event<T>, Config<T>} = 100,
        DexGeneral: dex_general::{Pallet, Call, Storage, Event<T>} = 101,
        DexStable: dex_stable::{Pallet, Call, Storage, Event<T>}  = 102,
        DexSwapRouter: dex_swap_router::{Pallet, Call, Event<T>} = 103,
    }
}

pub struct BaseCallFilter;
impl Contains<RuntimeCall> for BaseCallFilter {
    fn contains(call: &RuntimeCall) -> bool {
        if matches!(
            call,
            RuntimeCall::System(_) | RuntimeCall::Timestamp(_) | RuntimeCall::Democracy(_) | RuntimeCall::Escrow(_)
        ) {
            true
        } else {
            TxPause::contains(call)
        }
    }
}

parameter_types! {
    pub const BlockHashCount: BlockNumber = 250;
    pub const SS58Prefix: u16 = 2032;
}

impl frame_system::Config for Runtime {
    type Block = Block;
    type AccountId = AccountId;
    type RuntimeCall = RuntimeCall;
    type Lookup = IdentityLookup<AccountId>;
    type Nonce = Nonce;
    type Hash = Hash;
    type Hashing = BlakeTwo256;
    type RuntimeEvent = RuntimeEvent;
    type RuntimeOrigin = RuntimeOrigin;
    type BlockHashCount = BlockHashCount;
    type Version = ();
    type PalletInfo = PalletInfo;
    type AccountData = pallet_balances::AccountData<Balance>;
    type OnNewAccount = ();
    type OnKilledAccount = ();
    type DbWeight = ();
    type BaseCallFilter = BaseCallFilter;
    type SystemWeightInfo = ();
    type BlockWeights = ();
    type BlockLength = ();
    type SS58Prefix = SS58Prefix;
    type OnSetCode = ();
    type MaxConsumers = ConstU32<16>;
}

parameter_types! {
    pub const MinimumPeriod: u64 = MILLISECS_PER_BLOCK / 2;
}
impl pallet_timestamp::Config for Runtime {
    type Moment = Moment;
    type OnTimestampSet = ();
    type MinimumPeriod = MinimumPeriod;
    type WeightInfo = ();
}

impl crate::sched::Config for Runtime {
    type Preimages = Preimage;
}
impl crate::preimg::Config for Runtime {}

// --- fees -----------------------------------------------------------------------------------
pub struct Author;
impl Author {
    pub fn get() -> AccountId {
        CollatorPotId::get().into_account_truncating()
    }
}
type NegativeImbalance = <NativeCurrency as PalletCurrency<AccountId>>::NegativeImbalance;
pub struct DealWithFees;
impl OnUnbalanced<NegativeImbalance> for DealWithFees {
    fn on_nonzero_unbalanced(fees: NegativeImbalance) {
        NativeCurrency::resolve_creating(&Author::get(), fees);
    }
}
impl multi_transaction_payment::Config for Runtime {
    type DexWeightInfo = ();
    type RuntimeCall = RuntimeCall;
    type Currency = NativeCurrency;
    type OnUnbalanced = DealWithFees;
    type Dex = DexGeneral;
}
impl pallet_transaction_payment::Config for Runtime {
    type OnChargeTransaction = MultiTransactionPayment;
}
impl pallet_authorship::Config for Runtime {}

// --- collators ------------------------------------------------------------------------------
parameter_types! {
    pub const CollatorPotId: PalletId = PalletId(*b"col/slct");
    pub const Period: u32 = 6 * HOURS;
    pub const MaxCandidates: u32 = 20;
    pub const MinCandidates: u32 = 5;
    pub const MaxInvulnerables: u32 = 100;
}
/// Every account but those listed has session keys.
pub struct Session;
pub const NO_KEYS: &[u8] = b":mon:nokeys";
impl ValidatorRegistration<AccountId> for Session {
    fn is_registered(id: &AccountId) -> bool {
        let l: Vec<AccountId> = sp_io::storage::get(NO_KEYS).and_then(|b| Decode::decode(&mut &b[..]).ok()).unwrap_or_default();
        !l.contains(id)
    }
}
impl collator_selection::Config for Runtime {
    type RuntimeEvent = RuntimeEvent;
    type StakingCurrency = Escrow;
    type RewardsCurrency = NativeCurrency;
    type UpdateOrigin = EnsureRoot<AccountId>;
    type PotId = CollatorPotId;
    type MaxCandidates = MaxCandidates;
    type MinCandidates = MinCandidates;
    type MaxInvulnerables = MaxInvulnerables;
    type KickThreshold = Period;
    type ValidatorId = AccountId;
    type ValidatorIdOf = collator_selection::IdentityCollator;
    type ValidatorRegistration = Session;
    type WeightInfo = ();
}

// --- governance -----------------------------------------------------------------------------
parameter_types! {
    pub const LaunchPeriod: u64 = 60 * 60 * 24 * 7;
    pub const VotingPeriod: BlockNumber = 7 * DAYS;
    pub const FastTrackVotingPeriod: BlockNumber = 3 * HOURS;
    pub const MinimumDeposit: Balance = 250 * UNITS;
    pub const EnactmentPeriod: BlockNumber = DAYS;
    pub const MaxVotes: u32 = 10;
    pub const MaxProposals: u32 = 10;
}
impl democracy::Config for Runtime {
    type RuntimeEvent = RuntimeEvent;
    type Scheduler = Scheduler;
    type Preimages = Preimage;
    type Currency = Escrow;
    type EnactmentPeriod = EnactmentPeriod;
    type VotingPeriod = VotingPeriod;
    type FastTrackVotingPeriod = FastTrackVotingPeriod;
    type MinimumDeposit = MinimumDeposit;
    type MaxVotes = MaxVotes;
    type MaxProposals = MaxProposals;
    type MaxDeposits = ConstU32<10>;
    type FastTrackOrigin = EnsureRoot<AccountId>;
    type PalletsOrigin = OriginCaller;
    type WeightInfo = ();
    type UnixTime = Timestamp;
    type LaunchPeriod = LaunchPeriod;
    type TreasuryAccount = TreasuryAccount;
    type TreasuryCurrency = NativeCurrency;
}

// --- currencies and accounts ----------------------------------------------------------------
parameter_types! {
    pub const GetNativeCurrencyId: CurrencyId = NATIVE;
    pub const GetRelayChainCurrencyId: CurrencyId = RELAY;
    pub const GetWrappedCurrencyId: CurrencyId = WRAPPED;
}
pub type NativeCurrency = orml_tokens::CurrencyAdapter<Runtime, GetNativeCurrencyId>;

parameter_types! {
    pub const FeePalletId: PalletId = PalletId(*b"mod/fees");
    pub const SupplyPalletId: PalletId = PalletId(*b"mod/supl");
    pub const EscrowAnnuityPalletId: PalletId = PalletId(*b"esc/annu");
    pub const VaultAnnuityPalletId: PalletId = PalletId(*b"vlt/annu");
    pub const TreasuryPalletId: PalletId = PalletId(*b"mod/trsy");
    pub const VaultRegistryPalletId: PalletId = PalletId(*b"mod/vreg");
    pub const LoansPalletId: PalletId = PalletId(*b"mod/loan");
    pub const FarmingPalletId: PalletId = PalletId(*b"mod/farm");
}
parameter_types! {
    pub FeeAccount: AccountId = FeePalletId::get().into_account_truncating();
    pub SupplyAccount: AccountId = SupplyPalletId::get().into_account_truncating();
    pub EscrowAnnuityAccount: AccountId = EscrowAnnuityPalletId::get().into_account_truncating();
    pub VaultAnnuityAccount: AccountId = VaultAnnuityPalletId::get().into_account_truncating();
    pub TreasuryAccount: AccountId = TreasuryPalletId::get().into_account_truncating();
    pub CollatorSelectionAccount: AccountId = CollatorPotId::get().into_account_truncating();
    pub VaultRegistryAccount: AccountId = VaultRegistryPalletId::get().into_account_truncating();
    pub LoansAccount: AccountId = LoansPalletId::get().into_account_truncating();
    pub FarmingAccount: AccountId = FarmingPalletId::get().into_account_truncating();
}
pub fn get_all_module_accounts() -> Vec<AccountId> {
    vec![
        FeeAccount::get(),
        SupplyAccount::get(),
        EscrowAnnuityAccount::get(),
        VaultAnnuityAccount::get(),
        TreasuryAccount::get(),
        CollatorSelectionAccount::get(),
        VaultRegistryAccount::get(),
        LoansAccount::get(),
        Loans::incentive_reward_account_id(),
        Loans::reward_account_id(),
        FarmingAccount::get(),
    ]
}
pub struct DustRemovalWhitelist;
impl Contains<AccountId> for DustRemovalWhitelist {
    fn contains(a: &AccountId) -> bool {
        get_all_module_accounts().contains(a)
    }
}
parameter_types! {
    pub const MaxLocks: u32 = 50;
}
parameter_type_with_key! {
    pub ExistentialDeposits: |_currency_id: CurrencyId| -> Balance {
        Zero::zero()
    };
}
pub struct CurrencyHooks<T>(PhantomData<T>);
impl<T: orml_tokens::Config + loans::Config> MutationHooks<T::AccountId, T::CurrencyId, <T as currency::Config>::Balance> for CurrencyHooks<T>
where
    T::AccountId: From<sp_runtime::AccountId32>,
{
    type OnDust = orml_tokens::TransferDust<T, FeeAccount>;
    type OnSlash = OnSlashHook<T>;
    type PreDeposit = PreDeposit<T>;
    type PostDeposit = PostDeposit<T>;
    type PreTransfer = PreTransfer<T>;
    type PostTransfer = PostTransfer<T>;
    type OnNewTokenAccount = ();
    type OnKilledTokenAccount = ();
}
impl orml_tokens::Config for Runtime {
    type RuntimeEvent = RuntimeEvent;
    type Balance = Balance;
    type Amount = primitives::SignedBalance;
    type CurrencyId = CurrencyId;
    type WeightInfo = ();
    type ExistentialDeposits = ExistentialDeposits;
    type CurrencyHooks = CurrencyHooks<Runtime>;
    type MaxLocks = MaxLocks;
    type DustRemovalWhitelist = DustRemovalWhitelist;
    type MaxReserves = ConstU32<0>;
    type ReserveIdentifier = ();
}

// --- supply, annuities ----------------------------------------------------------------------
thread_local! {
    static YEAR: std::cell::Cell<BlockNumber> = const { std::cell::Cell::new(YEARS) };
}
/// Shortens the emission year on this thread (the monitors run many of them).
pub fn set_year(blocks: BlockNumber) {
    YEAR.with(|y| y.set(blocks))
}
pub struct Year;
impl Get<BlockNumber> for Year {
    fn get() -> BlockNumber {
        YEAR.with(|y| y.get())
    }
}
pub type InflationPeriod = Year;
pub struct DealWithRewards;
impl supply::OnInflation<AccountId> for DealWithRewards {
    type Currency = NativeCurrency;
    fn on_inflation(from: &AccountId, amount: Balance) {
        let vault_inflation = token_distribution::VAULT_INFLATION_REWARDS * amount;
        let escrow_inflation = token_distribution::ESCROW_INFLATION_REWARDS * amount;
        let _ = Self::Currency::transfer(from, &VaultAnnuityAccount::get(), vault_inflation, ExistenceRequirement::KeepAlive);
        VaultAnnuity::update_reward_per_block();
        let _ = Self::Currency::transfer(from, &EscrowAnnuityAccount::get(), escrow_inflation, ExistenceRequirement::KeepAlive);
        EscrowAnnuity::update_reward_per_block();
        let _ = Self::Currency::transfer(
            from,
            &TreasuryAccount::get(),
            amount.saturating_sub(vault_inflation).saturating_sub(escrow_inflation),
            ExistenceRequirement::KeepAlive,
        );
    }
}
impl supply::Config for Runtime {
    type SupplyPalletId = SupplyPalletId;
    type RuntimeEvent = RuntimeEvent;
    type UnsignedFixedPoint = UnsignedFixedPoint;
    type Currency = NativeCurrency;
    type InflationPeriod = InflationPeriod;
    type OnInflation = DealWithRewards;
    type WeightInfo = ();
}
pub struct TotalWrapped;
impl Get<Balance> for TotalWrapped {
    fn get() -> Balance {
        orml_tokens::CurrencyAdapter::<Runtime, GetWrappedCurrencyId>::total_issuance()
    }
}
pub type EmissionPeriod = Year;
pub struct EscrowBlockRewardProvider;
impl annuity::BlockRewardProvider<AccountId> for EscrowBlockRewardProvider {
    type Currency = NativeCurrency;
    fn distribute_block_reward(_from: &AccountId, amount: Balance) -> DispatchResult {
        <EscrowRewards as reward::RewardsApi<(), AccountId, Balance>>::distribute_reward(&(), GetNativeCurrencyId::get(), amount)
    }
    fn withdraw_reward(who: &AccountId) -> Result<Balance, DispatchError> {
        <EscrowRewards as reward::RewardsApi<(), AccountId, Balance>>::withdraw_reward(&(), who, GetNativeCurrencyId::get())
    }
}
pub type EscrowAnnuityInstance = annuity::Instance1;
impl annuity::Config<EscrowAnnuityInstance> for Runtime {
    type AnnuityPalletId = EscrowAnnuityPalletId;
    type RuntimeEvent = RuntimeEvent;
    type Currency = NativeCurrency;
    type BlockRewardProvider = EscrowBlockRewardProvider;
    type BlockNumberToBalance = BlockNumberToBalance;
    type EmissionPeriod = EmissionPeriod;
    type TotalWrapped = TotalWrapped;
    type WeightInfo = ();
}
pub struct VaultBlockRewardProvider;
impl annuity::BlockRewardProvider<AccountId> for VaultBlockRewardProvider {
    type Currency = NativeCurrency;
    fn distribute_block_reward(from: &AccountId, amount: Balance) -> DispatchResult {
        Self::Currency::transfer(from, &FeeAccount::get(), amount, ExistenceRequirement::KeepAlive)?;
        <VaultCapacity as reward::RewardsApi<(), CurrencyId, Balance>>::distribute_reward(&(), GetNativeCurrencyId::get(), amount)
    }
    fn withdraw_reward(_: &AccountId) -> Result<Balance, DispatchError> {
        Err(DispatchError::Other("Unsupported"))
    }
}
pub type VaultAnnuityInstance = annuity::Instance2;
impl annuity::Config<VaultAnnuityInstance> for Runtime {
    type AnnuityPalletId = VaultAnnuityPalletId;
    type RuntimeEvent = RuntimeEvent;
    type Currency = NativeCurrency;
    type BlockRewardProvider = VaultBlockRewardProvider;
    type BlockNumberToBalance = BlockNumberToBalance;
    type EmissionPeriod = EmissionPeriod;
    type TotalWrapped = TotalWrapped;
    type WeightInfo = ();
}

// --- rewards --------------------------------------------------------------------------------
pub type EscrowRewardsInstance = reward::Instance1;
impl reward::Config<EscrowRewardsInstance> for Runtime {
    type RuntimeEvent = RuntimeEvent;
    type SignedFixedPoint = SignedFixedPoint;
    type PoolId = ();
    type StakeId = AccountId;
    type CurrencyId = CurrencyId;
    type MaxRewardCurrencies = ConstU32<1>;
}
pub type VaultRewardsInstance = reward::Instance2;
impl reward::Config<VaultRewardsInstance> for Runtime {
    type RuntimeEvent = RuntimeEvent;
    type SignedFixedPoint = SignedFixedPoint;
    type PoolId = CurrencyId;
    type StakeId = VaultId;
    type CurrencyId = CurrencyId;
    type MaxRewardCurrencies = ConstU32<2>;
}
pub type VaultCapacityInstance = reward::Instance3;
impl reward::Config<VaultCapacityInstance> for Runtime {
    type RuntimeEvent = RuntimeEvent;
    type SignedFixedPoint = SignedFixedPoint;
    type PoolId = ();
    type StakeId = CurrencyId;
    type CurrencyId = CurrencyId;
    type MaxRewardCurrencies = ConstU32<2>;
}
pub type FarmingRewardsInstance = reward::Instance4;
impl reward::Config<FarmingRewardsInstance> for Runtime {
    type RuntimeEvent = RuntimeEvent;
    type SignedFixedPoint = SignedFixedPoint;
    type PoolId = CurrencyId;
    type StakeId = AccountId;
    type CurrencyId = CurrencyId;
    type MaxRewardCurrencies = ConstU32<10>;
}
parameter_types! {
    pub const RewardPeriod: BlockNumber = MINUTES;
}
impl farming::Config for Runtime {
    type RuntimeEvent = RuntimeEvent;
    type FarmingPalletId = FarmingPalletId;
    type TreasuryAccountId = TreasuryAccount;
    type RewardPeriod = RewardPeriod;
    type RewardPools = FarmingRewards;
    type MultiCurrency = Tokens;
    type WeightInfo = ();
}
impl security::Config for Runtime {
    type RuntimeEvent = RuntimeEvent;
    type WeightInfo = ();
}
impl currency::Config for Runtime {
    type SignedInner = SignedInner;
    type SignedFixedPoint = SignedFixedPoint;
    type UnsignedFixedPoint = UnsignedFixedPoint;
    type Balance = Balance;
    type GetNativeCurrencyId = GetNativeCurrencyId;
    type GetRelayChainCurrencyId = GetRelayChainCurrencyId;
    type GetWrappedCurrencyId = GetWrappedCurrencyId;
    type CurrencyConversion = currency::CurrencyConvert<Runtime, Oracle, Loans>;
}
impl staking::Config for Runtime {
    type RuntimeEvent = RuntimeEvent;
    type SignedFixedPoint = SignedFixedPoint;
    type SignedInner = SignedInner;
    type CurrencyId = CurrencyId;
    type GetNativeCurrencyId = GetNativeCurrencyId;
}
parameter_types! {
    pub const Span: BlockNumber = WEEKS;
    pub const MaxPeriod: BlockNumber = WEEKS * 192;
}
pub struct BlockNumberToBalance;
impl Convert<BlockNumber, Balance> for BlockNumberToBalance {
    fn convert(a: BlockNumber) -> Balance {
        a.into()
    }
}
impl escrow::Config for Runtime {
    type RuntimeEvent = RuntimeEvent;
    type BlockNumberToBalance = BlockNumberToBalance;
    type Currency = NativeCurrency;
    type Span = Span;
    type MaxPeriod = MaxPeriod;
    type EscrowRewards = EscrowRewards;
    type WeightInfo = ();
}

// --- bridge ---------------------------------------------------------------------------------
pub type UncheckedExtrinsic = sp_runtime::testing::TestXt<RuntimeCall, ()>;
impl<C> frame_system::offchain::SendTransactionTypes<C> for Runtime
where
    RuntimeCall: From<C>,
{
    type OverarchingCall = RuntimeCall;
    type Extrinsic = UncheckedExtrinsic;
}
impl vault_registry::Config for Runtime {
    type PalletId = VaultRegistryPalletId;
    type RuntimeEvent = RuntimeEvent;
    type WeightInfo = ();
    type GetGriefingCollateralCurrencyId = GetNativeCurrencyId;
}
impl oracle::Config for Runtime {
    type RuntimeEvent = RuntimeEvent;
    type OnExchangeRateChange = (vault_registry::PoolManager<Runtime>, Loans);
    type WeightInfo = ();
    type MaxNameLength = ConstU32<255>;
}
parameter_types! {
    pub const MaxExpectedValue: UnsignedFixedPoint = UnsignedFixedPoint::from_inner(<UnsignedFixedPoint as FixedPointNumber>::DIV);
    pub const ParachainBlocksPerBitcoinBlock: BlockNumber = BITCOIN_BLOCK_SPACING;
}
impl btc_relay::Config for Runtime {
    type RuntimeEvent = RuntimeEvent;
    type ParachainBlocksPerBitcoinBlock = ParachainBlocksPerBitcoinBlock;
    type WeightInfo = ();
}
impl fee::Config for Runtime {
    type FeePalletId = FeePalletId;
    type WeightInfo = ();
    type SignedFixedPoint = SignedFixedPoint;
    type SignedInner = SignedInner;
    type CapacityRewards = VaultCapacity;
    type VaultRewards = VaultRewards;
    type VaultStaking = VaultStaking;
    type OnSweep = currency::SweepFunds<Runtime, FeeAccount>;
    type MaxExpectedValue = MaxExpectedValue;
    type NominationApi = Nomination;
}
impl issue::Config for Runtime {
    type TreasuryPalletId = TreasuryPalletId;
    type RuntimeEvent = RuntimeEvent;
    type BlockNumberToBalance = BlockNumberToBalance;
    type WeightInfo = ();
}
impl redeem::Config for Runtime {
    type RuntimeEvent = RuntimeEvent;
    type WeightInfo = ();
}
impl replace::Config for Runtime {
    type RuntimeEvent = RuntimeEvent;
    type WeightInfo = ();
}
impl nomination::Config for Runtime {
    type RuntimeEvent = RuntimeEvent;
    type WeightInfo = ();
}
impl clients_info::Config for Runtime {
    type RuntimeEvent = RuntimeEvent;
    type WeightInfo = ();
    type MaxNameLength = ConstU32<255>;
    type MaxUriLength = ConstU32<255>;
}
parameter_types! {
    pub const MaxNameLen: u32 = 128;
}
/// Both are constants of a runtime; a history may set them before it starts.
pub const WHITELIST: &[u8] = b":mon:whitelist";
pub const LONG_NAMES: &[u8] = b":mon:longnames";
pub struct PauseTooLongNames;
impl sp_core::Get<bool> for PauseTooLongNames {
    fn get() -> bool {
        sp_io::storage::get(LONG_NAMES).is_some()
    }
}
pub struct WhitelistCallNames;
impl Contains<tx_pause::FullNameOf<Runtime>> for WhitelistCallNames {
    fn contains(x: &tx_pause::FullNameOf<Runtime>) -> bool {
        let l: Vec<(Vec<u8>, Option<Vec<u8>>)> = sp_io::storage::get(WHITELIST).and_then(|b| Decode::decode(&mut &b[..]).ok()).unwrap_or_default();
        l.contains(&(x.0.to_vec(), x.1.as_ref().map(|c| c.to_vec())))
    }
}
impl tx_pause::Config for Runtime {
    type RuntimeEvent = RuntimeEvent;
    type RuntimeCall = RuntimeCall;
    type PauseOrigin = EnsureRoot<AccountId>;
    type UnpauseOrigin = EnsureRoot<AccountId>;
    type WhitelistCallNames = WhitelistCallNames;
    type MaxNameLen = MaxNameLen;
    type PauseTooLongNames = PauseTooLongNames;
    type WeightInfo = ();
}
impl loans::Config for Runtime {
    type RuntimeEvent = RuntimeEvent;
    type PalletId = LoansPalletId;
    type ReserveOrigin = EnsureRoot<AccountId>;
    type UpdateOrigin = EnsureRoot<AccountId>;
    type WeightInfo = ();
    type UnixTime = Timestamp;
    type RewardAssetId = GetNativeCurrencyId;
    type ReferenceAssetId = GetWrappedCurrencyId;
    type OnExchangeRateChange = vault_registry::PoolManager<Runtime>;
}

// --- exchanges ------------------------------------------------------------------------------
use dex_general::{GenerateLpAssetId, ValidateAsset};
use dex_stable::traits::{StablePoolLpCurrencyIdGenerate, ValidateCurrency};
parameter_types! {
    pub const DexGeneralPalletId: PalletId = PalletId(*b"dex/genr");
    pub const DexStablePalletId: PalletId = PalletId(*b"dex/stbl");
    pub const CurrencyLimit: u32 = 10;
    pub const StringLimit: u32 = 50;
    pub const MaxBootstrapRewards: u32 = 1000;
    pub const MaxBootstrapLimits: u32 = 1000;
}
pub struct PairLpIdentity;
impl GenerateLpAssetId<CurrencyId> for PairLpIdentity {
    fn generate_lp_asset_id(asset_0: CurrencyId, asset_1: CurrencyId) -> Option<CurrencyId> {
        CurrencyId::join_lp_token(asset_0, asset_1)
    }
}
pub struct DexGeneralVerifyPairAsset;
impl ValidateAsset<CurrencyId> for DexGeneralVerifyPairAsset {
    fn validate_asset(currency_id: &CurrencyId) -> bool {
        currency_id.is_lp_token()
    }
}
impl dex_general::Config for Runtime {
    type RuntimeEvent = RuntimeEvent;
    type MultiCurrency = Tokens;
    type PalletId = DexGeneralPalletId;
    type AssetId = CurrencyId;
    type EnsurePairAsset = DexGeneralVerifyPairAsset;
    type LpGenerate = PairLpIdentity;
    type WeightInfo = ();
    type MaxBootstrapRewards = MaxBootstrapRewards;
    type MaxBootstrapLimits = MaxBootstrapLimits;
}
pub struct PoolLpGenerate;
impl StablePoolLpCurrencyIdGenerate<CurrencyId, StablePoolId> for PoolLpGenerate {
    fn generate_by_pool_id(pool_id: StablePoolId) -> CurrencyId {
        CurrencyId::StableLpToken(pool_id)
    }
}
pub struct DexStableVerifyPoolAsset;
impl ValidateCurrency<CurrencyId> for DexStableVerifyPoolAsset {
    fn validate_pooled_currency(_currencies: &[CurrencyId]) -> bool {
        true
    }
    fn validate_pool_lp_currency(currency_id: CurrencyId) -> bool {
        !(Tokens::total_issuance(currency_id) > 0)
    }
}
impl dex_stable::Config for Runtime {
    type RuntimeEvent = RuntimeEvent;
    type CurrencyId = CurrencyId;
    type MultiCurrency = Tokens;
    type PoolId = StablePoolId;
    type TimeProvider = Timestamp;
    type EnsurePoolAsset = DexStableVerifyPoolAsset;
    type LpGenerate = PoolLpGenerate;
    type PoolCurrencyLimit = CurrencyLimit;
    type PoolCurrencySymbolLimit = StringLimit;
    type PalletId = DexStablePalletId;
    type WeightInfo = ();
}
impl dex_swap_router::Config for Runtime {
    type RuntimeEvent = RuntimeEvent;
    type StablePoolId = StablePoolId;
    type Balance = Balance;
    type CurrencyId = CurrencyId;
    type GeneralAmm = DexGeneral;
    type StableAmm = DexStable;
    type GeneralWeightInfo = ();
    type StableWeightInfo = ();
    type WeightInfo = ();
}
#[allow(dead_code)]
fn _u<T: Encode>() {}
