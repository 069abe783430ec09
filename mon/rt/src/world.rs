//! A world is one chain: genesis, blocks, dispatch, events.
use crate::runtime::*;
use frame_support::{
    traits::Hooks,
    BoundedVec,
};
use mon::*;
use sp_runtime::{
    traits::Dispatchable,
    BuildStorage, DispatchError, FixedPointNumber, FixedU128,
};

pub type Origin = RuntimeOrigin;
pub const T0: u64 = 1_600_000_000_000;

#[derive(Clone, Debug)]
pub struct Cfg {
    pub btc_confirmations: u32,
    pub para_confirmations: u32,
    pub difficulty_check: bool,
    pub secure: FixedU128,
    pub premium: FixedU128,
    pub liquidation: FixedU128,
    pub ceiling: Balance,
    pub punishment_delay: u32,
    pub issue_period: u32,
    pub redeem_period: u32,
    pub replace_period: u32,
    pub issue_dust: Balance,
    pub redeem_dust: Balance,
    pub replace_dust: Balance,
    pub redeem_tx_size: u32,
    pub issue_fee: FixedU128,
    pub issue_griefing: FixedU128,
    pub redeem_fee: FixedU128,
    pub premium_redeem_fee: FixedU128,
    pub punishment_fee: FixedU128,
    pub replace_griefing: FixedU128,
    pub min_collateral: Balance,
    pub accounts: u32,
    pub endowment: Balance,
    pub oracle_max_delay: u32,
    pub supply_start: u32,
    pub initial_supply: Balance,
    pub inflation: FixedU128,
    pub collaterals: Vec<CurrencyId>,
    pub candidacy_bond: Balance,
    pub desired_candidates: u32,
}
pub fn ratio(n: u128, d: u128) -> FixedU128 {
    FixedU128::checked_from_rational(n, d).unwrap()
}
impl Default for Cfg {
    fn default() -> Self {
        Cfg {
            btc_confirmations: 6,
            para_confirmations: 6,
            difficulty_check: false,
            secure: ratio(150, 100),
            premium: ratio(135, 100),
            liquidation: ratio(110, 100),
            ceiling: 1_000_000_000_000_000_000,
            punishment_delay: 8,
            issue_period: 10,
            redeem_period: 10,
            replace_period: 10,
            issue_dust: 2,
            redeem_dust: 1,
            replace_dust: 2,
            redeem_tx_size: 400,
            issue_fee: ratio(15, 10000),
            issue_griefing: ratio(5, 100000),
            redeem_fee: ratio(5, 1000),
            premium_redeem_fee: ratio(5, 100),
            punishment_fee: ratio(1, 10),
            replace_griefing: ratio(1, 10),
            min_collateral: 0,
            accounts: 12,
            endowment: 1_000_000_000_000,
            oracle_max_delay: 3_600_000,
            supply_start: YEARS * 5,
            initial_supply: token_distribution::INITIAL_ALLOCATION,
            inflation: ratio(2, 100),
            collaterals: vec![Token(DOT), Token(KSM), Token(INTR), ForeignAsset(1), LendToken(1)],
            candidacy_bond: 10,
            desired_candidates: 2,
        }
    }
}

pub fn acc(n: u32) -> AccountId {
    let mut b = [0u8; 32];
    b[..4].copy_from_slice(&(n + 1).to_le_bytes());
    b[31] = 0xa5;
    AccountId::from(b)
}
pub const ORACLE: u32 = 1000;
pub const RELAYER: u32 = 1001;
pub const FAUCET: u32 = 1002;

pub fn acc_name(a: &AccountId) -> String {
    let b: &[u8] = a.as_ref();
    if b[31] == 0xa5 && b[4..31].iter().all(|x| *x == 0) {
        format!("#{}", u32::from_le_bytes(b[..4].try_into().unwrap()) - 1)
    } else {
        String::from_utf8_lossy(&b[..12]).into_owned()
    }
}

pub fn genesis(c: &Cfg) -> sp_runtime::Storage {
    let mut s = frame_system::GenesisConfig::<Runtime>::default().build_storage().unwrap();
    let mut balances = vec![];
    for i in 0..c.accounts {
        let mut cs = c.collaterals.clone();
        if !cs.contains(&NATIVE) {
            cs.push(NATIVE);
        }
        for cur in cs {
            if !cur.is_lend_token() {
                balances.push((acc(i), cur, c.endowment));
            }
        }
    }
    orml_tokens::GenesisConfig::<Runtime> { balances }.assimilate_storage(&mut s).unwrap();
    oracle::GenesisConfig::<Runtime> {
        authorized_oracles: vec![(acc(ORACLE), BoundedVec::truncate_from(b"o".to_vec()))],
        max_delay: c.oracle_max_delay,
    }
    .assimilate_storage(&mut s)
    .unwrap();
    btc_relay::GenesisConfig::<Runtime> {
        bitcoin_confirmations: c.btc_confirmations,
        parachain_confirmations: c.para_confirmations,
        disable_difficulty_check: !c.difficulty_check,
        disable_inclusion_check: false,
    }
    .assimilate_storage(&mut s)
    .unwrap();
    let pairs: Vec<_> = c.collaterals.iter().map(|k| primitives::VaultCurrencyPair { collateral: *k, wrapped: WRAPPED }).collect();
    vault_registry::GenesisConfig::<Runtime> {
        minimum_collateral_vault: c.collaterals.iter().map(|k| (*k, c.min_collateral)).collect(),
        punishment_delay: c.punishment_delay,
        system_collateral_ceiling: pairs.iter().map(|p| (p.clone(), c.ceiling)).collect(),
        secure_collateral_threshold: pairs.iter().map(|p| (p.clone(), c.secure)).collect(),
        premium_redeem_threshold: pairs.iter().map(|p| (p.clone(), c.premium)).collect(),
        liquidation_collateral_threshold: pairs.iter().map(|p| (p.clone(), c.liquidation)).collect(),
    }
    .assimilate_storage(&mut s)
    .unwrap();
    issue::GenesisConfig::<Runtime> { issue_period: c.issue_period, issue_btc_dust_value: c.issue_dust }.assimilate_storage(&mut s).unwrap();
    redeem::GenesisConfig::<Runtime> {
        redeem_transaction_size: c.redeem_tx_size,
        redeem_period: c.redeem_period,
        redeem_btc_dust_value: c.redeem_dust,
    }
    .assimilate_storage(&mut s)
    .unwrap();
    replace::GenesisConfig::<Runtime> { replace_period: c.replace_period, replace_btc_dust_value: c.replace_dust }
        .assimilate_storage(&mut s)
        .unwrap();
    fee::GenesisConfig::<Runtime> {
        issue_fee: c.issue_fee,
        issue_griefing_collateral: c.issue_griefing,
        redeem_fee: c.redeem_fee,
        premium_redeem_fee: c.premium_redeem_fee,
        punishment_fee: c.punishment_fee,
        replace_griefing_collateral: c.replace_griefing,
    }
    .assimilate_storage(&mut s)
    .unwrap();
    loans::GenesisConfig::<Runtime> {
        max_exchange_rate: Rate::saturating_from_rational(1000, 1),
        min_exchange_rate: Rate::saturating_from_rational(2, 100),
        _marker: Default::default(),
    }
    .assimilate_storage(&mut s)
    .unwrap();
    supply::GenesisConfig::<Runtime> { initial_supply: c.initial_supply, start_height: c.supply_start, inflation: c.inflation }
        .assimilate_storage(&mut s)
        .unwrap();
    nomination::GenesisConfig::<Runtime> { is_nomination_enabled: true, _marker: Default::default() }.assimilate_storage(&mut s).unwrap();
    collator_selection::GenesisConfig::<Runtime> {
        invulnerables: vec![acc(2000)],
        candidacy_bond: c.candidacy_bond,
        desired_candidates: c.desired_candidates,
    }
    .assimilate_storage(&mut s)
    .unwrap();
    s
}

/// Runs `f` on a fresh chain at block 1.
thread_local! {
    static POOL: std::cell::RefCell<Option<Box<dyn Fn() -> Vec<Vec<u8>>>>> = std::cell::RefCell::new(None);
}
/// What the node's own worker submits in this block.
pub fn worker_submits() -> Vec<UncheckedExtrinsic> {
    use codec::Decode;
    POOL.with(|p| (p.borrow().as_ref().unwrap())());
    VaultRegistry::offchain_worker(now());
    POOL.with(|p| (p.borrow().as_ref().unwrap())()).into_iter().map(|b| UncheckedExtrinsic::decode(&mut &b[..]).unwrap()).collect()
}
pub fn with_world<T>(c: &Cfg, f: impl FnOnce() -> T) -> T {
    let mut ext = sp_io::TestExternalities::from(genesis(c));
    // where a node's own worker submits transactions
    let (pool, state) = sp_core::offchain::testing::TestTransactionPoolExt::new();
    ext.register_extension(sp_core::offchain::TransactionPoolExt::new(pool));
    POOL.with(|p| *p.borrow_mut() = Some(Box::new(move || std::mem::take(&mut state.write().transactions))));
    ext.execute_with(|| {
        System::set_block_number(0);
        Timestamp::set_timestamp(T0);
        next_block();
        f()
    })
}

pub fn now() -> BlockNumber {
    System::block_number()
}
pub fn active() -> BlockNumber {
    Security::active_block_number()
}
pub fn time_ms() -> u64 {
    Timestamp::now()
}

/// Ends the current block and starts block `n`, running every hook.
pub fn block_at(n: BlockNumber, dt: u64) {
    System::set_block_number(n);
    System::reset_events();
    // pallet order of the runtime
    Scheduler::run(n);
    let t = Timestamp::now() + dt;
    Timestamp::set_timestamp(t);
    Supply::on_initialize(n);
    EscrowAnnuity::on_initialize(n);
    VaultAnnuity::on_initialize(n);
    Farming::on_initialize(n);
    Security::on_initialize(n);
    Oracle::on_initialize(n);
    Democracy::on_initialize(n);
}
pub fn next_block() {
    block_at(now() + 1, MILLISECS_PER_BLOCK)
}
pub fn blocks(n: u32) {
    for _ in 0..n {
        next_block()
    }
}

pub fn signed(who: &AccountId) -> Origin {
    Origin::signed(who.clone())
}
pub fn call(origin: Origin, c: impl Into<RuntimeCall>) -> Result<(), DispatchError> {
    let c: RuntimeCall = c.into();
    c.dispatch(origin).map(|_| ()).map_err(|e| e.error)
}
pub fn by(who: &AccountId, c: impl Into<RuntimeCall>) -> Result<(), DispatchError> {
    call(signed(who), c)
}
pub fn root(c: impl Into<RuntimeCall>) -> Result<(), DispatchError> {
    call(Origin::root(), c)
}
/// Dispatch; a panic of the code under test is a violation of `case`.
pub fn act(case: &mut Case, sig: &str, origin: Origin, c: impl Into<RuntimeCall>) -> Option<Result<(), DispatchError>> {
    let c: RuntimeCall = c.into();
    let shown = format!("{:?}", c);
    let o = match frame_system::ensure_signed(origin.clone()).ok() {
        Some::<AccountId>(a) => acc_name(&a),
        None => "root/none".into(),
    };
    let n = now();
    let r = case.total(sig, || shown.clone(), || call(origin, c));
    case.log(|| format!("[{}] {} {} -> {}", n, o, short(&shown), r.as_ref().map(err_name).unwrap_or("PANIC".into())));
    r
}
pub fn short(s: &str) -> String {
    let mut s = s.replace("00000000000000000000000000000000000000000000000000000", "..");
    if s.len() > 420 {
        let mut i = 420;
        while !s.is_char_boundary(i) {
            i -= 1;
        }
        s.truncate(i);
        s.push('…');
    }
    s
}
pub fn err_name(r: &Result<(), DispatchError>) -> String {
    match r {
        Ok(()) => "ok".into(),
        Err(DispatchError::Module(m)) => m.message.unwrap_or("module error").to_string(),
        Err(e) => format!("{:?}", e),
    }
}
/// Snapshot-and-discard: runs `f` and rolls every storage change back.
pub fn dry<T>(f: impl FnOnce() -> T) -> T {
    use sp_runtime::TransactionOutcome;
    frame_support::storage::with_transaction(|| TransactionOutcome::Rollback(Result::<T, DispatchError>::Ok(f()))).unwrap()
}
pub fn events() -> Vec<RuntimeEvent> {
    System::events().into_iter().map(|e| e.event).collect()
}
pub fn free(c: CurrencyId, a: &AccountId) -> Balance {
    orml_tokens::Accounts::<Runtime>::get(a, c).free
}
pub fn reserved(c: CurrencyId, a: &AccountId) -> Balance {
    orml_tokens::Accounts::<Runtime>::get(a, c).reserved
}
pub fn total(c: CurrencyId, a: &AccountId) -> Balance {
    free(c, a) + reserved(c, a)
}
pub fn issuance(c: CurrencyId) -> Balance {
    <Tokens as orml_traits::MultiCurrency<AccountId>>::total_issuance(c)
}
pub fn set_balance(who: &AccountId, c: CurrencyId, new_free: Balance) {
    let r = reserved(c, who);
    root(orml_tokens::Call::<Runtime>::set_balance { who: who.clone(), currency_id: c, new_free, new_reserved: r }).expect("set_balance");
}
pub fn mint(who: &AccountId, c: CurrencyId, amount: Balance) {
    <Tokens as orml_traits::MultiCurrency<AccountId>>::deposit(c, who, amount).expect("mint");
}
/// (currency, account) -> (free, reserved) of every token account
pub fn ledger() -> std::collections::BTreeMap<(CurrencyId, AccountId), (Balance, Balance)> {
    orml_tokens::Accounts::<Runtime>::iter().map(|(a, c, d)| ((c, a), (d.free, d.reserved))).collect()
}
/// Every currency's issuance is the sum of its accounts.
pub fn check_issuance(case: &mut Case) -> bool {
    let mut sums: std::collections::BTreeMap<CurrencyId, Balance> = Default::default();
    for ((c, _), (f, r)) in ledger() {
        *sums.entry(c).or_default() += f + r;
    }
    let mut ok = true;
    for (c, s) in sums {
        let i = issuance(c);
        ok &= case.eq(i, s, "currency issuance differs from the sum of its accounts", || format!("{:?}", c));
    }
    ok
}
pub fn feed(v: Vec<(oracle::OracleKey, FixedU128)>) {
    by(&acc(ORACLE), oracle::Call::<Runtime>::feed_values { values: v }).expect("feed");
}
/// Sets the oracle's rate of a currency through the public path (feed + on_initialize).
pub fn set_rate(c: CurrencyId, rate: FixedU128) {
    feed(vec![(oracle::OracleKey::ExchangeRate(c), rate)]);
    Oracle::on_initialize(now());
}
pub fn set_fee_estimate(x: u128) {
    feed(vec![(oracle::OracleKey::FeeEstimation, FixedU128::saturating_from_integer(x))]);
    Oracle::on_initialize(now());
}

/// A block reward for vaults, all or nothing.
pub fn block_reward(from: &AccountId, amount: Balance) -> Result<(), DispatchError> {
    use annuity::BlockRewardProvider;
    frame_support::storage::with_storage_layer(|| VaultBlockRewardProvider::distribute_block_reward(from, amount))
}
