//! Z01, Z02, Y01: any transaction by anybody, in a chain where everything is in use.
use crate::gen::*;
use codec::{Decode, Encode};
use mon::{rand::Rng, *};
use primitives::{CurrencyId::*, Rate, Ratio};
use rt::{btc, runtime::*, world::*};
use sp_core::{Get, H256};
use sp_runtime::{DispatchError, FixedPointNumber, FixedU128};
use std::collections::BTreeMap;

const USERS: u32 = 6;
/// hold things and sign nothing after the start
const PASSIVE: [u32; 2] = [6, 7];
const OPS: [u32; 2] = [8, 9];
pub const E: u128 = 1_000_000_000_000_000;

type LC = loans::Call<Runtime>;
type DG = dex_general::Call<Runtime>;
type DS = dex_stable::Call<Runtime>;

fn key(i: u8) -> bitcoin::PublicKey {
    let k = [
        "0279be667ef9dcbbac55a06295ce870b07029bfcdb2dce28d959f2815b16f81798",
        "02c6047f9441ed7d6d3045406e95c07cd85c778e4b8cef3ca7abac09b95c709ee5",
    ][i as usize % 2];
    let v: Vec<u8> = (0..33).map(|i| u8::from_str_radix(&k[2 * i..2 * i + 2], 16).unwrap()).collect();
    bitcoin::PublicKey(v.try_into().unwrap())
}
fn curs() -> Vec<CurrencyId> {
    vec![NATIVE, RELAY, Token(KSM), WRAPPED, ForeignAsset(1)]
}
pub fn pair(a: CurrencyId, b: CurrencyId) -> Option<CurrencyId> {
    let (a, b) = if a < b { (a, b) } else { (b, a) };
    CurrencyId::join_lp_token(a, b)
}

/// Puts every part of the chain to use.
pub fn rich(r: &mut R) -> Pool {
    let all: Vec<AccountId> = (0..10).map(acc).collect();
    for a in &all {
        for c in curs() {
            if free(c, a) == 0 {
                mint(a, c, E);
            }
        }
    }
    btc::init(100, r);
    btc::mine_n(2, r);
    for (c, p) in [(RELAY, 10u128), (Token(KSM), 50), (NATIVE, 3), (ForeignAsset(1), 700)] {
        set_rate(c, FixedU128::from_inner(p * r.gen_range(1..1000u128) * 1_000_000_000_000_000));
    }
    set_fee_estimate(r.gen_range(1..5));
    // vaults
    let mut vaults = vec![];
    for (i, o) in OPS.iter().enumerate() {
        let o = acc(*o);
        by(&o, vault_registry::Call::<Runtime>::register_public_key { public_key: key(i as u8) }).expect("key");
        for c in [RELAY, Token(KSM)] {
            let pair = primitives::VaultCurrencyPair { collateral: c, wrapped: WRAPPED };
            by(&o, vault_registry::Call::<Runtime>::register_vault { currency_pair: pair.clone(), collateral: E / 4 }).expect("vault");
            if r.gen() {
                by(&o, nomination::Call::<Runtime>::opt_in_to_nomination { currency_pair: pair.clone() }).expect("opt in");
                by(&o, nomination::Call::<Runtime>::set_nomination_limit { currency_pair: pair, limit: E }).expect("limit");
            }
            vaults.push(VaultId::new(o.clone(), c, WRAPPED));
        }
    }
    // coins in custody
    for v in &vaults {
        let x = E / 1_000_000;
        if by(&acc(0), issue::Call::<Runtime>::request_issue { amount: x, vault_id: v.clone(), griefing_currency: NATIVE }).is_err() {
            continue;
        }
        let (id, q) = issues().into_iter().find(|q| q.1.status == primitives::issue::IssueRequestStatus::Pending).expect("request");
        let t = btc::tx(vec![btc::pay((q.amount + q.fee) as i64, &q.btc_address)], r);
        let b = btc::mine(vec![t], r);
        btc::mine_n(2, r);
        by(&acc(0), issue::Call::<Runtime>::execute_issue { issue_id: id, unchecked_transaction: btc::proof(&b, 1) }).expect("issue");
    }
    // markets
    let mut mk = loans::Market {
        close_factor: Ratio::from_percent(50),
        collateral_factor: Ratio::from_percent(50),
        liquidation_threshold: Ratio::from_percent(55),
        liquidate_incentive: Rate::from_inner(Rate::DIV / 100 * 110),
        liquidate_incentive_reserved_factor: Ratio::from_percent(3),
        rate_model: loans::InterestRateModel::new_jump_model(
            Rate::saturating_from_rational(2, 100),
            Rate::saturating_from_rational(10, 100),
            Rate::saturating_from_rational(32, 100),
            Ratio::from_percent(80),
        ),
        reserve_factor: Ratio::from_percent(15),
        state: loans::MarketState::Pending,
        supply_cap: E * 100,
        borrow_cap: E * 100,
        lend_token_id: LendToken(1),
    };
    let u: Vec<AccountId> = (0..USERS).map(acc).collect();
    let hold: Vec<AccountId> = PASSIVE.iter().map(|i| acc(*i)).collect();
    for (i, c) in [RELAY, Token(KSM), WRAPPED].iter().enumerate() {
        mk.lend_token_id = LendToken(i as u32 + 1);
        root(LC::add_market { asset_id: *c, market: mk.clone() }).expect("market");
        root(LC::activate_market { asset_id: *c }).expect("activate");
        for a in u.iter().take(3).chain(&hold) {
            by(a, LC::mint { asset_id: *c, mint_amount: E / 5 }).expect("lend");
        }
        for a in &hold {
            if r.gen() {
                by(a, LC::deposit_all_collateral { asset_id: *c }).expect("collateral");
            }
        }
        if r.gen() {
            root(LC::update_market_reward_speed { asset_id: *c, supply_reward_per_block: Some(1000), borrow_reward_per_block: Some(1000) }).expect("speed");
        }
    }
    let _ = by(&u[0], LC::add_reward { amount: E / 100 });
    by(&u[0], LC::deposit_all_collateral { asset_id: RELAY }).expect("collateral");
    let _ = by(&u[0], LC::borrow { asset_id: Token(KSM), borrow_amount: E / 1000 });
    let _ = by(&u[0], LC::borrow { asset_id: WRAPPED, borrow_amount: E / 10_000 });
    // exchanges
    let mut names = curs();
    names.extend((1..4).map(LendToken));
    for (a, b) in [(NATIVE, RELAY), (RELAY, WRAPPED), (Token(KSM), NATIVE)] {
        root(DG::create_pair { asset_0: a, asset_1: b, fee_rate: 30 }).expect("pair");
        for w in u.iter().take(2).chain(&hold) {
            by(w, DG::add_liquidity { asset_0: a, asset_1: b, amount_0_desired: E / 50, amount_1_desired: E / 70, amount_0_min: 0, amount_1_min: 0, deadline: 1_000 }).expect("liquidity");
        }
        names.extend(pair(a, b));
    }
    let _ = root(DG::bootstrap_create {
        asset_0: RELAY,
        asset_1: Token(KSM),
        target_supply_0: 1000,
        target_supply_1: 1000,
        capacity_supply_0: E,
        capacity_supply_1: E,
        end: r.gen_range(5..60),
        rewards: vec![NATIVE],
        limits: vec![],
    });
    let mut pool = |c: Vec<CurrencyId>, meta: bool| {
        let n = c.len();
        let (d, s) = (vec![12; n], vec![b'x']);
        let q = acc(3000);
        if meta {
            root(DS::create_meta_pool { currency_ids: c, currency_decimals: d.into_iter().take(n - 1).chain([18]).collect(), a: 100, fee: 4_000_000, admin_fee: 5_000_000_000, admin_fee_receiver: q, lp_currency_symbol: s })
        } else {
            root(DS::create_base_pool { currency_ids: c, currency_decimals: d, a: 200, fee: 4_000_000, admin_fee: 5_000_000_000, admin_fee_receiver: q, lp_currency_symbol: s })
        }
        .expect("stable pool")
    };
    pool(vec![RELAY, Token(KSM), ForeignAsset(1)], false);
    for w in u.iter().take(2).chain(&hold) {
        by(w, DS::add_liquidity { pool_id: 0, amounts: vec![E / 1000; 3], min_mint_amount: 0, to: w.clone(), deadline: 1000 }).expect("stable");
    }
    pool(vec![WRAPPED, StableLpToken(0)], true);
    for w in u.iter().take(2) {
        let lp = free(StableLpToken(0), w) / 2;
        by(w, DS::add_liquidity { pool_id: 1, amounts: vec![E / 100, lp], min_mint_amount: 0, to: w.clone(), deadline: 1000 }).expect("meta");
    }
    names.extend([StableLpToken(0), StableLpToken(1)]);
    // locks, farms, annuities, democracy
    mint(&Supply::account_id(), NATIVE, E);
    mint(&TreasuryAccount::get(), NATIVE, E);
    for w in u.iter().take(3).chain(&hold) {
        by(w, escrow::Call::<Runtime>::create_lock { amount: E / 20, unlock_height: WEEKS * r.gen_range(1..90) }).expect("lock");
    }
    for c in [StableLpToken(0), pair(NATIVE, RELAY).unwrap()] {
        root(farming::Call::<Runtime>::update_reward_schedule { pool_currency_id: c, reward_currency_id: NATIVE, period_count: 100, amount: E / 1000 }).expect("schedule");
        for w in u.iter().take(2).chain(&hold) {
            by(w, farming::Call::<Runtime>::deposit { pool_currency_id: c, length_rewards: 10 }).expect("farm");
        }
    }
    mint(&EscrowAnnuity::account_id(), NATIVE, E);
    mint(&VaultAnnuity::account_id(), NATIVE, E);
    let _ = root(annuity::Call::<Runtime, EscrowAnnuityInstance>::update_rewards {});
    let _ = root(annuity::Call::<Runtime, VaultAnnuityInstance>::update_rewards {});
    let mut p = Pool {
        accounts: all,
        currencies: names,
        vaults,
        bits: 50,
        wild: r.gen(),
        names: vec![("Tokens".into(), "transfer".into()), ("Loans".into(), "mint".into()), ("Issue".into(), "request_issue".into()), ("Nope".into(), "nope".into())],
        ..Default::default()
    };
    for s in [FeeAccount::get(), TreasuryAccount::get(), Supply::account_id(), acc(3000), acc(ORACLE)] {
        p.accounts.push(s);
    }
    p.groups = vec![
        vec![NATIVE, RELAY],
        vec![RELAY, WRAPPED],
        vec![Token(KSM), NATIVE],
        vec![RELAY, Token(KSM), ForeignAsset(1)],
        vec![RELAY, ForeignAsset(1)],
        vec![WRAPPED, StableLpToken(0)],
        vec![WRAPPED],
        vec![RELAY],
        vec![Token(KSM), RELAY],
        vec![StableLpToken(0)],
        vec![pair(NATIVE, RELAY).unwrap()],
        vec![LendToken(1)],
    ];
    p.bits = *pick(r, &[20, 35, 45, 50]);
    p
}
fn issues() -> Vec<(H256, issue::DefaultIssueRequest<Runtime>)> {
    (0..10).flat_map(|i| Issue::get_issue_requests_for_account(acc(i))).filter_map(|i| Issue::issue_requests(i).map(|q| (i, q))).collect()
}
fn redeems() -> Vec<(H256, redeem::DefaultRedeemRequest<Runtime>)> {
    (0..10).flat_map(|i| Redeem::get_redeem_requests_for_account(acc(i))).filter_map(|i| Redeem::redeem_requests(i).map(|q| (i, q))).collect()
}
fn replaces() -> Vec<(H256, replace::DefaultReplaceRequest<Runtime>)> {
    OPS.iter().flat_map(|i| Replace::get_replace_requests_for_old_vault(acc(*i))).filter_map(|i| Replace::get_open_replace_request(&i).ok().map(|q| (i, q))).collect()
}
/// learn what there is to name
pub fn refresh(p: &mut Pool, r: &mut R, who: &AccountId) {
    p.height = now();
    p.hashes = vec![];
    p.hashes.extend(issues().into_iter().map(|x| x.0));
    p.hashes.extend(redeems().into_iter().map(|x| x.0));
    p.hashes.extend(replaces().into_iter().map(|x| x.0));
    p.hashes.sort();
    let n = p.hashes.len().saturating_sub(6);
    p.hashes.drain(..n);
    p.amounts = p.currencies.iter().flat_map(|c| [free(*c, who), reserved(*c, who)]).filter(|x| *x > 0).collect();
    if p.addresses.is_empty() {
        for _ in 0..3 {
            p.addresses.push(btc::any_address(r).encode());
        }
    }
}
/// a bitcoin block that pays something
fn bitcoin_block(p: &mut Pool, r: &mut R) -> Option<RuntimeCall> {
    let mut kind = None;
    let mut outs = vec![];
    let iss: Vec<_> = issues();
    let red: Vec<_> = redeems();
    let rep: Vec<_> = replaces();
    match r.gen_range(0..3) {
        0 if !iss.is_empty() => {
            let (id, q) = pick(r, &iss);
            kind = Some((0, *id));
            let x = q.amount + q.fee;
            let x = if r.gen_ratio(2, 3) { x } else { log_uniform_u128(r, 50) };
            outs.push(btc::pay(x as i64, &q.btc_address));
        }
        1 if !red.is_empty() => {
            let (id, q) = pick(r, &red);
            kind = Some((1, *id));
            outs.push(btc::pay(q.amount_btc as i64, &q.btc_address));
            outs.push(btc::op_ret(0, id.as_bytes()));
        }
        _ if !rep.is_empty() => {
            let (id, q) = pick(r, &rep);
            kind = Some((2, *id));
            outs.push(btc::pay(q.amount as i64, &q.btc_address));
            outs.push(btc::op_ret(0, id.as_bytes()));
        }
        _ => outs.push(btc::pay(log_uniform_u128(r, 50) as i64, &btc::any_address(r))),
    }
    let t = btc::tx(outs, r);
    let b = btc::mine(vec![t], r);
    p.proofs.push(btc::proof(&b, 1).encode());
    if p.proofs.len() > 6 {
        p.proofs.remove(0);
    }
    let h = BTCRelay::get_best_block_height() + 1;
    let next = btc::block(BTCRelay::get_best_block(), h, vec![], 1_600_000_000 + h * 600, r);
    p.headers = vec![next.header.encode()];
    let unchecked_transaction = btc::proof(&b, 1);
    Some(match kind? {
        (0, issue_id) => issue::Call::<Runtime>::execute_issue { issue_id, unchecked_transaction }.into(),
        (1, redeem_id) => redeem::Call::<Runtime>::execute_redeem { redeem_id, unchecked_transaction }.into(),
        (_, replace_id) => replace::Call::<Runtime>::execute_replace { replace_id, unchecked_transaction }.into(),
    })
}

/// The name of a call.
pub fn name_of(c: &RuntimeCall) -> (String, String) {
    use frame_support::traits::GetCallMetadata;
    let m = c.get_call_metadata();
    (m.pallet_name.to_string(), m.function_name.to_string())
}
/// with_fee_swap_path dispatches another call
fn inner(c: &RuntimeCall) -> &RuntimeCall {
    match c {
        RuntimeCall::MultiTransactionPayment(multi_transaction_payment::Call::with_fee_swap_path { call, .. }) => inner(call),
        c => c,
    }
}
const BRIDGE: [&str; 4] = ["Issue", "Redeem", "Replace", "VaultRegistry"];
/// calls that may take tokens of another account: settlement of bridge requests, liquidation
fn may_take(p: &str, f: &str) -> bool {
    // (what is nominated to a vault lies with its operator)
    BRIDGE.contains(&p) || (p == "Loans" && f == "liquidate_borrow") || (p == "Nomination" && f == "withdraw_collateral")
}
/// whether a call of this pallet may create or destroy the currency
fn may_change(p: &str, c: CurrencyId) -> bool {
    match c {
        LendToken(_) => p == "Loans" || BRIDGE.contains(&p),
        LpToken(..) => p == "DexGeneral",
        StableLpToken(_) => p == "DexStable" || p == "DexSwapRouter",
        c if c == WRAPPED => BRIDGE.contains(&p),
        _ => false,
    }
}
/// the calls only governance may make
const PRIVILEGED: [(&str, &[&str]); 22] = [
    ("EscrowAnnuity", &["update_rewards", "set_reward_per_wrapped"]),
    ("VaultAnnuity", &["update_rewards", "set_reward_per_wrapped"]),
    ("ClientsInfo", &["set_current_client_release", "set_pending_client_release"]),
    ("CollatorSelection", &["set_invulnerables", "set_desired_candidates", "set_candidacy_bond"]),
    ("Democracy", &["fast_track", "table_proposal", "fast_track_referendum", "cancel_referendum", "clear_public_proposals", "spend_from_treasury"]),
    ("DexGeneral", &["set_fee_receiver", "set_fee_point", "set_exchange_fee", "create_pair", "bootstrap_create", "bootstrap_update", "bootstrap_withdraw_reward"]),
    ("DexStable", &["create_base_pool", "create_meta_pool", "update_fee_receiver", "set_swap_fee", "set_admin_fee", "ramp_a", "stop_ramp_a"]),
    ("Escrow", &["set_account_limit", "set_account_block"]),
    ("Farming", &["update_reward_schedule", "remove_reward_schedule"]),
    ("Fee", &["set_issue_fee", "set_issue_griefing_collateral", "set_redeem_fee", "set_premium_redeem_fee", "set_punishment_fee", "set_replace_griefing_collateral"]),
    ("Issue", &["set_issue_period"]),
    ("Redeem", &["set_redeem_period"]),
    ("Replace", &["set_replace_period"]),
    ("Loans", &["add_market", "activate_market", "update_rate_model", "update_market", "force_update_market", "update_market_reward_speed", "add_reserves", "reduce_reserves", "reduce_incentive_reserves"]),
    ("Nomination", &["set_nomination_enabled"]),
    ("Oracle", &["insert_authorized_oracle", "remove_authorized_oracle"]),
    ("Security", &["activate_counter"]),
    ("Supply", &["set_start_height_and_inflation"]),
    ("TxPause", &["pause", "unpause"]),
    ("VaultRegistry", &["set_minimum_collateral", "set_system_collateral_ceiling", "set_secure_collateral_threshold", "set_premium_redeem_threshold", "set_liquidation_collateral_threshold"]),
    ("Tokens", &["force_transfer", "set_balance"]),
    ("Timestamp", &["set"]),
];
pub fn privileged(p: &str, f: &str) -> bool {
    PRIVILEGED.iter().any(|(q, l)| *q == p && l.contains(&f))
}
fn state_root() -> Vec<u8> {
    sp_io::storage::root(sp_runtime::StateVersion::V1)
}
/// what `a` holds and has locked
fn holdings(a: u32) -> BTreeMap<CurrencyId, u128> {
    let mut m = BTreeMap::new();
    let who = acc(a);
    for (_, c, d) in orml_tokens::Accounts::<Runtime>::iter().filter(|x| x.0 == who).map(|(a, c, d)| (a, c, d)) {
        m.insert(c, d.free + d.reserved);
    }
    m
}
fn all_holdings() -> BTreeMap<AccountId, BTreeMap<CurrencyId, u128>> {
    let mut m: BTreeMap<AccountId, BTreeMap<CurrencyId, u128>> = BTreeMap::new();
    for (a, c, d) in orml_tokens::Accounts::<Runtime>::iter() {
        m.entry(a).or_default().insert(c, d.free + d.reserved);
    }
    m
}
pub fn cfg() -> Cfg {
    Cfg {
        accounts: 10,
        endowment: E,
        btc_confirmations: 1,
        para_confirmations: 0,
        issue_dust: 0,
        redeem_dust: 0,
        replace_dust: 0,
        collaterals: vec![RELAY, Token(KSM), ForeignAsset(1)],
        supply_start: 1_000_000_000,
        ..Default::default()
    }
}
fn hist(case: &mut Case, r: &mut R, calls: &Calls, prop: &str) {
    with_world(&cfg(), || {
        let Some(mut p) = case.total("setup", String::new, || rich(r)) else { return };
        let usable: Vec<usize> = (0..calls.all.len()).filter(|i| { let c = &calls.all[*i]; c.0 != "System" && c.0 != "Timestamp" && c.0 != "Preimage" && !privileged(&c.0, &c.2) }).collect();
        // some histories stay within a few pallets
        let focus: Vec<usize> = if r.gen() {
            let names: Vec<String> = (0..3).map(|_| calls.all[*pick(r, &usable)].0.clone()).collect();
            usable.iter().copied().filter(|i| names.contains(&calls.all[*i].0)).collect()
        } else {
            usable.clone()
        };
        let before: Vec<_> = PASSIVE.iter().map(|i| (*i, holdings(*i))).collect();
        let supply: BTreeMap<CurrencyId, u128> = p.currencies.iter().map(|c| (*c, issuance(*c))).collect();
        let locks: Vec<_> = PASSIVE.iter().map(|i| escrow::Locked::<Runtime>::get(acc(*i)).amount).collect();
        for _ in 0..r.gen_range(20..80) {
            let mut next_call = None;
            match r.gen_range(0..24) {
                0..=2 => {
                    let n = *pick(r, &[1u32, 1, 2, 5, 12, 40]);
                    let dt = if r.gen_ratio(1, 10) { 3_600_000 } else { MILLISECS_PER_BLOCK };
                    let ok = case.total("a block's own work panics", || format!("block {} +{n}", now()), || {
                        for _ in 0..n {
                            block_at(now() + 1, dt);
                        }
                    });
                    if ok.is_none() { return }
                    if r.gen() {
                        // prices move a little
                        for c in [RELAY, Token(KSM), NATIVE, ForeignAsset(1)] {
                            let x = FixedU128::from_inner(r.gen_range(1..1000u128) * 100_000_000_000_000_000);
                            feed(vec![(oracle::OracleKey::ExchangeRate(c), x)]);
                        }
                        set_fee_estimate(r.gen_range(1..5));
                    }
                    continue;
                }
                3 | 4 => {
                    if r.gen() {
                        btc::mine_n(1, r);
                    }
                    next_call = bitcoin_block(&mut p, r).filter(|_| r.gen());
                    if next_call.is_none() { continue }
                    if r.gen() { btc::mine_n(2, r) }
                }
                _ => (),
            }
            let k = r.gen_range(0..USERS + 2);
            let who = if k < USERS { acc(k) } else { acc(OPS[(k - USERS) as usize]) };
            refresh(&mut p, r, &who);
            let from = if r.gen_ratio(3, 4) { &focus } else { &usable };
            let i = *pick(r, from);
            let Some(c) = next_call.or_else(|| calls.draw(i, r, &p)) else { continue };
            let (pn, fname) = name_of(inner(&c));
            let was = if prop == "Z02" { all_holdings() } else { Default::default() };
            let iss: BTreeMap<CurrencyId, u128> = p.currencies.iter().map(|c| (*c, issuance(*c))).collect();
            let rootb = if prop == "Z01" && r.gen_ratio(1, 8) { Some(state_root()) } else { None };
            let Some(out) = act(case, "a transaction panics", signed(&who), c.clone()) else { return };
            case.eval(1);
            case.event(if out.is_ok() { "transaction made" } else { "transaction refused" });
            if out.is_ok() {
                case.event(&format!("{pn}.{fname}"));
                case.state_dbg(&inner(&c));
            }
            if let (Some(b), Err(_)) = (&rootb, &out) {
                case.event("refused and compared");
                if !case.check(*b == state_root(), "a refused transaction leaves a trace", || format!("{pn}.{fname}")) { return }
            }
            if prop != "Z02" { continue }
            let is = all_holdings();
            for (c, x) in &iss {
                let y = issuance(*c);
                if !case.check(*x == y || (out.is_ok() && may_change(&pn, *c)), "a transaction creates or destroys tokens it has no business with", || format!("{pn}.{fname}: {c:?} {x} -> {y}")) { return }
            }
            for (a, m) in &was {
                if *a == who || may_take(&pn, &fname) || !acc_name(a).starts_with('#') { continue }
                for (c, x) in m {
                    let y = is.get(a).and_then(|m| m.get(c)).copied().unwrap_or(0);
                    if !case.check(y >= *x, "a transaction takes tokens of an account that did not sign it", || format!("{pn}.{fname} by {}: {} lost {} {c:?}", acc_name(&who), acc_name(a), x - y)) { return }
                }
            }
            case.eval(is.len() as u64);
        }
        if prop == "Z02" {
            for (i, m) in &before {
                let is = holdings(*i);
                for (c, x) in m {
                    let y = is.get(c).copied().unwrap_or(0);
                    if !case.check(y >= *x, "an account that signed nothing has lost tokens", || format!("#{i}: {x} -> {y} {c:?}")) { return }
                }
                case.event("bystander kept everything");
            }
            for (k, i) in PASSIVE.iter().enumerate() {
                case.eq(escrow::Locked::<Runtime>::get(acc(*i)).amount, locks[k], "an account that signed nothing has lost tokens", || format!("lock of #{i}"));
            }
            for (c, x) in &supply {
                if [NATIVE, RELAY, Token(KSM), ForeignAsset(1)].contains(c) {
                    case.eq(issuance(*c), *x, "a currency the chain does not issue here was created or destroyed", || format!("{c:?}"));
                }
            }
        }
        if r.gen_ratio(1, 8) {
            check_issuance(case);
        }
    })
}
/// Y01: privileged calls by everyone
fn auth(case: &mut Case, r: &mut R, calls: &Calls) {
    with_world(&cfg(), || {
        let Some(mut p) = case.total("setup", String::new, || rich(r)) else { return };
        p.wild = false;
        let privd: Vec<usize> = (0..calls.all.len()).filter(|i| privileged(&calls.all[*i].0, &calls.all[*i].2)).collect();
        let open: Vec<usize> = (0..calls.all.len()).filter(|i| { let c = &calls.all[*i]; !privileged(&c.0, &c.2) && c.0 != "System" }).collect();
        let start = state_root();
        for _ in 0..60 {
            let k = r.gen_range(0..10);
            let who = acc(k);
            refresh(&mut p, r, &who);
            if r.gen_ratio(1, 12) {
                next_block();
            }
            if r.gen_ratio(3, 4) {
                let i = *pick(r, &privd);
                let Some(c) = calls.draw(i, r, &p) else { continue };
                let (pn, f) = name_of(&c);
                // would governance get it through?
                let as_root = case.total("governance's call panics", || format!("{c:?}"), || dry(|| root(c.clone())));
                let Some(as_root) = as_root else { return };
                if (pn.as_str(), f.as_str()) != ("Timestamp", "set") {
                    if !case.check(as_root != Err(DispatchError::BadOrigin), "governance is refused what only it may do", || format!("{pn}.{f}")) { return }
                }
                let before = state_root();
                let o = if r.gen_ratio(1, 4) { Origin::none() } else { signed(&who) };
                let none = frame_system::ensure_none(o.clone()).is_ok();
                if none && pn == "Timestamp" { continue }
                let Some(out) = act(case, "a privileged call panics", o, c.clone()) else { return };
                if !case.check(out.is_err(), "a privileged call is open to everybody", || format!("{pn}.{f}")) { return }
                if !case.check(state_root() == before, "a refused privileged call leaves a trace", || format!("{pn}.{f}")) { return }
                case.event(if as_root.is_ok() { "refused what governance could do" } else { "refused" });
                if as_root.is_ok() {
                    case.event(&format!("refused {pn}.{f}"));
                    case.state_dbg(&(pn, f));
                }
                case.eval(1);
            } else {
                // calls of accounts need an account
                let i = *pick(r, &open);
                let Some(c) = calls.draw(i, r, &p) else { continue };
                let (pn, f) = name_of(inner(&c));
                // inherents belong to the block's author; unsigned transactions are refused before dispatch
                if pn == "Timestamp" || pn == "System" { continue }
                let before = state_root();
                let Some(out) = act(case, "an unsigned call panics", Origin::none(), c.clone()) else { return };
                if pn == "Democracy" && f == "cancel_proposal" { continue }
                if !case.check(out.is_err(), "an account's call is open to nobody in particular", || format!("{pn}.{f}")) { return }
                if !case.check(state_root() == before, "a refused unsigned call leaves a trace", || format!("{pn}.{f}")) { return }
                case.event("unsigned refused");
                case.eval(1);
            }
        }
        let _ = start;
    })
}
/// accounts act on what is theirs only
pub fn run(m: &Mon) {
    let calls = Calls::new();
    let p = m.prop.clone();
    match p.as_str() {
        "Y01" => {
            m.rule("histories: in a chain where every part is in use, 60 calls of any pallet with arguments drawn by type from what exists there. Calls only governance may make are tried by any account and by no account, and first by governance on a rolled-back copy to see whether they would work; calls of accounts are tried by no account. The state's root hash is compared before and after. A state is a distinct privileged call that governance could have made.");
            m.stream("attempts", 600, 20, |case, r| auth(case, r, &calls));
            m.require("refused what governance could do", 5000);
            m.require("unsigned refused", 3000);
        }
        _ => {
            if p == "Z01" {
                m.rule("histories: a chain where every part is in use (vaults with coins in custody, nominations, markets with debts, exchanges, stable pools, farms, locks, rewards), then 20..80 steps: any call of any pallet by any of eight accounts with arguments drawn by type, from what exists there or wild, now and then with bytes gone wrong; bitcoin payments and proofs; blocks with price changes. Built with overflow checks. A state is a distinct call that succeeded.");
            } else {
                m.rule("histories as of the no-panic monitor; around every transaction the tokens of every account and the amount of every currency in existence are compared, and at the end the holdings of two accounts that signed nothing. A state is a distinct call that succeeded.");
            }
            m.stream("anything", if p == "Z01" { 3000 } else { 2000 }, 20, |case, r| hist(case, r, &calls, &p));
            for (e, n) in [("transaction made", 5000), ("Issue.request_issue", 100), ("Issue.execute_issue", 5), ("Redeem.request_redeem", 100), ("Redeem.execute_redeem", 10), ("Replace.accept_replace", 50), ("Nomination.deposit_collateral", 100), ("Loans.mint", 100), ("Loans.redeem", 30), ("Loans.borrow", 20), ("DexGeneral.add_liquidity", 40), ("DexStable.swap", 10), ("DexStable.add_liquidity", 30), ("DexSwapRouter.swap_exact_tokens_for_tokens", 30), ("Farming.withdraw", 30), ("Escrow.increase_amount", 100), ("BTCRelay.store_block_header", 100)] {
                m.require(e, n);
            }
            m.require(if p == "Z01" { "refused and compared" } else { "bystander kept everything" }, 1000);
        }
    }
    let _ = H256::zero();
    let _ = RuntimeCall::decode(&mut &[][..]);
}
