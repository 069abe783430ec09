//! Z03: what the chain announces of its markets, exchanges, farms, locks, prices and settings is
//! what happened.
use crate::{g_any::*, gen::*};
use codec::Encode;
use dex_general::PairStatus;
use frame_support::pallet_prelude::*;
use mon::{rand::Rng, *};
use primitives::CurrencyId::*;
use rt::{runtime::*, world::*};
use sp_runtime::{FixedPointNumber, FixedU128};
use std::collections::{BTreeMap, BTreeSet};

type LC = loans::Call<Runtime>;
type DG = dex_general::Call<Runtime>;
type DS = dex_stable::Call<Runtime>;
type LE = loans::Event<Runtime>;
type GE = dex_general::Event<Runtime>;
type SE = dex_stable::Event<Runtime>;
type FE = farming::Event<Runtime>;
type EV = RuntimeEvent;
type Ledger = BTreeMap<(CurrencyId, AccountId), (u128, u128)>;

fn sorted(a: CurrencyId, b: CurrencyId) -> (CurrencyId, CurrencyId) {
    if a < b { (a, b) } else { (b, a) }
}
fn user(a: &AccountId) -> bool {
    acc_name(a).starts_with('#')
}
fn total_of(l: &Ledger, c: CurrencyId, a: &AccountId) -> i128 {
    l.get(&(c, a.clone())).map(|x| (x.0 + x.1) as i128).unwrap_or(0)
}
fn reserved_of(l: &Ledger, c: CurrencyId, a: &AccountId) -> i128 {
    l.get(&(c, a.clone())).map(|x| x.1 as i128).unwrap_or(0)
}
/// What was so before the call.
struct Before {
    ledger: Ledger,
    issued: BTreeMap<CurrencyId, u128>,
    accrued: BTreeMap<AccountId, u128>,
    indexes: BTreeMap<CurrencyId, FixedU128>,
    given: BTreeMap<((CurrencyId, CurrencyId), AccountId), (u128, u128)>,
    rewards: BTreeMap<(CurrencyId, CurrencyId), BTreeMap<CurrencyId, u128>>,
    locked: BTreeMap<AccountId, u128>,
    events: usize,
}
fn now_is() -> Before {
    let mut rewards = BTreeMap::new();
    for ((a, b), m) in dex_general::BootstrapRewards::<Runtime>::iter() {
        rewards.insert((a, b), m.into_iter().collect());
    }
    Before {
        ledger: ledger(),
        issued: (0..4).map(|i| (StableLpToken(i), issuance(StableLpToken(i)))).collect(),
        accrued: loans::RewardAccrued::<Runtime>::iter().collect(),
        indexes: loans::BorrowIndex::<Runtime>::iter().collect(),
        given: dex_general::BootstrapPersonalSupply::<Runtime>::iter().map(|((p, a), x)| ((p, a), x)).collect(),
        rewards,
        locked: (0..10).map(|i| (acc(i), escrow::Locked::<Runtime>::get(acc(i)).amount)).collect(),
        events: System::events().len(),
    }
}
type Moves = BTreeMap<(CurrencyId, AccountId), i128>;
fn mv(m: &mut Moves, c: CurrencyId, a: &AccountId, x: i128) {
    *m.entry((c, a.clone())).or_default() += x;
}
fn pool(id: StablePoolId) -> Option<(Vec<CurrencyId>, CurrencyId, AccountId, AccountId, Option<StablePoolId>)> {
    let p = DexStable::pools(id)?;
    let i = p.info();
    let base = i.currency_ids.iter().find_map(|c| match c { StableLpToken(b) if DexStable::lp_currencies(c).is_some() => Some(*b), _ => None });
    Some((i.currency_ids.to_vec(), i.lp_currency_id, i.account, i.admin_fee_receiver, base))
}
/// The transfers an event tells of.
fn told(e: &EV, who: Option<&AccountId>, was: &Before, supply: &mut BTreeMap<CurrencyId, u128>, m: &mut Moves) {
    match e {
        EV::Loans(e) => match e {
            LE::Deposited { account_id, currency_id, amount } | LE::RepaidBorrow { account_id, currency_id, amount } => mv(m, *currency_id, account_id, -(*amount as i128)),
            LE::Redeemed { account_id, currency_id, amount } | LE::Borrowed { account_id, currency_id, amount } => mv(m, *currency_id, account_id, *amount as i128),
            LE::LiquidatedBorrow { liquidator, liquidation_currency_id, repay_amount, .. } => mv(m, *liquidation_currency_id, liquidator, -(*repay_amount as i128)),
            LE::ReservesReduced { receiver, currency_id, amount, .. } | LE::IncentiveReservesReduced { receiver, currency_id, amount } => mv(m, *currency_id, receiver, *amount as i128),
            LE::ReservesAdded { payer, currency_id, amount, .. } => mv(m, *currency_id, payer, -(*amount as i128)),
            LE::RewardAdded { payer, amount } => mv(m, NATIVE, payer, -(*amount as i128)),
            LE::RewardWithdrawn { receiver, amount } | LE::RewardPaid { receiver, amount } => mv(m, NATIVE, receiver, *amount as i128),
            _ => (),
        },
        EV::DexGeneral(e) => match e {
            GE::LiquidityAdded { owner, asset_0, asset_1, add_balance_0, add_balance_1, mint_balance_lp } => {
                mv(m, *asset_0, owner, -(*add_balance_0 as i128));
                mv(m, *asset_1, owner, -(*add_balance_1 as i128));
                if let Some(l) = DexGeneral::lp_pairs(sorted(*asset_0, *asset_1)) {
                    mv(m, l, owner, *mint_balance_lp as i128);
                }
            }
            GE::LiquidityRemoved { owner, recipient, asset_0, asset_1, rm_balance_0, rm_balance_1, burn_balance_lp } => {
                mv(m, *asset_0, recipient, *rm_balance_0 as i128);
                mv(m, *asset_1, recipient, *rm_balance_1 as i128);
                if let Some(l) = DexGeneral::lp_pairs(sorted(*asset_0, *asset_1)) {
                    mv(m, l, owner, -(*burn_balance_lp as i128));
                }
            }
            GE::AssetSwap { owner, recipient, swap_path, balances } => {
                if let (Some(a), Some(b), Some(x), Some(y)) = (swap_path.first(), swap_path.last(), balances.first(), balances.last()) {
                    mv(m, *a, owner, -(*x as i128));
                    mv(m, *b, recipient, *y as i128);
                }
            }
            GE::BootstrapContribute { who, asset_0, asset_1, asset_0_contribute, asset_1_contribute } => {
                mv(m, *asset_0, who, -(*asset_0_contribute as i128));
                mv(m, *asset_1, who, -(*asset_1_contribute as i128));
            }
            GE::BootstrapRefund { caller, asset_0, asset_1, asset_0_refund, asset_1_refund, .. } => {
                mv(m, *asset_0, caller, *asset_0_refund as i128);
                mv(m, *asset_1, caller, *asset_1_refund as i128);
            }
            GE::BootstrapClaim { receiver, asset_0, asset_1, lp_amount, .. } => {
                if let Some(l) = DexGeneral::lp_pairs(sorted(*asset_0, *asset_1)) {
                    mv(m, l, receiver, *lp_amount as i128);
                }
            }
            GE::DistributeReward { rewards, .. } => {
                if let Some(w) = who {
                    for (c, x) in rewards {
                        mv(m, *c, w, *x as i128);
                    }
                }
            }
            GE::ChargeReward { who, charge_rewards, .. } => {
                for (c, x) in charge_rewards {
                    mv(m, *c, who, -(*x as i128));
                }
            }
            GE::WithdrawReward { asset_0, asset_1, recipient } => {
                for (c, x) in was.rewards.get(&(*asset_0, *asset_1)).into_iter().flatten() {
                    mv(m, *c, recipient, *x as i128);
                }
            }
            _ => (),
        },
        EV::DexStable(e) => match e {
            SE::AddLiquidity { pool_id, who, to, supply_amounts, mint_amount, .. } => {
                let Some((c, lp, ..)) = pool(*pool_id) else { return };
                for (c, x) in c.iter().zip(supply_amounts) {
                    mv(m, *c, who, -(*x as i128));
                }
                mv(m, lp, to, *mint_amount as i128);
                *supply.entry(lp).or_default() += mint_amount;
            }
            SE::CurrencyExchange { pool_id, who, to, in_index, in_amount, out_index, out_amount } => {
                let Some((c, ..)) = pool(*pool_id) else { return };
                mv(m, c[*in_index as usize], who, -(*in_amount as i128));
                mv(m, c[*out_index as usize], to, *out_amount as i128);
            }
            SE::CurrencyExchangeUnderlying { pool_id, account, in_amount, out_amount, currency_index_from, currency_index_to, to } => {
                let Some((c, .., Some(base))) = pool(*pool_id) else { return };
                let Some((b, lp, ..)) = pool(base) else { return };
                let all: Vec<CurrencyId> = c.into_iter().filter(|x| *x != lp).chain(b).collect();
                mv(m, all[*currency_index_from as usize], account, -(*in_amount as i128));
                mv(m, all[*currency_index_to as usize], to, *out_amount as i128);
            }
            SE::RemoveLiquidity { pool_id, who, to, amounts, new_total_supply, .. } | SE::RemoveLiquidityImbalance { pool_id, who, to, amounts, new_total_supply, .. } => {
                let Some((c, lp, ..)) = pool(*pool_id) else { return };
                for (c, x) in c.iter().zip(amounts) {
                    mv(m, *c, to, *x as i128);
                }
                let had = supply.insert(lp, *new_total_supply).unwrap_or(0);
                mv(m, lp, who, *new_total_supply as i128 - had as i128);
            }
            SE::RemoveLiquidityOneCurrency { pool_id, who, to, out_index, burn_amount, out_amount } => {
                let Some((c, lp, ..)) = pool(*pool_id) else { return };
                mv(m, c[*out_index as usize], to, *out_amount as i128);
                mv(m, lp, who, -(*burn_amount as i128));
                *supply.entry(lp).or_default() -= (*burn_amount).min(supply[&lp]);
            }
            SE::CollectProtocolFee { pool_id, currency_id, fee_amount } => {
                let Some((.., to, _)) = pool(*pool_id) else { return };
                mv(m, *currency_id, &to, *fee_amount as i128);
            }
            _ => (),
        },
        EV::Farming(FE::RewardClaimed { account_id, reward_currency_id, amount, .. }) => mv(m, *reward_currency_id, account_id, *amount as i128),
        _ => (),
    }
}
const MOVED: &str = "tokens moved otherwise than announced";
const SAID: &str = "an event does not say what happened";
const MISSING: &str = "something happened and was not announced";

/// Every transfer was announced, and nothing else was.
fn transfers(case: &mut Case, pn: &str, who: Option<&AccountId>, was: &Before, evs: &[EV], shown: &dyn Fn() -> String) -> bool {
    let mut m = Moves::new();
    let mut supply = was.issued.clone();
    let mut collateral = Moves::new();
    let mut seized = false;
    for e in evs {
        told(e, who, was, &mut supply, &mut m);
        match e {
            EV::Loans(LE::DepositCollateral { account_id, currency_id, amount }) => mv(&mut collateral, *currency_id, account_id, *amount as i128),
            EV::Loans(LE::WithdrawCollateral { account_id, currency_id, amount }) => mv(&mut collateral, *currency_id, account_id, -(*amount as i128)),
            EV::Loans(LE::LiquidatedBorrow { .. }) => seized = true,
            _ => (),
        }
    }
    let is = ledger();
    let fees = DexGeneral::fee_meta().0;
    let keys: BTreeSet<_> = was.ledger.keys().chain(is.keys()).chain(m.keys()).cloned().collect();
    for (c, a) in keys {
        if !user(&a) { continue }
        let lend = matches!(c, LendToken(_));
        if !(lend && pn == "Loans") && !(matches!(c, LpToken(..)) && fees.as_ref() == Some(&a)) {
            let got = total_of(&is, c, &a) - total_of(&was.ledger, c, &a);
            let want = m.get(&(c, a.clone())).copied().unwrap_or(0);
            if got != 0 { case.event("movement announced") }
            if !case.check(got == want, MOVED, || format!("{}: {} moved {got} {c:?}, announced {want}: {evs:?}", shown(), acc_name(&a))) { return false }
        }
        if lend && !seized {
            let got = reserved_of(&is, c, &a) - reserved_of(&was.ledger, c, &a);
            let want = collateral.get(&(c, a.clone())).copied().unwrap_or(0);
            if got != 0 { case.event("collateral announced") }
            if pn == "Farming" { continue }
            if !case.check(got == want, MOVED, || format!("{}: {} locked {got} {c:?}, announced {want}: {evs:?}", shown(), acc_name(&a))) { return false }
        }
    }
    true
}
/// Facts an event of a lending market states.
fn markets(case: &mut Case, was: &Before, evs: &[EV], shown: &dyn Fn() -> String) -> bool {
    let mut seen = BTreeSet::new();
    let mut earned: BTreeMap<AccountId, i128> = BTreeMap::new();
    let mut ok = true;
    let touched = |c: &CurrencyId| evs.iter().any(|e| match e {
        EV::Loans(LE::Borrowed { currency_id, .. } | LE::RepaidBorrow { currency_id, .. } | LE::LiquidatedBorrow { liquidation_currency_id: currency_id, .. } | LE::ReservesAdded { currency_id, .. } | LE::ReservesReduced { currency_id, .. }) => currency_id == c,
        _ => false,
    });
    for e in evs {
        let EV::Loans(e) = e else { continue };
        match e {
            LE::InterestAccrued { underlying_currency_id: c, total_borrows, total_reserves, borrow_index, utilization_ratio, borrow_rate, supply_rate, exchange_rate } => {
                seen.insert(*c);
                let got = (*borrow_index, *utilization_ratio, *borrow_rate, *supply_rate, *exchange_rate);
                let want = (Loans::borrow_index(c), Loans::utilization_ratio(c), Loans::borrow_rate(c), Loans::supply_rate(c), Loans::exchange_rate(c));
                ok &= case.eq(got, want, SAID, || format!("{}: {c:?} (index, utilization, rates) {e:?}", shown()));
                if !touched(c) {
                    let want = (loans::TotalBorrows::<Runtime>::get(c), loans::TotalReserves::<Runtime>::get(c));
                    ok &= case.eq((*total_borrows, *total_reserves), want, SAID, || format!("{}: {c:?} {e:?}", shown()));
                    case.event("interest announced");
                }
            }
            LE::DistributedSupplierReward { supplier: a, reward_delta, supply_reward_index, underlying_currency_id: c } => {
                *earned.entry(a.clone()).or_default() += *reward_delta as i128;
                ok &= case.eq(*supply_reward_index, Loans::reward_supply_state(c).index, SAID, || format!("{}: {e:?}", shown()));
                if *reward_delta > 0 { case.event("reward distributed") }
            }
            LE::DistributedBorrowerReward { borrower: a, reward_delta, borrow_reward_index, underlying_currency_id: c } => {
                *earned.entry(a.clone()).or_default() += *reward_delta as i128;
                ok &= case.eq(*borrow_reward_index, Loans::reward_borrow_state(c).index, SAID, || format!("{}: {e:?}", shown()));
            }
            LE::RewardPaid { receiver, amount } => *earned.entry(receiver.clone()).or_default() -= *amount as i128,
            LE::ReservesAdded { currency_id, new_reserve_amount, .. } | LE::ReservesReduced { currency_id, new_reserve_amount, .. } => {
                ok &= case.eq(*new_reserve_amount, loans::TotalReserves::<Runtime>::get(currency_id), SAID, || format!("{}: {e:?}", shown()));
                case.event("reserves announced");
            }
            LE::NewMarket { underlying_currency_id: c, market } | LE::UpdatedMarket { underlying_currency_id: c, market } => {
                ok &= case.eq(Some(market.clone()), Loans::market(*c).ok(), SAID, || format!("{}: {e:?}", shown()));
                case.event("market announced");
            }
            LE::ActivatedMarket { underlying_currency_id: c } => {
                ok &= case.check(Loans::market(*c).map(|m| m.state == loans::MarketState::Active).unwrap_or(false), SAID, || format!("{}: {e:?}", shown()));
            }
            LE::MarketRewardSpeedUpdated { underlying_currency_id: c, supply_reward_per_block, borrow_reward_per_block } => {
                ok &= case.eq((*supply_reward_per_block, *borrow_reward_per_block), (Loans::reward_supply_speed(c), Loans::reward_borrow_speed(c)), SAID, || format!("{}: {e:?}", shown()));
                case.event("speed announced");
            }
            LE::LiquidatedBorrow { liquidator, borrower, collateral_currency_id: c, collateral_underlying_amount, .. } => {
                let Ok(m) = Loans::market(*c) else { continue };
                let is = ledger();
                let l = m.lend_token_id;
                let lost = total_of(&was.ledger, l, borrower) - total_of(&is, l, borrower);
                let rate = Loans::exchange_rate(c);
                let worth = mul_div(*collateral_underlying_amount, FixedU128::DIV, rate.into_inner());
                if liquidator != borrower {
                    ok &= case.check((lost - worth).abs() <= 1, MOVED, || format!("{}: {} shares at {rate:?}, borrower lost {lost}: {e:?}", shown(), worth));
                    case.event("liquidation announced");
                }
            }
            _ => (),
        }
    }
    for (c, i) in loans::BorrowIndex::<Runtime>::iter() {
        let moved = was.indexes.get(&c) != Some(&i);
        ok &= case.check(!moved || seen.contains(&c), MISSING, || format!("{}: {c:?} accrued interest: {evs:?}", shown()));
    }
    let is: BTreeMap<AccountId, u128> = loans::RewardAccrued::<Runtime>::iter().collect();
    for a in was.accrued.keys().chain(is.keys()).chain(earned.keys()).collect::<BTreeSet<_>>() {
        let got = is.get(a).copied().unwrap_or(0) as i128 - was.accrued.get(a).copied().unwrap_or(0) as i128;
        let want = earned.get(a).copied().unwrap_or(0);
        ok &= case.check(got == want, SAID, || format!("{}: rewards of {} went by {got}, announced {want}: {evs:?}", shown(), acc_name(a)));
    }
    ok
}
fn mul_div(a: u128, b: u128, c: u128) -> i128 {
    (sp_core::U256::from(a) * sp_core::U256::from(b) / sp_core::U256::from(c.max(1))).as_u128() as i128
}
/// Facts stated by the exchanges, farms, locks, prices and settings.
fn facts(case: &mut Case, was: &Before, evs: &[EV], shown: &dyn Fn() -> String) -> bool {
    let mut ok = true;
    for e in evs {
        let why = || format!("{}: {e:?}", shown());
        match e {
            EV::DexGeneral(e) => match e {
                GE::NewFeePoint { new_fee_point } => ok &= case.eq(*new_fee_point, DexGeneral::fee_meta().1, SAID, why),
                GE::NewFeeRate { asset_0, asset_1, new_fee_rate: fee_rate } | GE::PairCreated { asset_0, asset_1, fee_rate } => {
                    let s = DexGeneral::pair_status(sorted(*asset_0, *asset_1));
                    ok &= case.check(matches!(&s, PairStatus::Trading(m) if m.fee_rate == *fee_rate), SAID, || format!("{}; {s:?}", why()));
                    case.event("pair announced");
                }
                GE::BootstrapCreated { bootstrap_pair_account, asset_0, asset_1, total_supply_0, total_supply_1, capacity_supply_0, capacity_supply_1, end }
                | GE::BootstrapUpdate { bootstrap_pair_account, asset_0, asset_1, total_supply_0, total_supply_1, capacity_supply_0, capacity_supply_1, end } => {
                    if let PairStatus::Bootstrap(p) = DexGeneral::pair_status((*asset_0, *asset_1)) {
                        let got = (bootstrap_pair_account.clone(), (*total_supply_0, *total_supply_1), (*capacity_supply_0, *capacity_supply_1), *end);
                        let want = (p.pair_account, p.target_supply, p.capacity_supply, p.end_block_number);
                        ok &= case.eq(got, want, SAID, why);
                        case.event(if matches!(e, GE::BootstrapCreated { .. }) { "bootstrap announced" } else { "bootstrap update announced" });
                    } else {
                        ok &= case.check(false, SAID, why);
                    }
                }
                GE::BootstrapEnd { asset_0, asset_1, asset_0_amount, asset_1_amount, total_lp_supply } => {
                    let k = (*asset_0, *asset_1);
                    if let (PairStatus::Bootstrap(p), PairStatus::Trading(t)) = (DexGeneral::bootstrap_end_status(k), DexGeneral::pair_status(k)) {
                        ok &= case.eq(((*asset_0_amount, *asset_1_amount), *total_lp_supply), (p.accumulated_supply, t.total_supply), SAID, why);
                        let moved: i128 = total_of(&ledger(), *asset_0, &t.pair_account) - total_of(&was.ledger, *asset_0, &t.pair_account);
                        ok &= case.eq(*asset_0_amount as i128, moved, SAID, why);
                        case.event("bootstrap end announced");
                    } else {
                        ok &= case.check(false, SAID, why);
                    }
                }
                GE::BootstrapClaim { bootstrap_pair_account, claimer, asset_0, asset_1, asset_0_refund, asset_1_refund, lp_amount, .. } => {
                    let had = was.given.get(&((*asset_0, *asset_1), claimer.clone())).copied().unwrap_or_default();
                    ok &= case.eq((*asset_0_refund, *asset_1_refund), had, SAID, why);
                    if let Some(l) = DexGeneral::lp_pairs((*asset_0, *asset_1)) {
                        let paid = total_of(&was.ledger, l, bootstrap_pair_account) - total_of(&ledger(), l, bootstrap_pair_account);
                        ok &= case.eq(*lp_amount as i128, paid, SAID, why);
                    }
                    case.event("bootstrap claim announced");
                }
                GE::BootstrapContribute { who, asset_0, asset_1, asset_0_contribute, asset_1_contribute } => {
                    let k = ((*asset_0, *asset_1), who.clone());
                    let had = was.given.get(&k).copied().unwrap_or_default();
                    let has = dex_general::BootstrapPersonalSupply::<Runtime>::get((k.0, &k.1));
                    ok &= case.eq((had.0 + asset_0_contribute, had.1 + asset_1_contribute), has, SAID, why);
                    case.event("contribution announced");
                }
                GE::BootstrapRefund { bootstrap_pair_account, asset_0, asset_1, asset_0_refund, .. } => {
                    let paid = total_of(&was.ledger, *asset_0, bootstrap_pair_account) - total_of(&ledger(), *asset_0, bootstrap_pair_account);
                    ok &= case.eq(*asset_0_refund as i128, paid, SAID, why);
                    let _ = asset_1;
                    case.event("refund announced");
                }
                GE::AssetSwap { swap_path, balances, .. } => ok &= case.eq(swap_path.len(), balances.len(), SAID, why),
                GE::DistributeReward { .. } => case.event("bootstrap reward announced"),
                GE::WithdrawReward { .. } => case.event("reward withdrawal announced"),
                GE::ChargeReward { .. } => case.event("reward charge announced"),
                _ => (),
            },
            EV::DexStable(e) => match e {
                SE::CreatePool { pool_id, currency_ids, lp_currency_id, a, account, swap_fee, admin_fee, admin_fee_receiver } => {
                    let Some(p) = DexStable::pools(pool_id) else { ok &= case.check(false, SAID, why); continue };
                    let p = p.info();
                    let got = (currency_ids.clone(), *lp_currency_id, *a * 100, account.clone(), *swap_fee, *admin_fee, admin_fee_receiver.clone());
                    let want = (p.currency_ids.to_vec(), p.lp_currency_id, p.future_a, p.account, p.fee, p.admin_fee, p.admin_fee_receiver);
                    ok &= case.eq(got, want, SAID, why);
                    case.event("stable pool announced");
                }
                SE::UpdateAdminFeeReceiver { pool_id, admin_fee_receiver } => ok &= case.eq(Some(admin_fee_receiver.clone()), DexStable::pools(pool_id).map(|p| p.info().admin_fee_receiver), SAID, why),
                SE::NewSwapFee { pool_id, new_swap_fee } => ok &= case.eq(Some(*new_swap_fee), DexStable::pools(pool_id).map(|p| p.info().fee), SAID, why),
                SE::NewAdminFee { pool_id, new_admin_fee } => ok &= case.eq(Some(*new_admin_fee), DexStable::pools(pool_id).map(|p| p.info().admin_fee), SAID, why),
                SE::RampA { pool_id, initial_a_precise, future_a_precise, now, future_a_time } => {
                    let p = DexStable::pools(pool_id).unwrap().info();
                    ok &= case.eq((*initial_a_precise, *future_a_precise, *now, *future_a_time), (p.initial_a, p.future_a, p.initial_a_time, p.future_a_time), SAID, why);
                    ok &= case.eq(*now as u64, time_ms() / 1000, SAID, why);
                    case.event("ramp announced");
                }
                SE::StopRampA { pool_id, current_a, now } => {
                    let p = DexStable::pools(pool_id).unwrap().info();
                    ok &= case.eq((*current_a, *now), (p.future_a, p.future_a_time), SAID, why);
                    case.event("stopped ramp announced");
                }
                SE::RemoveLiquidity { pool_id, new_total_supply, amounts, fees, .. } | SE::RemoveLiquidityImbalance { pool_id, new_total_supply, amounts, fees, .. } => {
                    let (_, lp, ..) = pool(*pool_id).unwrap();
                    ok &= case.eq(*new_total_supply, issuance(lp), SAID, why);
                    ok &= case.eq(amounts.len(), fees.len(), SAID, why);
                }
                SE::AddLiquidity { fees, supply_amounts, .. } => ok &= case.eq(fees.len(), supply_amounts.len(), SAID, why),
                _ => (),
            },
            EV::Farming(FE::RewardScheduleUpdated { pool_currency_id, reward_currency_id, period_count, per_period }) => {
                let s = Farming::reward_schedules(pool_currency_id, reward_currency_id);
                ok &= case.eq((*period_count, *per_period), (s.period_count, s.per_period), SAID, why);
                case.event("schedule announced");
            }
            EV::Escrow(escrow::Event::Deposit { who, amount, unlock_height }) => {
                let l = escrow::Locked::<Runtime>::get(who);
                let had = was.locked.get(who).copied().unwrap_or(0);
                ok &= case.eq(had + amount, l.amount, SAID, why);
                // 0: as it was
                ok &= case.check([0, lock_end(who)].contains(unlock_height), SAID, why);
                case.event("lock announced");
            }
            EV::Escrow(escrow::Event::Withdraw { who, amount }) => {
                ok &= case.eq(*amount, was.locked.get(who).copied().unwrap_or(0), SAID, why);
                ok &= case.eq(escrow::Locked::<Runtime>::get(who).amount, 0, SAID, why);
                case.event("unlock announced");
            }
            EV::Oracle(oracle::Event::FeedValues { oracle_id, values }) => {
                let last: BTreeMap<Vec<u8>, _> = values.iter().map(|(k, v)| (k.encode(), (k.clone(), *v))).collect();
                for (k, v) in last.into_values() {
                    ok &= case.eq(oracle::RawValues::<Runtime>::get(&k, oracle_id).map(|x| x.value), Some(v), SAID, why);
                }
                case.event("price announced");
            }
            EV::Oracle(oracle::Event::OracleAdded { oracle_id, name }) => ok &= case.eq(oracle::AuthorizedOracles::<Runtime>::get(oracle_id), name.clone(), SAID, why),
            EV::Oracle(oracle::Event::OracleRemoved { oracle_id }) => ok &= case.check(!oracle::AuthorizedOracles::<Runtime>::contains_key(oracle_id), SAID, why),
            EV::ClientsInfo(_) | EV::TxPause(_) => case.event("setting announced"),
            EV::CollatorSelection(e) => {
                use collator_selection::Event as CE;
                match e {
                    CE::NewInvulnerables { invulnerables } => ok &= case.eq(invulnerables.clone(), CollatorSelection::invulnerables().to_vec(), SAID, why),
                    CE::NewDesiredCandidates { desired_candidates } => ok &= case.eq(*desired_candidates, CollatorSelection::desired_candidates(), SAID, why),
                    CE::NewCandidacyBond { bond_amount } => ok &= case.eq(*bond_amount, CollatorSelection::candidacy_bond(), SAID, why),
                    CE::CandidateAdded { account_id, deposit } => {
                        ok &= case.check(CollatorSelection::candidates().iter().any(|c| c.who == *account_id && c.deposit == *deposit), SAID, why);
                    }
                    CE::CandidateRemoved { account_id } => ok &= case.check(!CollatorSelection::candidates().iter().any(|c| c.who == *account_id), SAID, why),
                    _ => (),
                }
                case.event("collators announced");
            }
            _ => (),
        }
    }
    ok
}
/// What must have been announced of a call that succeeded.
fn expected(case: &mut Case, c: &RuntimeCall, who: Option<&AccountId>, was: &Before, evs: &[EV], shown: &dyn Fn() -> String) -> bool {
    let w = || who.cloned().expect("signed");
    let is = ledger();
    let diff = |c: CurrencyId, a: &AccountId| total_of(&is, c, a) - total_of(&was.ledger, c, a);
    // one event, and these particulars of it
    let mut want: Vec<EV> = vec![];
    match c {
        RuntimeCall::Loans(l) => match l {
            LC::mint { asset_id, mint_amount } => want.push(LE::Deposited { account_id: w(), currency_id: *asset_id, amount: *mint_amount }.into()),
            LC::redeem { asset_id, redeem_amount } => want.push(LE::Redeemed { account_id: w(), currency_id: *asset_id, amount: *redeem_amount }.into()),
            LC::redeem_all { asset_id } => want.push(LE::Redeemed { account_id: w(), currency_id: *asset_id, amount: diff(*asset_id, &w()) as u128 }.into()),
            LC::borrow { asset_id, borrow_amount } => want.push(LE::Borrowed { account_id: w(), currency_id: *asset_id, amount: *borrow_amount }.into()),
            LC::repay_borrow { asset_id, repay_amount } => want.push(LE::RepaidBorrow { account_id: w(), currency_id: *asset_id, amount: *repay_amount }.into()),
            LC::repay_borrow_all { asset_id } => want.push(LE::RepaidBorrow { account_id: w(), currency_id: *asset_id, amount: -diff(*asset_id, &w()) as u128 }.into()),
            LC::claim_reward {} | LC::claim_reward_for_market { .. } => want.push(LE::RewardPaid { receiver: w(), amount: diff(NATIVE, &w()) as u128 }.into()),
            LC::add_reward { amount } => want.push(LE::RewardAdded { payer: w(), amount: *amount }.into()),
            LC::activate_market { asset_id } => want.push(LE::ActivatedMarket { underlying_currency_id: *asset_id }.into()),
            LC::add_market { asset_id, market } => want.push(LE::NewMarket { underlying_currency_id: *asset_id, market: market.clone() }.into()),
            LC::update_market { asset_id, .. } | LC::update_rate_model { asset_id, .. } | LC::force_update_market { asset_id, .. } => {
                want.push(LE::UpdatedMarket { underlying_currency_id: *asset_id, market: Loans::market(*asset_id).expect("market") }.into())
            }
            LC::update_market_reward_speed { asset_id, .. } => want.push(
                LE::MarketRewardSpeedUpdated { underlying_currency_id: *asset_id, supply_reward_per_block: Loans::reward_supply_speed(asset_id), borrow_reward_per_block: Loans::reward_borrow_speed(asset_id) }.into(),
            ),
            LC::add_reserves { payer, asset_id, add_amount } => want.push(LE::ReservesAdded { payer: payer.clone(), currency_id: *asset_id, amount: *add_amount, new_reserve_amount: loans::TotalReserves::<Runtime>::get(asset_id) }.into()),
            LC::reduce_reserves { receiver, asset_id, reduce_amount } => want.push(LE::ReservesReduced { receiver: receiver.clone(), currency_id: *asset_id, amount: *reduce_amount, new_reserve_amount: loans::TotalReserves::<Runtime>::get(asset_id) }.into()),
            LC::reduce_incentive_reserves { receiver, asset_id, redeem_amount } => want.push(LE::IncentiveReservesReduced { receiver: receiver.clone(), currency_id: *asset_id, amount: *redeem_amount }.into()),
            LC::deposit_all_collateral { asset_id } | LC::withdraw_all_collateral { asset_id } => {
                let l = Loans::market(*asset_id).expect("market").lend_token_id;
                let d = reserved_of(&is, l, &w()) - reserved_of(&was.ledger, l, &w());
                want.push(if matches!(l, LendToken(_)) && matches!(c, RuntimeCall::Loans(LC::deposit_all_collateral { .. })) {
                    LE::DepositCollateral { account_id: w(), currency_id: l, amount: d as u128 }.into()
                } else {
                    LE::WithdrawCollateral { account_id: w(), currency_id: l, amount: -d as u128 }.into()
                });
            }
            LC::liquidate_borrow { borrower, liquidation_asset_id, repay_amount, collateral_asset_id } => {
                let x = evs.iter().find_map(|e| match e { EV::Loans(LE::LiquidatedBorrow { collateral_underlying_amount, .. }) => Some(*collateral_underlying_amount), _ => None });
                want.push(LE::LiquidatedBorrow { liquidator: w(), borrower: borrower.clone(), liquidation_currency_id: *liquidation_asset_id, collateral_currency_id: *collateral_asset_id, repay_amount: *repay_amount, collateral_underlying_amount: x.unwrap_or(0) }.into());
            }
            _ => (),
        },
        RuntimeCall::DexGeneral(d) => match d {
            DG::set_fee_point { fee_point } => want.push(GE::NewFeePoint { new_fee_point: *fee_point }.into()),
            DG::set_exchange_fee { asset_0, asset_1, fee_rate } => want.push(GE::NewFeeRate { asset_0: *asset_0, asset_1: *asset_1, new_fee_rate: *fee_rate }.into()),
            DG::create_pair { asset_0, asset_1, fee_rate } => want.push(GE::PairCreated { asset_0: *asset_0, asset_1: *asset_1, fee_rate: *fee_rate }.into()),
            DG::swap_exact_assets_for_assets { amount_in, path, recipient, .. } => {
                let b = evs.iter().find_map(|e| match e { EV::DexGeneral(GE::AssetSwap { balances, .. }) => Some(balances.clone()), _ => None }).unwrap_or_default();
                want.push(GE::AssetSwap { owner: w(), recipient: recipient.clone(), swap_path: path.clone(), balances: b.clone() }.into());
                if !case.check(b.first() == Some(amount_in), SAID, || format!("{}: {b:?}", shown())) { return false }
            }
            DG::swap_assets_for_exact_assets { amount_out, path, recipient, .. } => {
                let b = evs.iter().find_map(|e| match e { EV::DexGeneral(GE::AssetSwap { balances, .. }) => Some(balances.clone()), _ => None }).unwrap_or_default();
                want.push(GE::AssetSwap { owner: w(), recipient: recipient.clone(), swap_path: path.clone(), balances: b.clone() }.into());
                if !case.check(b.last() == Some(amount_out), SAID, || format!("{}: {b:?}", shown())) { return false }
            }
            DG::bootstrap_charge_reward { asset_0, asset_1, charge_rewards } => {
                let (a, b) = sorted(*asset_0, *asset_1);
                want.push(GE::ChargeReward { asset_0: a, asset_1: b, who: w(), charge_rewards: charge_rewards.clone() }.into());
            }
            DG::bootstrap_withdraw_reward { asset_0, asset_1, recipient } => {
                let (a, b) = sorted(*asset_0, *asset_1);
                want.push(GE::WithdrawReward { asset_0: a, asset_1: b, recipient: recipient.clone() }.into());
            }
            _ => (),
        },
        RuntimeCall::DexStable(d) => match d {
            DS::update_fee_receiver { pool_id, fee_receiver } => want.push(SE::UpdateAdminFeeReceiver { pool_id: *pool_id, admin_fee_receiver: fee_receiver.clone() }.into()),
            DS::set_swap_fee { pool_id, new_swap_fee } => want.push(SE::NewSwapFee { pool_id: *pool_id, new_swap_fee: *new_swap_fee }.into()),
            DS::set_admin_fee { pool_id, new_admin_fee } => want.push(SE::NewAdminFee { pool_id: *pool_id, new_admin_fee: *new_admin_fee }.into()),
            DS::swap { pool_id, from_index, to_index, in_amount, to, .. } => {
                let (c, ..) = pool(*pool_id).expect("pool");
                let x = diff(c[*to_index as usize], to);
                want.push(SE::CurrencyExchange { pool_id: *pool_id, who: w(), to: to.clone(), in_index: *from_index, in_amount: *in_amount, out_index: *to_index, out_amount: x as u128 }.into());
            }
            DS::swap_meta_pool_underlying { pool_id, in_index, out_index, dx, to, .. } => {
                let (c, .., Some(base)) = pool(*pool_id).expect("pool") else { return true };
                let (b, lp, ..) = pool(base).expect("base");
                let all: Vec<CurrencyId> = c.into_iter().filter(|x| *x != lp).chain(b).collect();
                want.push(SE::CurrencyExchangeUnderlying { pool_id: *pool_id, account: w(), in_amount: *dx, out_amount: diff(all[*out_index as usize], to) as u128, currency_index_from: *in_index, currency_index_to: *out_index, to: to.clone() }.into());
            }
            DS::remove_liquidity_one_currency { pool_id, lp_amount, index, to, .. } => {
                let (c, ..) = pool(*pool_id).expect("pool");
                want.push(SE::RemoveLiquidityOneCurrency { pool_id: *pool_id, who: w(), to: to.clone(), out_index: *index, burn_amount: *lp_amount, out_amount: diff(c[*index as usize], to) as u128 }.into());
            }
            DS::withdraw_admin_fee { pool_id } => {
                let (c, _, _, to, _) = pool(*pool_id).expect("pool");
                for c in c {
                    want.push(SE::CollectProtocolFee { pool_id: *pool_id, currency_id: c, fee_amount: diff(c, &to) as u128 }.into());
                }
            }
            _ => (),
        },
        RuntimeCall::Farming(f) => match f {
            farming::Call::claim { pool_currency_id, reward_currency_id } => {
                let p = match pool_currency_id { LpToken(a, b) if a > b => LpToken(*b, *a), c => *c };
                want.push(FE::RewardClaimed { account_id: w(), pool_currency_id: p, reward_currency_id: *reward_currency_id, amount: diff(*reward_currency_id, &w()) as u128 }.into())
            }
            farming::Call::update_reward_schedule { pool_currency_id, reward_currency_id, .. } | farming::Call::remove_reward_schedule { pool_currency_id, reward_currency_id } => {
                let p = match pool_currency_id { LpToken(a, b) if a > b => LpToken(*b, *a), c => *c };
                let s = Farming::reward_schedules(p, reward_currency_id);
                want.push(FE::RewardScheduleUpdated { pool_currency_id: p, reward_currency_id: *reward_currency_id, period_count: s.period_count, per_period: s.per_period }.into())
            }
            _ => (),
        },
        RuntimeCall::Escrow(f) => match f {
            escrow::Call::create_lock { .. } | escrow::Call::increase_amount { .. } | escrow::Call::increase_unlock_height { .. } => {
                let l = escrow::Locked::<Runtime>::get(w());
                let unlock_height = if matches!(f, escrow::Call::increase_amount { .. }) { 0 } else { lock_end(&w()) };
                want.push(escrow::Event::Deposit { who: w(), amount: l.amount - was.locked.get(&w()).copied().unwrap_or(0), unlock_height }.into())
            }
            escrow::Call::withdraw {} => want.push(escrow::Event::Withdraw { who: w(), amount: was.locked.get(&w()).copied().unwrap_or(0) }.into()),
            _ => (),
        },
        RuntimeCall::Oracle(f) => match f {
            oracle::Call::feed_values { values } => want.push(oracle::Event::FeedValues { oracle_id: w(), values: values.clone() }.into()),
            oracle::Call::insert_authorized_oracle { account_id, name } => want.push(oracle::Event::OracleAdded { oracle_id: account_id.clone(), name: name.clone() }.into()),
            oracle::Call::remove_authorized_oracle { account_id } => want.push(oracle::Event::OracleRemoved { oracle_id: account_id.clone() }.into()),
            _ => (),
        },
        RuntimeCall::Security(security::Call::activate_counter { is_active }) => want.push(if *is_active { security::Event::Activated } else { security::Event::Deactivated }.into()),
        RuntimeCall::TxPause(f) => match f {
            tx_pause::Call::pause { full_name } => want.push(tx_pause::Event::SomethingPaused { full_name: full_name.clone() }.into()),
            tx_pause::Call::unpause { full_name } => want.push(tx_pause::Event::SomethingUnpaused { full_name: full_name.clone() }.into()),
            _ => (),
        },
        RuntimeCall::ClientsInfo(f) => match f {
            clients_info::Call::set_current_client_release { release, .. } => want.push(clients_info::Event::ApplyClientRelease { release: release.clone() }.into()),
            clients_info::Call::set_pending_client_release { release, .. } => want.push(clients_info::Event::NotifyClientRelease { release: release.clone() }.into()),
            _ => (),
        },
        _ => (),
    }
    let kind = |e: &EV| std::mem::discriminant(e);
    let name = |e: &EV| { let s = format!("{e:?}"); s.split(|c: char| c == '{' || c == ' ').next().unwrap_or("").to_string() };
    for x in &want {
        let n = evs.iter().filter(|e| *e == x).count();
        let same: Vec<&EV> = evs.iter().filter(|e| kind(e) == kind(x) && name(e) == name(x)).collect();
        let _ = &same;
        case.event("announcement foretold");
        if !case.check(n >= 1, if n == 0 && same.is_empty() { MISSING } else { SAID }, || format!("{}: wanted {x:?} among {evs:?}", shown())) { return false }
    }
    true
}
/// A block's own announcements.
fn block(case: &mut Case, dt: u64) -> bool {
    let was = now_is();
    let issued = issuance(NATIVE);
    let (act0, off) = (active(), security::IsDeactivated::<Runtime>::get());
    let sched: BTreeMap<(CurrencyId, CurrencyId), (u32, u128)> = farming::RewardSchedules::<Runtime>::iter().map(|(a, b, s)| ((a, b), (s.period_count, s.per_period))).collect();
    let agg = aggregates();
    let owed0 = owed::<EscrowRewardsInstance>();
    let Some(_) = case.total("a block's own work panics", || format!("block {}", now()), || block_at(now() + 1, dt)) else { return false };
    let evs = events();
    let shown = || format!("block {}", now());
    let mut ok = facts(case, &was, &evs, &shown);
    let (mut minted, mut ticks, mut rewards) = (0, vec![], (0, 0));
    let mut gave: BTreeMap<(CurrencyId, CurrencyId), u128> = BTreeMap::new();
    let mut prices = BTreeMap::new();
    for e in &evs {
        match e {
            EV::Supply(supply::Event::Inflation { total_inflation }) => minted += total_inflation,
            EV::Security(security::Event::UpdateActiveBlock { block_number }) => ticks.push(*block_number),
            EV::Farming(FE::RewardDistributed { pool_currency_id, reward_currency_id, amount }) => {
                *gave.entry((*pool_currency_id, *reward_currency_id)).or_default() += amount;
                case.event("farming distribution announced");
            }
            EV::Oracle(oracle::Event::AggregateUpdated { values }) => prices.extend(values.iter().map(|(k, v)| (k.encode(), *v))),
            EV::EscrowAnnuity(annuity::Event::BlockReward(x)) => {
                let got = owed::<EscrowRewardsInstance>() - owed0;
                ok &= case.eq(got, *x as i128, SAID, || format!("{}: {e:?}", shown()));
                if *x > 0 { case.event("block reward announced") }
                rewards.0 += 1;
            }
            EV::VaultAnnuity(annuity::Event::BlockReward(x)) => {
                let a = VaultAnnuity::account_id();
                let got = total_of(&was.ledger, NATIVE, &a) - total_of(&ledger(), NATIVE, &a);
                // (inflation goes to the same account)
                if minted == 0 {
                    ok &= case.eq(got, *x as i128, SAID, || format!("{}: {e:?}", shown()));
                }
                rewards.1 += 1;
            }
            _ => (),
        }
    }
    ok &= case.check(rewards.0 == 1 || owed::<EscrowRewardsInstance>() == owed0, MISSING, || format!("{}: {rewards:?}", shown()));
    ok &= case.eq(issuance(NATIVE), issued + minted, SAID, || format!("{}: inflation {minted}", shown()));
    if minted > 0 { case.event("inflation announced") }
    let want = if off { vec![] } else { vec![act0 + 1] };
    ok &= case.eq(ticks.clone(), want, SAID, || format!("{}: active block count, stopped: {off}", shown()));
    ok &= case.eq(active(), act0 + !off as u32, SAID, || format!("{}: {ticks:?}", shown()));
    case.event(if off { "stopped clock" } else { "clock announced" });
    let mut took = BTreeMap::new();
    for (k, (n, x)) in &sched {
        let s = Farming::reward_schedules(k.0, k.1);
        if s.period_count < *n {
            took.insert(*k, *x * (*n - s.period_count) as u128);
        }
    }
    ok &= case.eq(gave, took, SAID, || format!("{}: farming", shown()));
    for (k, v) in aggregates().iter().chain(agg.iter()) {
        let (a, b) = (agg.get(k).copied(), aggregates().get(k).copied());
        let _ = v;
        if a != b {
            ok &= case.eq(prices.get(k).copied(), Some(b), MISSING, || format!("{}: price of {k:?}", shown()));
            case.event("new price announced");
        }
    }
    for (k, v) in &prices {
        ok &= case.eq(aggregates().get(k).copied(), *v, SAID, || format!("{}: price of {k:?}", shown()));
    }
    ok
}
fn owed<I: 'static>() -> i128
where
    Runtime: reward::Config<I, CurrencyId = CurrencyId, SignedFixedPoint = sp_runtime::FixedI128>,
{
    reward::TotalRewards::<Runtime, I>::get(NATIVE).into_inner() / sp_runtime::FixedI128::DIV
}
fn lock_end(a: &AccountId) -> u32 {
    let l = codec::Encode::encode(&escrow::Locked::<Runtime>::get(a));
    u32::from_le_bytes(l[16..20].try_into().unwrap())
}
fn aggregates() -> BTreeMap<Vec<u8>, FixedU128> {
    oracle::Aggregate::<Runtime>::iter().map(|(k, v)| (k.encode(), v)).collect()
}

/// A call likely to get through.
fn aimed(r: &mut R, p: &Pool, who: &AccountId, mode: u8) -> (bool, RuntimeCall) {
    let to = |r: &mut R| if r.gen() { who.clone() } else { acc(r.gen_range(0..8)) };
    let some = |r: &mut R| { let b = r.gen_range(4..46); log_uniform_u128(r, b) };
    let part = |r: &mut R, x: u128| { let d = log_uniform_u128(r, 12) + 1; x / d };
    let markets = [RELAY, Token(KSM), WRAPPED];
    let deadline = 1_000_000;
    let boots = [(RELAY, Token(KSM)), (Token(KSM), RELAY), (ForeignAsset(1), NATIVE), (NATIVE, ForeignAsset(1)), (WRAPPED, Token(KSM))];
    let n = match mode {
        1 if r.gen_ratio(2, 3) => 9,
        2 if r.gen_ratio(1, 2) => r.gen_range(0..9),
        2 if r.gen_ratio(1, 4) => *pick(r, &[7, 32, 33]),
        3 if r.gen_ratio(1, 2) => r.gen_range(16..24),
        _ => r.gen_range(0..35),
    };
    let c: RuntimeCall = match n {
        0 => LC::mint { asset_id: *pick(r, &markets), mint_amount: some(r) }.into(),
        1 => LC::redeem { asset_id: *pick(r, &markets), redeem_amount: some(r) }.into(),
        2 => match r.gen_range(0..4) {
            0 => LC::redeem_all { asset_id: *pick(r, &markets) }.into(),
            1 => LC::deposit_all_collateral { asset_id: *pick(r, &markets) }.into(),
            2 => LC::withdraw_all_collateral { asset_id: *pick(r, &markets) }.into(),
            _ => LC::repay_borrow_all { asset_id: *pick(r, &markets) }.into(),
        },
        3 => LC::borrow { asset_id: *pick(r, &markets), borrow_amount: some(r) }.into(),
        4 => LC::repay_borrow { asset_id: *pick(r, &markets), repay_amount: some(r) }.into(),
        5 => if r.gen() { LC::claim_reward {}.into() } else { LC::claim_reward_for_market { asset_id: *pick(r, &markets) }.into() },
        6 => LC::add_reward { amount: some(r) }.into(),
        7 => {
            let debts: Vec<_> = loans::AccountBorrows::<Runtime>::iter().filter(|x| x.2.principal > 0).collect();
            if debts.is_empty() { return (false, LC::claim_reward {}.into()) }
            let (c, b, s) = pick(r, &debts).clone();
            let mut held: Vec<CurrencyId> = markets.iter().filter(|m| Loans::market(**m).map_or(false, |m| reserved(m.lend_token_id, &b) > 0)).copied().collect();
            if held.is_empty() { held.push(c) }
            LC::liquidate_borrow { borrower: b, liquidation_asset_id: c, repay_amount: part(r, s.principal).max(1), collateral_asset_id: *pick(r, &held) }.into()
        }
        8 => {
            let asset_id = *pick(r, &markets);
            let c: LC = match r.gen_range(0..4) {
                0 => LC::add_reserves { payer: to(r), asset_id, add_amount: some(r) },
                1 => LC::reduce_reserves { receiver: to(r), asset_id, reduce_amount: some(r) },
                2 => LC::reduce_incentive_reserves { receiver: to(r), asset_id, redeem_amount: some(r) / 1000 + 1 },
                _ => LC::update_market_reward_speed { asset_id, supply_reward_per_block: if r.gen() { Some(some(r)) } else { None }, borrow_reward_per_block: if r.gen() { Some(some(r)) } else { None } },
            };
            return (true, c.into());
        }
        9..=11 => {
            let (asset_0, asset_1) = *pick(r, if mode == 1 { &boots[..3] } else { &boots });
            let open = DexGeneral::pair_status(sorted(asset_0, asset_1));
            match open {
                PairStatus::Bootstrap(b) if now() < b.end_block_number || r.gen_ratio(1, 8) => match r.gen_range(0..5) {
                    0 => {
                        let rewards: Vec<CurrencyId> = DexGeneral::get_bootstrap_rewards(sorted(asset_0, asset_1)).into_iter().map(|x| x.0).collect();
                        DG::bootstrap_charge_reward { asset_0, asset_1, charge_rewards: rewards.into_iter().map(|c| (c, some(r))).collect() }.into()
                    }
                    1 if r.gen_ratio(1, 3) => return (true, DG::bootstrap_update { asset_0, asset_1, target_supply_0: some(r), target_supply_1: some(r), capacity_supply_0: E / 10 + some(r), capacity_supply_1: E / 9 + some(r), end: now() + r.gen_range(2..9), rewards: vec![NATIVE], limits: vec![] }.into()),
                    _ => DG::bootstrap_contribute { asset_0, asset_1, amount_0_contribute: some(r), amount_1_contribute: some(r), deadline }.into(),
                },
                PairStatus::Bootstrap(_) => match r.gen_range(0..3) {
                    0 => DG::bootstrap_end { asset_0, asset_1 }.into(),
                    1 => DG::bootstrap_refund { asset_0, asset_1 }.into(),
                    _ => return (true, DG::bootstrap_withdraw_reward { asset_0, asset_1, recipient: to(r) }.into()),
                },
                PairStatus::Trading(_) => match r.gen_range(0..6) {
                    0 => return (true, DG::bootstrap_withdraw_reward { asset_0, asset_1, recipient: to(r) }.into()),
                    _ => DG::bootstrap_claim { recipient: to(r), asset_0, asset_1, deadline }.into(),
                },
                _ => return (true, DG::bootstrap_create { asset_0, asset_1, target_supply_0: some(r) / 1000, target_supply_1: some(r) / 1000, capacity_supply_0: E / 10 + some(r), capacity_supply_1: E / 9 + some(r), end: now() + r.gen_range(2..9), rewards: if r.gen() { vec![NATIVE] } else { vec![RELAY, WRAPPED] }, limits: vec![] }.into()),
            }
        }
        12..=14 => {
            let g: Vec<_> = vec![(NATIVE, RELAY), (RELAY, NATIVE), (RELAY, WRAPPED), (WRAPPED, RELAY), (Token(KSM), NATIVE), (RELAY, Token(KSM)), (NATIVE, ForeignAsset(1))];
            let (asset_0, asset_1) = *pick(r, &g);
            let lp = pair(asset_0, asset_1).unwrap();
            match r.gen_range(0..4) {
                0 => DG::add_liquidity { asset_0, asset_1, amount_0_desired: some(r) + 2000, amount_1_desired: some(r) + 2000, amount_0_min: 0, amount_1_min: 0, deadline }.into(),
                1 => DG::remove_liquidity { asset_0, asset_1, liquidity: part(r, free(lp, who)), amount_0_min: 0, amount_1_min: 0, recipient: to(r), deadline }.into(),
                k => {
                    let path = match r.gen_range(0..4) {
                        0 => vec![Token(KSM), NATIVE, RELAY],
                        1 => vec![Token(KSM), NATIVE, RELAY, WRAPPED],
                        _ => vec![asset_0, asset_1],
                    };
                    if k == 2 {
                        DG::swap_exact_assets_for_assets { amount_in: some(r), amount_out_min: 0, path, recipient: to(r), deadline }.into()
                    } else {
                        DG::swap_assets_for_exact_assets { amount_out: some(r), amount_in_max: E, path, recipient: to(r), deadline }.into()
                    }
                }
            }
        }
        15 => {
            let (asset_0, asset_1) = *pick(r, &[(NATIVE, RELAY), (RELAY, NATIVE), (WRAPPED, RELAY)]);
            return (true, match r.gen_range(0..3) {
                0 => DG::set_exchange_fee { asset_0, asset_1, fee_rate: r.gen_range(0..400) }.into(),
                1 => DG::set_fee_point { fee_point: r.gen_range(0..32) }.into(),
                _ => DG::set_fee_receiver { send_to: if r.gen() { Some(acc(3001)) } else { None } }.into(),
            });
        }
        16..=22 => {
            let pool_id = r.gen_range(0..2u32);
            let base_pool_id = 0;
            let Some((c, lp, ..)) = pool(pool_id) else { return (false, LC::claim_reward {}.into()) };
            let k = c.len() as u32;
            let to = to(r);
            let lp_amount = part(r, free(lp, who));
            let any = r.gen_range(0..16);
            match any {
                0 | 1 => DS::add_liquidity { pool_id, amounts: c.iter().map(|x| { let z = some(r); z.min(free(*x, who)) }).collect(), min_mint_amount: 0, to, deadline }.into(),
                2..=4 => DS::swap { pool_id, from_index: r.gen_range(0..k), to_index: r.gen_range(0..k), in_amount: some(r), min_out_amount: 0, to, deadline }.into(),
                5 => DS::remove_liquidity { pool_id, lp_amount, min_amounts: vec![0; k as usize], to, deadline }.into(),
                6 => DS::remove_liquidity_one_currency { pool_id, lp_amount, index: r.gen_range(0..k), min_amount: 0, to, deadline }.into(),
                7 => DS::remove_liquidity_imbalance { pool_id, amounts: c.iter().map(|_| some(r) / 1000).collect(), max_burn_amount: free(lp, who), to, deadline }.into(),
                8 => DS::add_pool_and_base_pool_liquidity { pool_id: 1, base_pool_id, meta_amounts: vec![some(r), 0], base_amounts: vec![some(r), some(r), some(r)], min_to_mint: 0, to, deadline }.into(),
                9 => { let amount = part(r, free(StableLpToken(1), who)); DS::remove_pool_and_base_pool_liquidity { pool_id: 1, base_pool_id, amount, min_amounts_meta: vec![0; 2], min_amounts_base: vec![0; 3], to, deadline }.into() }
                10 => { let amount = part(r, free(StableLpToken(1), who)); DS::remove_pool_and_base_pool_liquidity_one_currency { pool_id: 1, base_pool_id, amount, i: r.gen_range(0..3), min_amount: 0, to, deadline }.into() }
                11 => DS::swap_pool_from_base { pool_id: 1, base_pool_id, in_index: r.gen_range(0..3), out_index: r.gen_range(0..2), dx: some(r), min_dy: 0, to, deadline }.into(),
                12 => DS::swap_pool_to_base { pool_id: 1, base_pool_id, in_index: r.gen_range(0..2), out_index: r.gen_range(0..3), dx: some(r), min_dy: 0, to, deadline }.into(),
                13 | 14 => DS::swap_meta_pool_underlying { pool_id: 1, in_index: r.gen_range(0..4), out_index: r.gen_range(0..4), dx: some(r), min_dy: 0, to, deadline }.into(),
                _ => DS::withdraw_admin_fee { pool_id }.into(),
            }
        }
        23 => {
            let pool_id = r.gen_range(0..2);
            return (true, match r.gen_range(0..6) {
                0 => DS::set_swap_fee { pool_id, new_swap_fee: r.gen_range(0..100_000_000) }.into(),
                1 => DS::set_admin_fee { pool_id, new_admin_fee: r.gen_range(0..10_000_000_000) }.into(),
                2 => DS::update_fee_receiver { pool_id, fee_receiver: to(r) }.into(),
                3 => DS::stop_ramp_a { pool_id }.into(),
                _ => DS::ramp_a { pool_id, future_a: r.gen_range(50..900), future_a_time: (time_ms() / 1000) as u128 + 1_300_000 }.into(),
            });
        }
        24 => {
            let routes = match r.gen_range(0..3) {
                0 => vec![dex_swap_router::Route::General(vec![NATIVE, RELAY]), dex_swap_router::Route::Stable(dex_swap_router::StablePath { pool_id: 0, base_pool_id: 0, mode: dex_swap_router::StableSwapMode::Single, from_currency: RELAY, to_currency: Token(KSM) })],
                1 => vec![dex_swap_router::Route::Stable(dex_swap_router::StablePath { pool_id: 0, base_pool_id: 0, mode: dex_swap_router::StableSwapMode::Single, from_currency: ForeignAsset(1), to_currency: Token(KSM) }), dex_swap_router::Route::General(vec![Token(KSM), NATIVE, RELAY])],
                _ => vec![dex_swap_router::Route::Stable(dex_swap_router::StablePath { pool_id: 1, base_pool_id: 0, mode: dex_swap_router::StableSwapMode::FromBase, from_currency: RELAY, to_currency: WRAPPED }), dex_swap_router::Route::General(vec![WRAPPED, RELAY])],
            };
            dex_swap_router::Call::<Runtime>::swap_exact_tokens_for_tokens { amount_in: some(r), amount_out_min: 0, routes, to: to(r), deadline }.into()
        }
        25 | 26 => {
            let c = *pick(r, &[StableLpToken(0), pair(NATIVE, RELAY).unwrap()]);
            let reward_currency_id = if r.gen_ratio(3, 4) { NATIVE } else { RELAY };
            match r.gen_range(0..6) {
                0 => farming::Call::<Runtime>::deposit { pool_currency_id: c, length_rewards: 10 }.into(),
                1 => farming::Call::<Runtime>::withdraw { pool_currency_id: c, amount: part(r, reserved(c, who)), length_rewards: 10 }.into(),
                2 => return (true, if r.gen() { farming::Call::<Runtime>::update_reward_schedule { pool_currency_id: c, reward_currency_id, period_count: r.gen_range(0..20), amount: some(r) }.into() } else { farming::Call::<Runtime>::remove_reward_schedule { pool_currency_id: c, reward_currency_id }.into() }),
                _ => farming::Call::<Runtime>::claim { pool_currency_id: c, reward_currency_id }.into(),
            }
        }
        27 | 28 => {
            let h = (now() / WEEKS + r.gen_range(1..90)) * WEEKS;
            match r.gen_range(0..4) {
                0 => escrow::Call::<Runtime>::create_lock { amount: some(r) + WEEKS as u128 * 100, unlock_height: h }.into(),
                1 => escrow::Call::<Runtime>::increase_amount { amount: some(r) + 1 }.into(),
                2 => escrow::Call::<Runtime>::increase_unlock_height { unlock_height: h }.into(),
                _ => escrow::Call::<Runtime>::withdraw {}.into(),
            }
        }
        29 => return (true, security::Call::<Runtime>::activate_counter { is_active: r.gen_ratio(4, 5) }.into()),
        30 => {
            let name = vec![r.gen_range(b'a'..b'd')];
            let release = clients_info::ClientRelease { uri: vec![r.gen()].try_into().unwrap(), checksum: sp_core::H256::repeat_byte(r.gen()) };
            return (true, if r.gen() {
                clients_info::Call::<Runtime>::set_current_client_release { client_name: name.try_into().unwrap(), release }.into()
            } else {
                clients_info::Call::<Runtime>::set_pending_client_release { client_name: name.try_into().unwrap(), release }.into()
            });
        }
        31 => {
            let account_id = acc(r.gen_range(0..12));
            return (true, if r.gen() { oracle::Call::<Runtime>::insert_authorized_oracle { account_id, name: vec![b'o'].try_into().unwrap() }.into() } else { oracle::Call::<Runtime>::remove_authorized_oracle { account_id }.into() });
        }
        32 => {
            let values = [RELAY, Token(KSM), NATIVE, ForeignAsset(1)].iter().map(|c| (oracle::OracleKey::ExchangeRate(*c), FixedU128::from_inner(log_uniform_u128(r, 16) * 100_000_000_000_000_000 + 1))).collect();
            oracle::Call::<Runtime>::feed_values { values }.into()
        }
        _ => {
            let values = (0..r.gen_range(1..4)).map(|_| (oracle::OracleKey::ExchangeRate(*pick(r, &[RELAY, Token(KSM), NATIVE, ForeignAsset(1)])), FixedU128::from_inner(r.gen_range(1..1000u128) * 100_000_000_000_000_000))).collect();
            oracle::Call::<Runtime>::feed_values { values }.into()
        }
    };
    let _ = p;
    (false, c)
}
fn hist(case: &mut Case, r: &mut R, calls: &Calls) {
    with_world(&cfg(), || {
        let Some(mut p) = case.total("setup", String::new, || rich(r)) else { return };
        p.wild = false;
        let usable: Vec<usize> = (0..calls.all.len()).filter(|i| { let c = &calls.all[*i]; !["System", "Timestamp", "Preimage", "Tokens", "Sudo", "Utility", "MultiTransactionPayment", "BTCRelay"].contains(&c.0.as_str()) }).collect();
        let mode = r.gen_range(0..5);
        for _ in 0..r.gen_range(30..110) {
            if r.gen_ratio(1, 7) {
                let n = *pick(r, &[1u32, 1, 2, 4, 9]);
                for _ in 0..n {
                    let dt = if r.gen_ratio(1, 10) { 3_600_000 } else { MILLISECS_PER_BLOCK };
                    if !block(case, dt) { return }
                }
                continue;
            }
            let k = r.gen_range(0..8);
            let mut who = acc(k);
            refresh(&mut p, r, &who);
            let (by_root, c) = if r.gen_ratio(3, 4) {
                aimed(r, &p, &who, mode)
            } else {
                let i = *pick(r, &usable);
                let Some(c) = calls.draw(i, r, &p) else { continue };
                // (a market's shares that are another market's money)
                if let RuntimeCall::Loans(LC::add_market { market, .. } | LC::force_update_market { market, .. }) = &c {
                    if !market.lend_token_id.is_lend_token() { continue }
                }
                let (pn, f) = name_of(&c);
                (privileged(&pn, &f), c)
            };
            if matches!(c, RuntimeCall::Oracle(oracle::Call::feed_values { .. })) && r.gen_ratio(3, 4) {
                who = acc(ORACLE);
            }
            let was = now_is();
            let origin = if by_root { Origin::root() } else { signed(&who) };
            let Some(out) = act(case, "a transaction panics", origin, c.clone()) else { return };
            case.eval(1);
            if out.is_err() {
                if !case.eq(System::events().len(), was.events, "a refused transaction is announced", || format!("{c:?}")) { return }
                continue;
            }
            let evs: Vec<EV> = events().split_off(was.events);
            let (pn, f) = name_of(&c);
            case.event(&format!("{pn}.{f}"));
            case.state_dbg(&c);
            let w = if by_root { None } else { Some(&who) };
            let by = if by_root { "root".into() } else { acc_name(&who) };
            let shown = || format!("{pn}.{f} by {by}");
            if ["Loans", "DexGeneral", "DexStable", "DexSwapRouter", "Farming"].contains(&pn.as_str())
                && f != "remove_reward_schedule" && !(pn == "Farming" && f == "update_reward_schedule")
                && !transfers(case, &pn, w, &was, &evs, &shown) { return }
            if !markets(case, &was, &evs, &shown) || !facts(case, &was, &evs, &shown) || !expected(case, &c, w, &was, &evs, &shown) { return }
        }
    })
}
pub fn run(m: &Mon) {
    let calls = Calls::new();
    m.rule("histories: a chain where every part is in use; 30..110 steps of calls drawn by type or aimed at succeeding, by accounts and by governance, and blocks. After every call that succeeds: what every account gained and lost equals the sum of what the new events say, every event's figures are those in storage, and the event the call calls for is among them; in every block the inflation, rewards, clock, distributions and prices announced are those that took effect. A state is a distinct call that succeeded.");
    crate::g_demo::news(m);
    m.stream("announced", 900, 20, |case, r| hist(case, r, &calls));
    for (e, n) in [
        ("announcement foretold", 6000),
        ("block reward announced", 9000),
        ("bootstrap announced", 300),
        ("bootstrap claim announced", 70),
        ("bootstrap end announced", 40),
        ("bootstrap reward announced", 70),
        ("bootstrap update announced", 40),
        ("clock announced", 9000),
        ("collateral announced", 150),
        ("collators announced", 100),
        ("contribution announced", 700),
        ("farming distribution announced", 3000),
        ("interest announced", 500),
        ("lock announced", 140),
        ("movement announced", 9000),
        ("new price announced", 3500),
        ("pair announced", 80),
        ("price announced", 700),
        ("ramp announced", 100),
        ("refund announced", 8),
        ("reserves announced", 140),
        ("reward charge announced", 200),
        ("reward withdrawal announced", 250),
        ("schedule announced", 100),
        ("setting announced", 300),
        ("speed announced", 100),
        ("stopped clock", 700),
        ("stopped ramp announced", 10),
        ("unlock announced", 50),
        ("liquidation announced", 10),
    ] {
        m.require(e, n);
    }
}
