use self::api::*;
use crate::{
    g_any::{pair, E},
    gen::Pool,
};
use currency::Amount;
use mon::{rand::Rng, *};
use primitives::{BalanceWrapper, CurrencyId::*, VaultCurrencyPair};
use reward::RewardsApi;
use rt::{runtime::*, world::*};
use sp_core::{H256, U256};
use sp_runtime::{traits::{CheckedDiv, CheckedMul, Zero}, DispatchError, FixedPointNumber, FixedU128};

type W = BalanceWrapper<Balance>;
fn w(amount: Balance) -> W {
    BalanceWrapper { amount }
}
/// an answer, as it is shown
fn s<T: std::fmt::Debug>(x: T) -> String {
    format!("{x:?}")
}
/// an answer in full, whose changes are dropped
fn told<T>(case: &mut Case, what: &str, f: impl FnOnce() -> T) -> Option<T> {
    case.eval(1);
    dry(|| case.total("answering a client panics", || format!("{NAME} {what}"), f))
}
/// the answer is the pallet's
fn same<T: codec::Encode>(case: &mut Case, what: &str, got: impl FnOnce() -> T, want: impl FnOnce() -> T) {
    let (Some(g), k @ Ok(_)) = (told(case, what, got), dry(|| guard(want))) else { return };
    let Ok(k) = k else { unreachable!() };
    let (g, k) = (g.encode(), k.encode());
    case.state(&g);
    case.check(g == k, "a client is told other than the chain's own answer", || format!("{NAME} {what}: {g:?}, the pallet: {k:?}"));
}
fn ok(x: &Result<W, DispatchError>) -> Option<Balance> {
    x.as_ref().ok().map(|x| x.amount)
}
/// (shares of a pool are not made up: their number is part of their price)
fn give(who: &AccountId, c: CurrencyId, n: Balance) {
    if !matches!(c, StableLpToken(_)) {
        mint(who, c, n)
    }
}
/// what a call gives `who` of `c`
fn gives(who: &AccountId, c: CurrencyId, f: impl FnOnce() -> Result<(), DispatchError>) -> Option<Balance> {
    dry(|| {
        let b = free(c, who);
        f().ok()?;
        free(c, who).checked_sub(b)
    })
}

pub fn ask(case: &mut Case, r: &mut R, p: &Pool) {
    rewards(case, r, p);
    locks(case, r);
    vaults(case, r, p);
    requests(case, r, p);
    pools(case, r, p);
    curves(case, r, p);
    others(case, r, p);
}
fn rewards(case: &mut Case, r: &mut R, p: &Pool) {
    let who = acc(r.gen_range(0..10));
    let ctx = || format!("{NAME} {}", acc_name(&who));
    if let Some(got) = told(case, "compute_escrow_reward", || RewardApi::compute_escrow_reward(who.clone(), NATIVE)) {
        let want = gives(&who, NATIVE, || by(&who, annuity::Call::<Runtime, EscrowAnnuityInstance>::withdraw_rewards {}));
        if let Some(x) = want {
            case.eq(ok(&got), Some(x), "a lock's reward is told other than what it pays", ctx);
            if x > 0 {
                case.event("reward of a lock");
            }
        }
    }
    same(case, "compute_escrow_reward of another currency", || RewardApi::compute_escrow_reward(who.clone(), WRAPPED), || <EscrowRewards as RewardsApi<(), AccountId, Balance>>::compute_reward(&(), &who, WRAPPED).map(w));
    for lp in [StableLpToken(0), pair(NATIVE, RELAY).unwrap(), pair(RELAY, WRAPPED).unwrap()] {
        if let Some(got) = told(case, "compute_farming_reward", || RewardApi::compute_farming_reward(who.clone(), lp, NATIVE)) {
            let want = gives(&who, NATIVE, || by(&who, farming::Call::<Runtime>::claim { pool_currency_id: lp, reward_currency_id: NATIVE }));
            if let Some(x) = want {
                case.eq(ok(&got), Some(x), "a farm's reward is told other than what it pays", ctx);
                if x > 0 {
                    case.event("reward of a farm");
                }
            }
        }
        if let Some(got) = told(case, "estimate_farming_reward", || RewardApi::estimate_farming_reward(who.clone(), lp, NATIVE)) {
            // all of the schedule's periods, by the share of the pool
            let q = farming::RewardSchedules::<Runtime>::get(lp, NATIVE);
            let all = q.per_period.checked_mul(q.period_count as u128).unwrap_or_default();
            let (a, b) = (
                <FarmingRewards as RewardsApi<CurrencyId, AccountId, Balance>>::get_stake(&lp, &who).unwrap_or_default(),
                <FarmingRewards as RewardsApi<CurrencyId, AccountId, Balance>>::get_total_stake(&lp).unwrap_or_default(),
            );
            match got {
                Ok(g) if b > 0 => {
                    let want = all as f64 * a as f64 / b as f64;
                    let tol = 3.0 + a as f64 * 4e-18 + want * 1e-9;
                    case.check((g.amount as f64 - want).abs() <= tol, "a farm's coming rewards are told other than the share of its schedule", || format!("{} {lp:?}: {}, should be {want} ± {tol} ({all}, {a}/{b})", ctx(), g.amount));
                    if want > 10.0 {
                        case.event("a farm's year");
                    }
                }
                Ok(g) => {
                    case.eq(g.amount, 0, "a farm's coming rewards without a stake", ctx);
                }
                Err(e) => {
                    case.check(b == 0, "no answer about a farm in use", || format!("{} {lp:?}: {e:?} ({all}, {a}/{b})", ctx()));
                }
            }
        }
    }
    for v in &p.vaults {
        for c in [WRAPPED, NATIVE] {
            let Some(got) = told(case, "compute_vault_reward", || RewardApi::compute_vault_reward(v.clone(), c)) else { return };
            let want = gives(&v.account_id, c, || by(&v.account_id, fee::Call::<Runtime>::withdraw_rewards { vault_id: v.clone(), index: None }));
            if let Some(x) = want {
                case.eq(ok(&got), Some(x), "a vault's reward is told other than what it pays", || format!("{NAME} {v:?} {c:?}"));
                if x > 0 {
                    case.event("reward of a vault");
                }
            }
        }
        let v2 = v.clone();
        same(case, "estimate_vault_reward_rate", || RewardApi::estimate_vault_reward_rate(v.clone()), || runtime_common::estimate_vault_reward_rate::<Runtime, VaultAnnuityInstance, VaultStaking, VaultCapacity, _>(v2));
    }
    let (n, until) = (r.gen::<bool>().then(|| log_uniform_u128(r, 48)), r.gen::<bool>().then(|| now() + r.gen_range(1..100) * WEEKS));
    same(case, "estimate_escrow_reward_rate", || RewardApi::estimate_escrow_reward_rate(who.clone(), n, until), || runtime_common::estimate_escrow_reward_rate::<Runtime, EscrowAnnuityInstance, EscrowRewards, _>(who.clone(), n, until));
}
fn locks(case: &mut Case, r: &mut R) {
    for i in 0..8 {
        let who = acc(i);
        let ctx = || format!("{NAME} {}", acc_name(&who));
        let Some(n) = told(case, "free_stakable", || EscrowApi::free_stakable(who.clone()).amount) else { return };
        let more = |n: u128| dry(|| by(&who, escrow::Call::<Runtime>::increase_amount { amount: n })).is_ok();
        let l = Escrow::locked_balance(&who);
        let end = {
            use codec::Encode;
            let b = l.encode();
            BlockNumber::from_le_bytes(b[b.len() - 4..].try_into().unwrap())
        };
        if end > now() && l.amount > 0 {
            if n > 0 {
                case.check(more(n), "what is told to be stakable cannot be", || format!("{} {n}", ctx()));
                case.event("stakable");
            }
            case.check(!more(n + 1), "more is stakable than told", || format!("{} {n}", ctx()));
            case.eval(2);
        }
        if i != 0 && !r.gen_ratio(1, 3) {
            continue;
        }
        // the power now, and later
        let h = now() + r.gen_range(0..40);
        let (Some(a), Some(b)) = (told(case, "balance_at", || EscrowApi::balance_at(who.clone(), Some(h)).amount), told(case, "total_supply", || EscrowApi::total_supply(Some(h)).amount)) else { return };
        same(case, "balance_at", || EscrowApi::balance_at(who.clone(), None).amount, || Escrow::balance_at(&who, Some(now())));
        same(case, "total_supply", || EscrowApi::total_supply(None).amount, || Escrow::total_supply(Some(now())));
        let then = dry(|| {
            System::set_block_number(h);
            (EscrowApi::balance_at(who.clone(), None).amount, EscrowApi::total_supply(None).amount)
        });
        case.eq((a, b), then, "the voting power of a height is told other than when it comes", || format!("{} at {h}", ctx()));
        if a > 0 && h > now() {
            case.event("power later");
        }
    }
}
fn vaults(case: &mut Case, r: &mut R, p: &Pool) {
    for v in p.vaults.iter().cloned().chain([VaultId::new(acc(1), RELAY, WRAPPED)]) {
        let key = (None, v.clone());
        let stake = || <VaultStaking as RewardsApi<(Option<Nonce>, VaultId), AccountId, Balance>>::get_stake(&key, &v.account_id);
        same(case, "get_vault_collateral", || VaultRegistryApi::get_vault_collateral(v.clone()), || stake().map(w));
        same(case, "get_vault_total_collateral", || VaultRegistryApi::get_vault_total_collateral(v.clone()), || VaultRegistry::get_backing_collateral(&v).map(|x| w(x.amount())));
        same(case, "get_issuable_tokens_from_vault", || VaultRegistryApi::get_issuable_tokens_from_vault(v.clone()), || VaultRegistry::get_issuable_tokens_from_vault(&v).map(|x| w(x.amount())));
        same(case, "get_required_collateral_for_vault", || VaultRegistryApi::get_required_collateral_for_vault(v.clone()), || VaultRegistry::get_required_collateral_for_vault(v.clone()).map(|x| w(x.amount())));
        for only in [true, false] {
            same(case, "get_collateralization_from_vault", || VaultRegistryApi::get_collateralization_from_vault(v.clone(), only), || VaultRegistry::get_collateralization_from_vault(v.clone(), only));
            let n = log_uniform_u128(r, 50);
            let got = told(case, "get_collateralization_from_vault_and_collateral", || VaultRegistryApi::get_collateralization_from_vault_and_collateral(v.clone(), w(n), only));
            let want = VaultRegistry::get_collateralization_from_vault_and_collateral(v.clone(), &Amount::new(n, v.currencies.collateral), only);
            case.eq(s(got), s(Some(&want)), "a vault's collateralization with given collateral", || format!("{NAME} {v:?} {n} {only}"));
            if want.is_ok() {
                case.event("collateralization");
            }
        }
        // what is told to be issuable is asked for
        if let Some(Ok(n)) = told(case, "get_issuable_tokens_from_vault", || VaultRegistryApi::get_issuable_tokens_from_vault(v.clone())) {
            let n = n.amount;
            let ask = |n: u128| {
                dry(|| {
                    mint(&acc(0), NATIVE, 1 << 90);
                    by(&acc(0), issue::Call::<Runtime>::request_issue { amount: n, vault_id: v.clone(), griefing_currency: NATIVE })
                })
            };
            if n > 0 {
                case.check(ask(n).is_ok(), "what is told to be issuable cannot be issued", || format!("{NAME} {v:?} {n}: {:?}", ask(n)));
                case.event("issuable");
            }
            let listed = VaultRegistryApi::get_vaults_with_issuable_tokens().map(|l| l.into_iter().find(|x| x.0 == v).map(|x| x.1.amount).unwrap_or(0));
            case.eq(listed, Ok(n), "a vault is listed with other than what it can issue", || format!("{NAME} {v:?}"));
        }
    }
    let pairs = |l: Result<Vec<(VaultId, Amount<Runtime>)>, DispatchError>| l.map(|l| l.into_iter().map(|x| (x.0, w(x.1.amount()))).collect::<Vec<_>>());
    same(case, "get_vaults_with_issuable_tokens", VaultRegistryApi::get_vaults_with_issuable_tokens, || pairs(VaultRegistry::get_vaults_with_issuable_tokens()));
    same(case, "get_vaults_with_redeemable_tokens", VaultRegistryApi::get_vaults_with_redeemable_tokens, || pairs(VaultRegistry::get_vaults_with_redeemable_tokens()));
    same(case, "get_premium_redeem_vaults", RedeemApi::get_premium_redeem_vaults, || pairs(Redeem::get_premium_redeem_vaults()));
    for _ in 0..3 {
        // with the collateral's price fallen to where some vault is worth a premium
        let v = pick(r, &p.vaults).clone();
        let near = FixedU128::from_rational(r.gen_range(100..200u128), 100);
        dry(|| {
            let c = v.currencies.collateral;
            let (Ok(now), Ok(ratio)) = (Oracle::get_price(oracle::OracleKey::ExchangeRate(c)), VaultRegistryApi::get_collateralization_from_vault(v.clone(), false)) else { return };
            let Some(then) = now.checked_mul(&ratio).and_then(|x| x.checked_div(&near)).filter(|x| !x.is_zero()) else { return };
            set_rate(c, then);
            same(case, "get_premium_redeem_vaults", RedeemApi::get_premium_redeem_vaults, || pairs(Redeem::get_premium_redeem_vaults()));
            if RedeemApi::get_premium_redeem_vaults().is_ok() {
                case.event("vaults at a premium");
            }
        });
    }
    let (n, c) = (log_uniform_u128(r, 50), *pick(r, &[RELAY, Token(KSM), ForeignAsset(1), NATIVE]));
    same(case, "get_required_collateral_for_wrapped", || VaultRegistryApi::get_required_collateral_for_wrapped(w(n), c), || VaultRegistry::get_required_collateral_for_wrapped(&Amount::new(n, WRAPPED), c).map(|x| w(x.amount())));
    same(case, "wrapped_to_collateral", || OracleApi::wrapped_to_collateral(w(n), c), || Oracle::wrapped_to_collateral(n, c).map(w));
    same(case, "collateral_to_wrapped", || OracleApi::collateral_to_wrapped(w(n), c), || Oracle::collateral_to_wrapped(n, c).map(w));
}
/// what a map is kept under
fn keys(pallet: &str, map: &str) -> Vec<H256> {
    let prefix = [sp_io::hashing::twox_128(pallet.as_bytes()), sp_io::hashing::twox_128(map.as_bytes())].concat();
    let (mut k, mut out) = (prefix.clone(), vec![]);
    while let Some(n) = sp_io::storage::next_key(&k).filter(|n| n.starts_with(&prefix)) {
        out.push(H256::from_slice(&n[n.len() - 32..]));
        k = n;
    }
    out
}
fn requests(case: &mut Case, _r: &mut R, p: &Pool) {
    for who in p.accounts.iter().take(10) {
        let sorted = |mut v: Vec<H256>| {
            v.sort();
            v
        };
        let iss: Vec<_> = keys("Issue", "IssueRequests").into_iter().filter_map(|i| Some((i, Issue::issue_requests(i)?))).collect();
        let red: Vec<_> = keys("Redeem", "RedeemRequests").into_iter().filter_map(|i| Some((i, Redeem::redeem_requests(i)?))).collect();
        let rep: Vec<_> = keys("Replace", "ReplaceRequests").into_iter().filter_map(|i| Some((i, Replace::get_open_or_completed_replace_request(&i).or(Replace::get_open_or_cancelled_replace_request(&i)).ok()?))).collect();
        let w: [(&str, Vec<H256>, Vec<H256>); 6] = [
            ("get_issue_requests", IssueApi::get_issue_requests(who.clone()), iss.iter().filter(|x| x.1.requester == *who).map(|x| x.0).collect()),
            ("get_vault_issue_requests", IssueApi::get_vault_issue_requests(who.clone()), iss.iter().filter(|x| x.1.vault.account_id == *who).map(|x| x.0).collect()),
            ("get_redeem_requests", RedeemApi::get_redeem_requests(who.clone()), red.iter().filter(|x| x.1.redeemer == *who).map(|x| x.0).collect()),
            ("get_vault_redeem_requests", RedeemApi::get_vault_redeem_requests(who.clone()), red.iter().filter(|x| x.1.vault.account_id == *who).map(|x| x.0).collect()),
            ("get_old_vault_replace_requests", ReplaceApi::get_old_vault_replace_requests(who.clone()), rep.iter().filter(|x| x.1.old_vault.account_id == *who).map(|x| x.0).collect()),
            ("get_new_vault_replace_requests", ReplaceApi::get_new_vault_replace_requests(who.clone()), rep.iter().filter(|x| x.1.new_vault.account_id == *who).map(|x| x.0).collect()),
        ];
        for (what, got, want) in w {
            case.eval(1);
            if !want.is_empty() {
                case.event("requests");
            }
            case.eq(sorted(got), sorted(want), "the requests of an account are told wrongly", || format!("{NAME} {what} {}", acc_name(who)));
        }
        let mut want: Vec<_> = p.vaults.iter().filter(|v| v.account_id == *who).cloned().collect();
        let mut got = VaultRegistryApi::get_vaults_by_account_id(who.clone()).unwrap_or_default();
        want.sort();
        got.retain(|v| want.contains(v) || v.account_id != *who);
        got.sort();
        case.eq(got, want, "the vaults of an account are told wrongly", || format!("{NAME} {}", acc_name(who)));
    }
}
fn pools(case: &mut Case, r: &mut R, p: &Pool) {
    let who = acc(r.gen_range(0..2));
    let some: [Vec<CurrencyId>; 5] = [vec![NATIVE, RELAY], vec![RELAY, NATIVE], vec![WRAPPED, RELAY, NATIVE], vec![NATIVE, Token(KSM)], vec![NATIVE, WRAPPED]];
    let path = pick(r, &some).clone();
    let (a, b) = (path[0], path[1]);
    same(case, "get_pair_by_asset_id", || DexGeneralApi::get_pair_by_asset_id(a, b), || DexGeneral::get_pair_by_asset_id(a, b));
    let n = log_uniform_u128(r, 44);
    let last = *path.last().unwrap();
    let far = now() + 1000;
    same(case, "get_amount_out_price", || DexGeneralApi::get_amount_out_price(n, path.clone()), || DexGeneral::supply_out_amount(n, path.clone()));
    same(case, "get_amount_in_price", || DexGeneralApi::get_amount_in_price(n, path.clone()), || DexGeneral::desired_in_amount(n, path.clone()));
    if let Some(out) = told(case, "get_amount_out_price", || DexGeneralApi::get_amount_out_price(n, path.clone())) {
        let got = gives(&who, last, || {
            mint(&who, a, n);
            by(&who, dex_general::Call::<Runtime>::swap_exact_assets_for_assets { amount_in: n, amount_out_min: 0, path: path.clone(), recipient: who.clone(), deadline: far })
        });
        if let Some(x) = got {
            case.eq(out, x, "a swap gives other than told", || format!("{NAME} {n} {path:?}"));
            case.event("swapped out");
        }
    }
    if let Some(give) = told(case, "get_amount_in_price", || DexGeneralApi::get_amount_in_price(n, path.clone())) {
        let took = dry(|| {
            mint(&who, a, 1 << 90);
            let b = free(a, &who);
            by(&who, dex_general::Call::<Runtime>::swap_assets_for_exact_assets { amount_out: n, amount_in_max: 1 << 90, path: path.clone(), recipient: who.clone(), deadline: far }).ok()?;
            Some(b - free(a, &who))
        });
        if let Some(x) = took {
            case.eq(give, x, "a swap takes other than told", || format!("{NAME} {n} {path:?}"));
            case.event("swapped in");
        }
    }
    if let Some(i) = DexGeneral::get_pair_by_asset_id(a, b).filter(|_| r.gen_ratio(1, 3)) {
        // a pair whose sides are worth unlike amounts
        let n = i.reserve_0.max(i.reserve_1) / 100 * r.gen_range(1..300u128);
        mint(&who, a, n);
        let _ = by(&who, dex_general::Call::<Runtime>::swap_exact_assets_for_assets { amount_in: n, amount_out_min: 0, path: vec![a, b], recipient: who.clone(), deadline: far });
    }
    let (x, y) = (log_uniform_u128(r, 46), log_uniform_u128(r, 46));
    let k = *pick(r, &[1, 3, 100, 1 << 60]);
    let (mut x, mut y, mut mx, mut my) = (x, y, x / k, y / k);
    if let (Some(i), true) = (DexGeneral::get_pair_by_asset_id(a, b), r.gen()) {
        // near the pair's own price, with little room, on one side or both
        let near = |r: &mut R, q: u128| q / 1000 * r.gen_range(900..1100u128);
        let part = r.gen_range(2..200u128);
        let (p, q) = if i.asset_0 == a { (i.reserve_0, i.reserve_1) } else { (i.reserve_1, i.reserve_0) };
        (x, y) = (near(r, p / part), near(r, q / part));
        (mx, my) = *pick(r, &[(x / 10 * 7, y / 10 * 7), (x / 10 * 7, 0), (0, y / 10 * 7), (x / 10 * 7, y / 100)]);
    }
    let est = told(case, "get_estimate_lptoken", || DexGeneralApi::get_estimate_lptoken(a, b, x, y, mx, my));
    if let (Some(est), Some(lp)) = (est, pair(a, b)) {
        let got = gives(&who, lp, || {
            mint(&who, a, x);
            mint(&who, b, y);
            by(&who, dex_general::Call::<Runtime>::add_liquidity { asset_0: a, asset_1: b, amount_0_desired: x, amount_1_desired: y, amount_0_min: mx, amount_1_min: my, deadline: far })
        });
        if let Some(g) = got {
            case.event(if mx != my { "liquidity given, of unlike bounds" } else { "liquidity given, of like bounds" });
            case.eq(est, g, "liquidity gives other than told", || format!("{NAME} {a:?} {b:?} {x} {y} at least {mx} {my}"));
            case.event("liquidity given");
        }
    }
    if let Some(lp) = pair(a, b) {
        let n = free(lp, &who) / r.gen_range(1..2000);
        if let Some(Some((g0, g1))) = told(case, "calculate_remove_liquidity", || DexGeneralApi::calculate_remove_liquidity(a, b, n)) {
            let got = dry(|| {
                let (x, y) = (free(a, &who), free(b, &who));
                by(&who, dex_general::Call::<Runtime>::remove_liquidity { asset_0: a, asset_1: b, liquidity: n, amount_0_min: 0, amount_1_min: 0, recipient: who.clone(), deadline: far }).ok()?;
                Some((free(a, &who) - x, free(b, &who) - y))
            });
            if let Some(g) = got {
                case.eq((g0, g1), g, "liquidity taken out gives other than told", || format!("{NAME} {a:?} {b:?} {n}"));
                case.event("liquidity taken");
            }
        }
    }
    let _ = p;
}
fn curves(case: &mut Case, r: &mut R, _p: &Pool) {
    use dex_stable::traits::StableAmmApi;
    for id in 0..3u32 {
        let pool = dex_stable::Pools::<Runtime>::get(id);
        let info = pool.map(|p| p.info());
        let ctx = || format!("{NAME} pool {id}");
        // the curve's parameter now
        let want = info.as_ref().map(|p| {
            let t = time_ms() as u128 / 1000;
            if t >= p.future_a_time {
                return p.future_a;
            }
            let (gone, all) = (U256::from(t - p.initial_a_time), U256::from(p.future_a_time - p.initial_a_time));
            let d = U256::from(p.initial_a.abs_diff(p.future_a)) * gone / all;
            if p.future_a > p.initial_a { p.initial_a + d.as_u128() } else { p.initial_a - d.as_u128() }
        });
        let want = want.unwrap_or_default();
        if want % 100 != 0 {
            case.event("curve on its way");
        }
        let Some((fine, plain)) = told(case, "get_a_precise", || (DexStableApi::get_a_precise(id), DexStableApi::get_a(id))) else { return };
        case.eq(fine, want, "a pool's precise amplification is told other than it is", ctx);
        case.eq(plain, want / 100, "a pool's amplification is told other than it is", ctx);
        same(case, "get_virtual_price", || DexStableApi::get_virtual_price(id), || DexStable::get_virtual_price(id));
        let none = info.is_none();
        let i = info.clone();
        let got = told(case, "a pool's currencies", || {
            (
                DexStableApi::get_currencies(id),
                DexStableApi::get_lp_currency(id),
                DexStableApi::get_currency_precision_multipliers(id),
                DexStableApi::get_currency_balances(id),
                DexStableApi::get_number_of_currencies(id),
                (0..5).map(|k| DexStableApi::get_currency(id, k)).collect::<Vec<_>>(),
            )
        });
        let want = match &i {
            None => (vec![], None, vec![], vec![], 0, vec![None; 5]),
            Some(p) => (p.currency_ids.to_vec(), Some(p.lp_currency_id), p.token_multipliers.to_vec(), p.balances.to_vec(), p.currency_ids.len() as u32, (0..5).map(|k| p.currency_ids.get(k).copied()).collect()),
        };
        case.eq(got, Some(want), "a stable pool is told other than it is", ctx);
        let fees: Vec<Balance> = i.iter().flat_map(|p| p.currency_ids.iter().zip(p.balances.iter()).map(|(c, n)| free(*c, &p.account) - n).collect::<Vec<_>>()).collect();
        let got = told(case, "get_admin_balances", || DexStableApi::get_admin_balances(id));
        case.eq(got, Some(fees), "a stable pool's fees are told other than they are", ctx);
        // what the next step gives
        let k = i.as_ref().map_or(2, |p| p.currency_ids.len());
        let (x, y, n) = (r.gen_range(0..k + 1), r.gen_range(0..k), log_uniform_u128(r, 42));
        let amounts: Vec<Balance> = (0..k).map(|_| if r.gen_ratio(1, 4) { 0 } else { log_uniform_u128(r, 42) }).collect();
        let dep = r.gen();
        same(case, "calculate_currency_amount", || DexStableApi::calculate_currency_amount(id, amounts.clone(), dep), || DexStable::stable_amm_calculate_currency_amount(id, &amounts, dep).unwrap_or_default());
        same(case, "calculate_swap", || DexStableApi::calculate_swap(id, x as u32, y as u32, n), || DexStable::stable_amm_calculate_swap_amount(id, x, y, n).unwrap_or_default());
        same(case, "calculate_remove_liquidity", || DexStableApi::calculate_remove_liquidity(id, n), || DexStable::stable_amm_calculate_remove_liquidity(id, n).unwrap_or_default());
        same(case, "calculate_remove_liquidity_one_currency", || DexStableApi::calculate_remove_liquidity_one_currency(id, n, y as u32), || DexStable::stable_amm_calculate_remove_liquidity_one_currency(id, n, y as u32).unwrap_or_default());
        if none {
            continue;
        }
        let info = i.unwrap();
        let who = acc(r.gen_range(0..2));
        let far = now() + 1000;
        type DS = dex_stable::Call<Runtime>;
        if x < k && x != y {
            let (a, b) = (info.currency_ids[x], info.currency_ids[y]);
            let got = gives(&who, b, || {
                give(&who, a, n);
                by(&who, DS::swap { pool_id: id, from_index: x as u32, to_index: y as u32, in_amount: n, min_out_amount: 0, to: who.clone(), deadline: far })
            });
            if let (Some(g), Some(q)) = (got, told(case, "calculate_swap", || DexStableApi::calculate_swap(id, x as u32, y as u32, n))) {
                // (the answer may be two units too careful)
                case.check(q <= g && g <= q + 2, "a swap of a stable pool gives other than told", || format!("{} {x} {y} {n}: told {q}, got {g}", ctx()));
                case.event("stable swap");
            }
        }
        let lp = info.lp_currency_id;
        let n = free(lp, &who) / r.gen_range(1..2000);
        if n > 0 {
            let one = gives(&who, info.currency_ids[y], || by(&who, DS::remove_liquidity_one_currency { pool_id: id, lp_amount: n, index: y as u32, min_amount: 0, to: who.clone(), deadline: far }));
            if let (Some(g), Some(q)) = (one, told(case, "calculate_remove_liquidity_one_currency", || DexStableApi::calculate_remove_liquidity_one_currency(id, n, y as u32))) {
                case.eq(q, g, "a stable pool pays other than told in one currency", || format!("{} {y} {n}", ctx()));
                case.event("stable taken as one");
            }
            let all = dry(|| {
                let b: Vec<Balance> = info.currency_ids.iter().map(|c| free(*c, &who)).collect();
                by(&who, DS::remove_liquidity { pool_id: id, lp_amount: n, min_amounts: vec![0; k], to: who.clone(), deadline: far }).ok()?;
                Some(info.currency_ids.iter().zip(b).map(|(c, b)| free(*c, &who) - b).collect::<Vec<_>>())
            });
            if let (Some(g), Some(q)) = (all, told(case, "calculate_remove_liquidity", || DexStableApi::calculate_remove_liquidity(id, n))) {
                case.eq(q, g, "a stable pool pays other than told", || format!("{} {n}", ctx()));
                case.event("stable taken");
            }
        }
        if amounts.iter().any(|x| *x > 0) {
            // (the estimate is before the fee an uneven deposit pays)
            let got = gives(&who, lp, || {
                for (c, n) in info.currency_ids.iter().zip(&amounts) {
                    give(&who, *c, *n);
                }
                by(&who, DS::add_liquidity { pool_id: id, amounts: amounts.clone(), min_mint_amount: 0, to: who.clone(), deadline: far })
            });
            if let (Some(g), Some(q)) = (got, told(case, "calculate_currency_amount", || DexStableApi::calculate_currency_amount(id, amounts.clone(), true))) {
                case.check(q + 1 >= g && g + g / 50 + 2 >= q, "a deposit in a stable pool gives far from what was told", || format!("{} {amounts:?}: told {q}, got {g}", ctx()));
                case.event("stable given");
            }
        }
    }
}
fn others(case: &mut Case, r: &mut R, p: &Pool) {
    for who in p.accounts.iter().take(8) {
        same(case, "get_account_liquidity", || LoansApi::get_account_liquidity(who.clone()), || Loans::get_account_liquidity(who).and_then(|x| x.to_rpc_tuple()));
        same(case, "get_liquidation_threshold_liquidity", || LoansApi::get_liquidation_threshold_liquidity(who.clone()), || Loans::get_account_liquidation_threshold_liquidity(who).and_then(|x| x.to_rpc_tuple()));
        case.event("account in markets");
    }
    let c = *pick(r, &[RELAY, Token(KSM), WRAPPED, NATIVE]);
    same(case, "get_market_status", || LoansApi::get_market_status(c), || Loans::get_market_status(c));
    // blocks of Bitcoin: deep enough, not deep enough, not there, by what this chain asks for at the time
    let best_block = BTCRelay::get_best_block();
    let headers: Vec<_> = keys("BTCRelay", "BlockHeaders").into_iter().take(6).map(|k| bitcoin::types::H256Le::from_bytes_le(&k.0)).chain([best_block]).collect();
    let (deep, long) = (r.gen_range(0..7u32), r.gen_range(0..3u32));
    dry(|| {
        for (what, v) in [("StableBitcoinConfirmations", deep), ("StableParachainConfirmations", long)] {
            frame_support::storage::unhashed::put(&[sp_core::hashing::twox_128(b"BTCRelay"), sp_core::hashing::twox_128(what.as_bytes())].concat(), &(v as u32));
        }
        for h in &headers {
            same(case, "verify_block_header_inclusion", || BtcRelayApi::verify_block_header_inclusion(*h), || BTCRelay::verify_block_header_inclusion(*h, None).map(|_| ()));
            case.event(if BtcRelayApi::verify_block_header_inclusion(*h).is_ok() { "block known" } else { "block too young" });
        }
    });
    let h = bitcoin::types::H256Le::from_bytes_le(&r.gen::<[u8; 32]>());
    case.check(BtcRelayApi::verify_block_header_inclusion(h).is_err(), "a block nobody submitted is told to be included", || format!("{NAME}"));
    case.event("block unknown");
}
