//! J01: the yearly yield the chain quotes is the one that is then earned.
use crate::g_any::{cfg, rich, E};
use mon::{rand::Rng, *};
use primitives::{CurrencyId::*, VaultCurrencyPair};
use reward::RewardsApi;
use rt::{runtime::*, world::*};
use runtime_common::{estimate_escrow_reward_rate, estimate_vault_reward_rate};
use sp_runtime::{DispatchError, FixedPointNumber, FixedU128};

const BLOCKS_PER_YEAR: u128 = 365 * 24 * 60 * 60 / 12;

fn escrow_rate(who: AccountId, amount: Option<Balance>, until: Option<BlockNumber>) -> Result<FixedU128, DispatchError> {
    estimate_escrow_reward_rate::<Runtime, EscrowAnnuityInstance, EscrowRewards, _>(who, amount, until)
}
fn vault_rate(v: VaultId) -> Result<FixedU128, DispatchError> {
    estimate_vault_reward_rate::<Runtime, VaultAnnuityInstance, VaultStaking, VaultCapacity, _>(v)
}
#[derive(Clone, Copy, Debug, codec::Decode)]
struct Lock {
    amount: u128,
    end: BlockNumber,
}
fn lock_of(who: &AccountId) -> Lock {
    use codec::{Decode, Encode};
    Lock::decode(&mut &escrow::Pallet::<Runtime>::locked_balance(who).encode()[..]).unwrap()
}
fn f(x: u128) -> f64 {
    x as f64
}
fn near(a: f64, b: f64, tol: f64) -> bool {
    (a - b).abs() <= tol + 1e-9 * b.abs()
}
fn per_block<I: 'static>(pot: u128) -> u128
where
    Runtime: annuity::Config<I>,
    <<Runtime as annuity::Config<I>>::Currency as frame_support::traits::Currency<AccountId>>::Balance: Into<u128>,
{
    let _ = pot;
    let all: u128 = annuity::RewardPerBlock::<Runtime, I>::get().into();
    match annuity::RewardPerWrapped::<Runtime, I>::get() {
        Some(w) => all.min(Into::<u128>::into(w).saturating_mul(issuance(WRAPPED))),
        None => all,
    }
}
/// vaults, and the commission each set
fn setup(r: &mut R) -> Vec<(VaultId, u128)> {
    let p = rich(r);
    let mut set = vec![];
    // of the many: those who may be nominated, their commission and their nominators
    for v in &p.vaults {
        let mut commission = 0;
        if r.gen_ratio(2, 3) {
            let _ = by(&v.account_id, nomination::Call::<Runtime>::opt_in_to_nomination { currency_pair: v.currencies.clone() });
            let _ = by(&v.account_id, nomination::Call::<Runtime>::set_nomination_limit { currency_pair: v.currencies.clone(), limit: E });
            let c = *pick(r, &[0u128, 1, 10, 50, 90, 100]);
            if by(&v.account_id, fee::Call::<Runtime>::set_commission { currencies: v.currencies.clone(), commission: ratio(c, 100) }).is_ok() {
                commission = c;
            }
            for n in 0..r.gen_range(0..3) {
                let x = r.gen_range(1..E / 10);
                let _ = by(&acc(n), nomination::Call::<Runtime>::deposit_collateral { vault_id: v.clone(), amount: x });
            }
        }
        if r.gen() {
            let _ = by(&v.account_id, nomination::Call::<Runtime>::deposit_collateral { vault_id: v.clone(), amount: r.gen_range(1..E / 10) });
        }
        if r.gen_ratio(1, 4) {
            let c = FixedU128::from_inner(r.gen_range(2..6u128) * FixedU128::DIV);
            let _ = by(&v.account_id, vault_registry::Call::<Runtime>::set_custom_secure_threshold { currency_pair: v.currencies.clone(), custom_threshold: Some(c) });
        }
        set.push((v.clone(), commission));
    }
    // (more than ever was issued is not put in a pot)
    let bits = *pick(r, &[30u32, 50, 60, 66]);
    mint(&EscrowAnnuity::account_id(), NATIVE, log_uniform_u128(r, bits));
    mint(&VaultAnnuity::account_id(), NATIVE, log_uniform_u128(r, bits));
    let _ = root(annuity::Call::<Runtime, EscrowAnnuityInstance>::update_rewards {});
    let _ = root(annuity::Call::<Runtime, VaultAnnuityInstance>::update_rewards {});
    if r.gen() {
        let _ = root(annuity::Call::<Runtime, EscrowAnnuityInstance>::set_reward_per_wrapped { reward_per_wrapped: log_uniform_u128(r, 20) });
    }
    if r.gen() {
        let _ = root(annuity::Call::<Runtime, VaultAnnuityInstance>::set_reward_per_wrapped { reward_per_wrapped: log_uniform_u128(r, 20) });
    }
    blocks(r.gen_range(1..30));
    set
}
fn locks(case: &mut Case, r: &mut R) {
    with_world(&cfg(), || {
        if case.total("setup", String::new, || setup(r)).is_none() {
            return;
        }
        for _ in 0..10 {
            if r.gen_ratio(1, 3) {
                blocks(*pick(r, &[1, 7, 100]));
            }
            let who = acc(r.gen_range(0..9));
            let old = lock_of(&who);
            let amount = match r.gen_range(0..4) {
                0 => None,
                1 => Some(0),
                2 => Some(r.gen_range(0..E / 2)),
                _ => Some(log_uniform_u128(r, 50)),
            };
            let until = match r.gen_range(0..4) {
                0 => None,
                1 => Some(0),
                2 => Some(now() + WEEKS * r.gen_range(1..90)),
                _ => Some(old.end.max(now()) + WEEKS + r.gen_range(0..WEEKS)),
            };
            let ctx = || format!("{} has {old:?}, would add {amount:?} until {until:?} at {}", acc_name(&who), now());
            let got = dry(|| case.total("quoting a yield panics", ctx, || escrow_rate(who.clone(), amount, until)));
            let Some(got) = got else { return };
            case.eval(1);
            // what is earned when it is done
            let new = old.amount + amount.unwrap_or(0);
            let end = match until {
                None | Some(0) => old.end,
                Some(u) => u / WEEKS * WEEKS,
            };
            let can = new >= MaxPeriod::get() as u128 && free(NATIVE, &who) >= new;
            if !can {
                case.check(got.is_err() || new == 0, "a yield on a lock that cannot be made", || format!("{} {got:?}", ctx()));
                case.event("no such lock");
                continue;
            }
            let Ok(got) = got else {
                // (locks the extrinsics refuse may be refused here too)
                if end > now() && (end as u64) < now() as u64 + MaxPeriod::get() as u64 && old.end > now() && end >= old.end {
                    case.violate("no yield on a lock that can be made", format!("{} {got:?}", ctx()));
                }
                continue;
            };
            let rate = f(got.into_inner()) / 1e18;
            if end <= now() {
                case.check(rate == 0.0, "a lock that has ended earns something", || format!("{} {rate}", ctx()));
                case.event("nothing for a lock that ended");
                continue;
            }
            let mine = <EscrowRewards as RewardsApi<(), AccountId, Balance>>::get_stake(&(), &who).unwrap();
            let all = <EscrowRewards as RewardsApi<(), AccountId, Balance>>::get_total_stake(&()).unwrap();
            // (votes by the rule: what is locked, a part of the longest time for each block left)
            let stake = new / MaxPeriod::get() as u128 * (end - now()) as u128;
            let total = all - mine + stake;
            let reward = per_block::<EscrowAnnuityInstance>(free(NATIVE, &EscrowAnnuity::account_id())).saturating_mul(BLOCKS_PER_YEAR);
            if total == 0 {
                continue;
            }
            let share = f(reward) * f(stake) / f(total);
            let want = share / f(new);
            let tol = (f(stake) * 2e-18 + 3.0) / f(new) + 2e-18;
            case.check(near(rate, want, tol), "the yield of a lock is not the share of a year's rewards it has", || format!("{}: {rate}, should be {want} ({reward} a year, {stake} of {total})", ctx()));
            case.event(if rate > 0.0 { "yield of a lock" } else { "no yield" });
            case.state(format!("{}", got.into_inner()).as_bytes());
            // doing it
            if old.end > now() && end >= old.end && r.gen_ratio(2, 3) {
                let n = r.gen_range(1..8u32);
                let earned = dry(|| {
                    if let Some(a) = amount.filter(|a| *a > 0) {
                        by(&who, escrow::Call::<Runtime>::increase_amount { amount: a }).ok()?;
                    }
                    if end > old.end {
                        by(&who, escrow::Call::<Runtime>::increase_unlock_height { unlock_height: until? }).ok()?;
                    }
                    if amount.unwrap_or(0) == 0 && end == old.end {
                        by(&who, escrow::Call::<Runtime>::update_user_stake { target_user: who.clone() }).ok()?;
                    }
                    by(&who, annuity::Call::<Runtime, EscrowAnnuityInstance>::withdraw_rewards {}).ok()?;
                    let before = free(NATIVE, &who);
                    blocks(n);
                    by(&who, annuity::Call::<Runtime, EscrowAnnuityInstance>::withdraw_rewards {}).ok()?;
                    Some(free(NATIVE, &who) - before)
                });
                if let Some(e) = earned {
                    let want = rate * f(new) / f(BLOCKS_PER_YEAR) * n as f64;
                    // what was promised cannot be paid from an empty pot
                    let tol = 3.0 + n as f64 * (f(total) * 2e-18 + 2.0) + f(new) * 2e-18;
                    case.check(near(f(e), want, tol), "a lock earns other than the yield quoted", || format!("{}: {e} in {n} blocks, promised {want}", ctx()));
                    case.event(if e > 0 { "lock earned" } else { "lock earned nothing" });
                    case.eval(1);
                }
            }
        }
    })
}
fn vaults(case: &mut Case, r: &mut R) {
    with_world(&cfg(), || {
        let Some(all) = case.total("setup", String::new, || setup(r)) else { return };
        for _ in 0..8 {
            if r.gen_ratio(1, 3) {
                blocks(*pick(r, &[1, 3, 50]));
            }
            if r.gen_ratio(1, 4) {
                let c = *pick(r, &[RELAY, Token(KSM), NATIVE]);
                set_rate(c, FixedU128::from_inner(r.gen_range(1..2000u128) * 10_000_000_000_000_000_000));
            }
            let (v, commission) = pick(r, &all).clone();
            let c = v.currencies.collateral;
            let ctx = || format!("{:?} of {} at {}", c, acc_name(&v.account_id), now());
            let Some(got) = dry(|| case.total("quoting a yield panics", ctx, || vault_rate(v.clone()))) else { return };
            case.eval(1);
            let (sc, ac) = (
                <VaultCapacity as RewardsApi<(), CurrencyId, Balance>>::get_stake(&(), &c).unwrap(),
                <VaultCapacity as RewardsApi<(), CurrencyId, Balance>>::get_total_stake(&()).unwrap(),
            );
            let (sv, av) = (
                <VaultRewards as RewardsApi<CurrencyId, VaultId, Balance>>::get_stake(&c, &v).unwrap(),
                <VaultRewards as RewardsApi<CurrencyId, VaultId, Balance>>::get_total_stake(&c).unwrap(),
            );
            let key = (None, v.clone());
            let (so, ao) = (
                <VaultStaking as RewardsApi<(Option<Nonce>, VaultId), AccountId, Balance>>::get_stake(&key, &v.account_id).unwrap(),
                <VaultStaking as RewardsApi<(Option<Nonce>, VaultId), AccountId, Balance>>::get_total_stake(&key).unwrap(),
            );
            let rate_of = |c| oracle::Pallet::<Runtime>::get_price(oracle::OracleKey::ExchangeRate(c)).map(|x| f(x.into_inner()) / 1e18);
            let (Ok(rn), Ok(rc)) = (rate_of(NATIVE), rate_of(c)) else {
                case.event("no prices");
                continue;
            };
            let com = commission as f64 / 100.0;
            let reward = per_block::<VaultAnnuityInstance>(0).saturating_mul(BLOCKS_PER_YEAR);
            let Ok(got) = got else {
                case.check(ac == 0 || av == 0 || ao == 0, "no yield for a vault with a stake", || format!("{} {got:?} capacity {sc}/{ac}, {sv}/{av}, {so}/{ao}", ctx()));
                case.event("no yield to quote");
                continue;
            };
            let rate = f(got.into_inner()) / 1e18;
            if ac == 0 || av == 0 || ao == 0 || so == 0 {
                continue;
            }
            let part = f(reward) * f(sc) / f(ac) * f(sv) / f(av);
            let received = part * com + part * (1.0 - com) * f(so) / f(ao);
            let want = received / rn * rc / f(so);
            let tol = ((f(sc + sv + so) * 4e-18 + 6.0) / rn * rc + 2.0 * rc + 2.0) / f(so) + 2e-18;
            case.check(near(rate, want, tol), "the yield of a vault is not its share of a year's rewards at the price of its collateral", || format!("{}: {rate}, should be {want} ± {tol} ({reward} a year, {sc}/{ac}, {sv}/{av}, {so}/{ao}, commission {com}, prices {rn} {rc})", ctx()));
            case.event(if want > 4.0 * tol { "yield of a vault" } else { "hardly a yield" });
            if com > 0.0 && so < ao && want > 4.0 * tol {
                case.event("yield of a vault with nominators and commission");
            }
            case.state(format!("{}", got.into_inner()).as_bytes());
            // running it
            let n = r.gen_range(1..8u32);
            let earned = dry(|| {
                let take = || by(&v.account_id, fee::Call::<Runtime>::withdraw_rewards { vault_id: v.clone(), index: None });
                take().ok()?;
                let before = free(NATIVE, &v.account_id);
                blocks(n);
                take().ok()?;
                Some(free(NATIVE, &v.account_id) - before)
            });
            if let Some(e) = earned {
                let want = rate * f(so) / rc * rn / f(BLOCKS_PER_YEAR) * n as f64;
                let tol = n as f64 * (f(sc + sv + so) * 4e-18 + 4.0) + 4.0 + (2.0 * rn + 2.0 + f(so) * 2e-18 / rc * rn) / f(BLOCKS_PER_YEAR) * n as f64 + (6.0 + f(sc + sv + so) * 4e-18) ;
                case.check(near(f(e), want, tol), "a vault earns other than the yield quoted", || format!("{}: {e} in {n} blocks, promised {want} ± {tol}", ctx()));
                case.event(if want > 2.0 * tol { "vault earned" } else { "vault earned next to nothing" });
                case.eval(1);
            }
        }
    })
}
pub fn run(m: &Mon) {
    m.rule("quotes in a chain where every part is in use: for nine accounts with and without locks, adding drawn amounts until drawn blocks; for vaults of two collaterals with nominators and commissions, at moving prices, rewards a block of every size and with and without a limit by wrapped tokens. Each quote is compared with the share of a year's rewards computed from the stakes, and with what is earned when the same is done on a rolled-back copy and some blocks pass. A state is a distinct quote.");
    m.stream("locks", 700, 20, locks);
    m.stream("vaults", 700, 20, vaults);
    for (e, n) in [("yield of a lock", 1000), ("lock earned", 200), ("no such lock", 200), ("yield of a vault", 1000), ("yield of a vault with nominators and commission", 200), ("vault earned", 500)] {
        m.require(e, n);
    }
    let _: Option<VaultCurrencyPair<CurrencyId>> = None;
}
