//! A01: emission and block rewards, against a model of every token movement.
use mon::{rand::Rng, *};
use num_bigint::BigInt;
use reward::RewardsApi;
use rt::{runtime::*, world::*};
use sp_core::Get;
use sp_runtime::{FixedU128, Permill};

fn owed(n: u32) -> u128 {
    (0..n).map(|a| <EscrowRewards as RewardsApi<(), AccountId, Balance>>::compute_reward(&(), &acc(a), NATIVE).unwrap_or(0)).sum()
}
fn escrow_stake() -> u128 {
    <EscrowRewards as RewardsApi<(), AccountId, Balance>>::get_total_stake(&()).unwrap_or(0)
}
fn capacity() -> u128 {
    <VaultCapacity as RewardsApi<(), CurrencyId, Balance>>::get_total_stake(&()).unwrap_or(0)
}
fn capacity_owed() -> u128 {
    [RELAY, NATIVE].iter().map(|c| <VaultCapacity as RewardsApi<(), CurrencyId, Balance>>::compute_reward(&(), c, NATIVE).unwrap_or(0)).sum()
}
#[derive(Clone, Debug, PartialEq)]
struct Books {
    issuance: u128,
    supply: u128,
    vault: u128,
    escrow: u128,
    treasury: u128,
    pool: u128,
    rpb_vault: u128,
    rpb_escrow: u128,
    start: Option<u32>,
}
fn books() -> Books {
    Books {
        issuance: issuance(NATIVE),
        supply: free(NATIVE, &Supply::account_id()),
        vault: free(NATIVE, &VaultAnnuity::account_id()),
        escrow: free(NATIVE, &EscrowAnnuity::account_id()),
        treasury: free(NATIVE, &<TreasuryAccount as Get<AccountId>>::get()),
        pool: free(NATIVE, &<FeeAccount as Get<AccountId>>::get()),
        rpb_vault: VaultAnnuity::reward_per_block(),
        rpb_escrow: EscrowAnnuity::reward_per_block(),
        start: Supply::start_height(),
    }
}
fn share(p: Permill, x: u128) -> (u128, u128) {
    // the rounding of a share is not specified: floor or ceiling
    let e = BigInt::from(x) * p.deconstruct();
    let f: BigInt = &e / 1_000_000u32;
    let f: u128 = f.to_string().parse().unwrap();
    let exact = BigInt::from(f) * 1_000_000u32 == e;
    (f, if exact { f } else { f + 1 })
}
fn mul(f: FixedU128, x: u128) -> Option<u128> {
    let v: BigInt = BigInt::from(f.into_inner()) * x / BigInt::from(10u64.pow(18));
    v.to_string().parse().ok()
}

fn history(case: &mut Case, r: &mut R) {
    let year = *pick(r, &[5u32, 20, 60, 200]);
    set_year(year);
    let nu = r.gen_range(1..5u32);
    let start = r.gen_range(2..40);
    let infl = match r.gen_range(0..5) {
        0 => ratio(0, 1),
        1 => ratio(r.gen_range(0..1000), 1_000_000),
        2 => ratio(r.gen_range(0..300), 100),
        _ => ratio(r.gen_range(1..100), 1000),
    };
    let tiny = r.gen_bool(0.15);
    let c = Cfg {
        accounts: 5,
        endowment: 1_000_000_000_000,
        supply_start: start,
        initial_supply: if tiny { r.gen_range(0..1000) } else { log_uniform_u128(r, 58) },
        inflation: infl,
        ..Default::default()
    };
    // rewards are claimed by everybody before a new year (or the promise is not judged)
    let tidy = r.gen_bool(0.7);
    with_world(&c, || {
        let mut inflation = infl;
        let mut rpw: [Option<u128>; 2] = [None, None];
        // is what is promised to stakers covered by construction?
        let mut covered = true;
        let mut since = 0u32;
        let steps = r.gen_range(20..4 * year.min(100) + 30);
        for _ in 0..steps {
            // ---- actions
            let k = r.gen_range(0..14);
            let before = books();
            let mut after = before.clone();
            match k {
                0..=1 => {
                    let a = r.gen_range(0..nu);
                    let x = r.gen_range(1..60_000_000_000u128);
                    let _ = act(case, "create_lock", signed(&acc(a)), escrow::Call::create_lock { amount: x, unlock_height: WEEKS * r.gen_range(1..190) });
                }
                2..=3 => {
                    // capacity comes and goes
                    let cur = *pick(r, &[RELAY, NATIVE]);
                    let x = if r.gen_bool(0.3) { 0 } else { r.gen_range(1..1_000_000_000u128) };
                    let _ = frame_support::storage::with_storage_layer(|| <VaultCapacity as RewardsApi<(), CurrencyId, Balance>>::set_stake(&(), &cur, x));
                    case.log(|| format!("capacity of {cur:?} = {x}"));
                }
                4 => {
                    let x = if r.gen_bool(0.2) { 0 } else { log_uniform_u128(r, 50) };
                    set_balance(&acc(4), WRAPPED, x);
                    case.log(|| format!("wrapped issuance {x}"));
                }
                5 => {
                    let i = r.gen_range(0..2usize);
                    let bits = if r.gen() { 20 } else { 100 };
                    let x = log_uniform_u128(r, bits);
                    let as_root = r.gen_bool(0.7);
                    let o = if as_root { Origin::root() } else { signed(&acc(0)) };
                    let res = if i == 0 {
                        act(case, "set_reward_per_wrapped", o, annuity::Call::<Runtime, EscrowAnnuityInstance>::set_reward_per_wrapped { reward_per_wrapped: x })
                    } else {
                        act(case, "set_reward_per_wrapped", o, annuity::Call::<Runtime, VaultAnnuityInstance>::set_reward_per_wrapped { reward_per_wrapped: x })
                    };
                    let Some(res) = res else { return };
                    case.eq(res.is_ok(), as_root, "the reward per wrapped token can be set by anyone, or not by governance", || format!("{res:?}"));
                    if as_root { rpw[i] = Some(x) }
                }
                6 if r.gen_bool(0.3) => {
                    let i = r.gen_range(0..2usize);
                    let as_root = r.gen_bool(0.7);
                    let o = if as_root { Origin::root() } else { signed(&acc(0)) };
                    if as_root && i == 0 {
                        if owed(nu) > 0 { covered = false }
                        since = 0;
                    }
                    let res = if i == 0 {
                        act(case, "update_rewards", o, annuity::Call::<Runtime, EscrowAnnuityInstance>::update_rewards {})
                    } else {
                        act(case, "update_rewards", o, annuity::Call::<Runtime, VaultAnnuityInstance>::update_rewards {})
                    };
                    let Some(res) = res else { return };
                    case.eq(res.is_ok(), as_root, "the block reward can be updated by anyone, or not by governance", || format!("{res:?}"));
                    if as_root {
                        if i == 0 { after.rpb_escrow = before.escrow / year as u128 } else { after.rpb_vault = before.vault / year as u128 }
                    }
                }
                7 if r.gen_bool(0.2) => {
                    let h = now() + r.gen_range(0..2 * year);
                    let f = ratio(r.gen_range(0..200), 1000);
                    let as_root = r.gen_bool(0.7);
                    let Some(res) = act(case, "set_start_height_and_inflation", if as_root { Origin::root() } else { signed(&acc(0)) }, supply::Call::set_start_height_and_inflation { start_height: h, inflation: f }) else { return };
                    case.eq(res.is_ok(), as_root, "the emission can be set by anyone, or not by governance", || format!("{res:?}"));
                    if as_root {
                        after.start = Some(h);
                        inflation = f;
                    }
                }
                8..=10 => {
                    let a = r.gen_range(0..nu);
                    let want = <EscrowRewards as RewardsApi<(), AccountId, Balance>>::compute_reward(&(), &acc(a), NATIVE).unwrap_or(0);
                    let had = free(NATIVE, &acc(a));
                    let Some(res) = act(case, "withdraw_rewards", signed(&acc(a)), annuity::Call::<Runtime, EscrowAnnuityInstance>::withdraw_rewards {}) else { return };
                    if want <= before.escrow {
                        case.check(res.is_ok(), "a promised block reward cannot be claimed", || format!("{a} owed {want} of {}: {res:?}", before.escrow));
                    }
                    if res.is_ok() {
                        after.escrow -= want.min(after.escrow);
                        case.eq(free(NATIVE, &acc(a)), had + want, "claiming block rewards does not pay what was promised", || format!("{a} owed {want}"));
                        if want > 0 { case.event("reward claimed") }
                    }
                }
                11 => {
                    let Some(res) = act(case, "withdraw_rewards", signed(&acc(0)), annuity::Call::<Runtime, VaultAnnuityInstance>::withdraw_rewards {}) else { return };
                    case.check(res.is_err(), "the vaults' block rewards can be withdrawn by anyone", || format!("{res:?}"));
                }
                12 if r.gen_bool(0.3) => {
                    // a gift
                    let x = r.gen_range(0..1_000_000u128);
                    let to = if r.gen() { VaultAnnuity::account_id() } else { EscrowAnnuity::account_id() };
                    let _ = act(case, "transfer", signed(&acc(4)), orml_tokens::Call::transfer { dest: to.clone(), currency_id: NATIVE, amount: x });
                    after.vault = free(NATIVE, &VaultAnnuity::account_id());
                    after.escrow = free(NATIVE, &EscrowAnnuity::account_id());
                }
                _ => {}
            }
            if !case.eq(books(), after.clone(), "an operation moved funds of the emission it should not", || format!("before {before:?}")) { return }
            // ---- a block
            let n = now() + 1;
            // the range of the pools' arithmetic
            if after.issuance > 10u128.pow(18) { break }
            if after.start == Some(n) && tidy {
                for a in 0..nu {
                    let _ = act(case, "withdraw_rewards", signed(&acc(a)), annuity::Call::<Runtime, EscrowAnnuityInstance>::withdraw_rewards {});
                }
            }
            let b = books();
            let owed0 = owed(nu);
            let cap0 = capacity_owed();
            let (es, cs) = (escrow_stake(), capacity());
            block_at(n, MILLISECS_PER_BLOCK);
            let g = books();
            let mut w = b.clone();
            if b.start == Some(n) {
                w.start = Some(n + year);
                if let Some(x) = mul(inflation, b.issuance).filter(|x| x.checked_add(b.issuance).is_some()) {
                    w.issuance += x;
                    let (v0, v1) = share(token_distribution::VAULT_INFLATION_REWARDS, x);
                    let (e0, e1) = share(token_distribution::ESCROW_INFLATION_REWARDS, x);
                    // what this block's rewards take out again is added below
                    let ev = g.escrow - b.escrow;
                    if !case.check(ev == e0 || ev == e1, "the emission's share for stakers is wrong", || format!("{b:?} -> {g:?}: inflation {x}")) { return }
                    w.escrow += ev;
                    let tv = g.treasury - b.treasury;
                    let vv = x - ev - tv;
                    if !case.check(vv == v0 || vv == v1, "the emission's share for vaults is wrong", || format!("{b:?} -> {g:?}: inflation {x}")) { return }
                    w.vault += vv;
                    w.treasury += tv;
                    w.rpb_vault = w.vault / year as u128;
                    w.rpb_escrow = w.escrow / year as u128;
                    if owed0 > 0 { covered = false }
                    since = 0;
                    case.event("emission");
                } else {
                    case.event("emission out of range");
                }
            }
            let wrapped = issuance(WRAPPED);
            let cap = |rpb: u128, k: Option<u128>| k.map(|k| k.saturating_mul(wrapped).min(rpb)).unwrap_or(rpb);
            let re = cap(w.rpb_escrow, rpw[0]);
            let rv = cap(w.rpb_vault, rpw[1]);
            if rv > 0 {
                if cs > 0 && w.vault >= rv {
                    w.vault -= rv;
                    w.pool += rv;
                    case.event("vault block reward");
                    let d = capacity_owed() as i128 - cap0 as i128;
                    case.check(d >= rv as i128 - 2 - 1 && d <= rv as i128 + 2, "the vaults' block reward is not shared", || format!("reward {rv}, owed {cap0} -> {}", capacity_owed()));
                } else {
                    case.event("vault block reward impossible");
                    case.eq(capacity_owed(), cap0, "a vaults' block reward is promised but not paid", || format!("reward {rv}"));
                }
            } else {
                case.eq(capacity_owed(), cap0, "a vaults' block reward is promised but not paid", || format!("reward {rv}"));
            }
            if !case.eq(g.clone(), w.clone(), "a block moved other funds than its emission and rewards", || format!("before {b:?}, rewards escrow {re} vault {rv}, capacity {cs}, wrapped {wrapped}")) { return }
            since += 1;
            if since > year { covered = false }
            let o = owed(nu);
            if es > 0 && re > 0 {
                let d = o as i128 - owed0 as i128;
                case.check((d - re as i128).abs() <= nu as i128 + 1 , "the stakers' block reward is not shared", || format!("reward {re}, owed {owed0} -> {o}"));
                case.event("staker block reward");
            } else {
                case.eq(o, owed0, "a block reward is promised to stakers beyond the rate", || format!("reward {re} stake {es}"));
            }
            if covered {
                case.check(o <= g.escrow, "stakers are promised more block rewards than there are", || format!("owed {o} of {}", g.escrow));
                case.event("promise covered");
            }
            case.eval(1);
            case.state_dbg(&g);
            if case.failed() { return }
        }
        check_issuance(case);
        case.sample(|| format!("year {year}: {:?}", books()));
    });
}

/// Two years in which nobody claims: what is promised must stay covered.
fn carry(case: &mut Case, r: &mut R) {
    let year = 50;
    set_year(year);
    let c = Cfg { accounts: 3, endowment: 1_000_000_000_000, supply_start: 2, inflation: ratio(r.gen_range(1..10), 100), ..Default::default() };
    with_world(&c, || {
        root(supply::Call::set_start_height_and_inflation { start_height: 3, inflation: c.inflation }).unwrap();
        by(&acc(0), escrow::Call::create_lock { amount: 500_000_000_000, unlock_height: WEEKS * 100 }).unwrap();
        blocks(year * 2 + 1);
        let (o, h) = (owed(1), free(NATIVE, &EscrowAnnuity::account_id()));
        case.eval(1);
        case.event("two years unclaimed");
        case.check(o <= h, "unclaimed block rewards of a year are promised again in the next", || format!("stakers are owed {o}, the annuity has {h} after two years without a claim"));
    });
}

pub fn run(m: &Mon) {
    m.rule("histories: emission years of 5 to 200 blocks with locks, claims, changing vault capacity, wrapped supply, caps and governance calls; after every call and block every balance of the emission is compared with a model. carry: the known finding on unclaimed rewards. A state is the balances and rates of supply, annuities, treasury and reward pool.");
    m.stream("histories", 3000, 20, history);
    m.stream("carry", 10, 2, carry);
    for (e, n) in [("emission", 500), ("vault block reward", 3000), ("vault block reward impossible", 1000), ("staker block reward", 3000), ("reward claimed", 500), ("promise covered", 3000), ("two years unclaimed", 5)] {
        m.require(e, n);
    }
}
