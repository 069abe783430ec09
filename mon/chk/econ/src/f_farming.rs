//! F01: farming schedules, stakes and claims, against a model of every token and period.
use mon::{rand::Rng, *};
use num_bigint::BigInt;
use primitives::LpToken;
use reward::RewardsApi;
use rt::{runtime::*, world::*};
use sp_core::Get;
use std::collections::BTreeMap;

fn pool(i: usize, flip: bool) -> CurrencyId {
    use primitives::TokenSymbol::*;
    let (a, b) = match i {
        0 => (LpToken::Token(DOT), LpToken::Token(IBTC)),
        1 => (LpToken::Token(IBTC), LpToken::ForeignAsset(3)),
        _ => (LpToken::ForeignAsset(1), LpToken::StableLpToken(2)),
    };
    if flip { CurrencyId::LpToken(b, a) } else { CurrencyId::LpToken(a, b) }
}
fn cur(i: usize) -> CurrencyId {
    if i == 0 { NATIVE } else { CurrencyId::ForeignAsset(10 + i as u32) }
}
fn treasury() -> AccountId {
    <TreasuryAccount as Get<AccountId>>::get()
}
const SC: u32 = 40;
fn sc() -> BigInt {
    BigInt::from(10u8).pow(SC)
}
#[derive(Default, Clone, Debug)]
struct Sched {
    count: u32,
    per: u128,
}
#[derive(Default)]
struct Model {
    sched: BTreeMap<(usize, usize), Sched>,
    stake: BTreeMap<(usize, u32), u128>,
    owed: BTreeMap<(usize, usize, u32), BigInt>,
    slack: BTreeMap<(usize, usize, u32), BigInt>,
    seen: BTreeMap<usize, Vec<usize>>,
    held: BTreeMap<(usize, usize), u128>,
    rpt: BTreeMap<(usize, usize), f64>,
}
impl Model {
    fn st(&self, p: usize, a: u32) -> u128 {
        self.stake.get(&(p, a)).copied().unwrap_or(0)
    }
    fn total(&self, p: usize) -> u128 {
        self.stake.iter().filter(|(k, _)| k.0 == p).map(|x| x.1).sum()
    }
}
fn compute(p: usize, a: u32, c: usize) -> u128 {
    let mut k = pool(p, false);
    k.sort();
    <FarmingRewards as RewardsApi<CurrencyId, AccountId, Balance>>::compute_reward(&k, &acc(a), cur(c)).unwrap_or(u128::MAX)
}
fn account(p: usize) -> AccountId {
    let mut k = pool(p, false);
    k.sort();
    Farming::pool_account_id(&k)
}

fn check(case: &mut Case, m: &Model, np: usize, nc: usize, na: u32, ctx: &str) -> bool {
    let mut ok = true;
    for p in 0..np {
        let mut k = pool(p, false);
        k.sort();
        for a in 0..na {
            let who = acc(a);
            ok &= case.eq(reserved(k, &who), m.st(p, a), "the tokens locked are not the farmer's stake", || format!("pool {p} farmer {a} after {ctx}"));
            ok &= case.eq(<FarmingRewards as RewardsApi<CurrencyId, AccountId, Balance>>::get_stake(&k, &who), Ok(m.st(p, a)), "a stake is not the tokens locked", || format!("pool {p} farmer {a} after {ctx}"));
        }
        for c in 0..nc {
            let s = Farming::reward_schedules(k, cur(c));
            let w = m.sched.get(&(p, c)).cloned().unwrap_or_default();
            ok &= case.eq((s.period_count, s.per_period), (w.count, w.per), "a schedule is not what was set less the periods handed out", || format!("pool {p} currency {c} after {ctx}"));
            let mut promised: u128 = 0;
            for a in 0..na {
                let g = compute(p, a, c);
                let e = m.owed.get(&(p, c, a)).cloned().unwrap_or_default();
                let sl = m.slack.get(&(p, c, a)).cloned().unwrap_or_default() + sc() / 10u64.pow(15);
                let gb = BigInt::from(g) * sc();
                ok &= case.check(gb <= &e + &sl && gb + sc() + &sl > e, "a farmer is not owed its share of the periods handed out", || {
                    format!("pool {p} farmer {a} currency {c} after {ctx}: announced {g}, exact {}", &e / sc())
                });
                promised = promised.saturating_add(g);
                case.eval(1);
            }
            let have = free(cur(c), &account(p));
            ok &= case.eq(have, m.held.get(&(p, c)).copied().unwrap_or(0), "a pool's account does not hold what was funded less what was claimed or returned", || format!("pool {p} currency {c} after {ctx}"));
            ok &= case.check(promised.saturating_add(w.per.saturating_mul(w.count as u128)) <= have, "a pool promises more than its account holds", || {
                format!("pool {p} currency {c} after {ctx}: owed {promised}, schedule {w:?}, account {have}")
            });
        }
    }
    ok
}

fn history(case: &mut Case, r: &mut R) {
    let np = r.gen_range(1..4usize);
    let nc = r.gen_range(1..4usize);
    let na = r.gen_range(1..5u32);
    let steps = r.gen_range(15..80);
    with_world(&Cfg { accounts: na, ..Default::default() }, || {
        let mut m = Model::default();
        for c in 0..nc {
            set_balance(&treasury(), cur(c), 10u128.pow(17));
        }
        for p in 0..np {
            for a in 0..na {
                let mut k = pool(p, false);
                k.sort();
                set_balance(&acc(a), k, log_uniform_u128(r, 50));
            }
        }
        for _ in 0..steps {
            let (p, c, a) = (r.gen_range(0..np), r.gen_range(0..nc), r.gen_range(0..na));
            let flip = r.gen();
            let who = acc(a);
            let k = { let mut k = pool(p, false); k.sort(); k };
            let what;
            match r.gen_range(0..16) {
                0..=1 => {
                    let count = match r.gen_range(0..6) { 0 => 0, 1 => u32::MAX - r.gen_range(0..2), _ => r.gen_range(1..12) };
                    let amount = match r.gen_range(0..5) { 0 => 0, 1 => 10u128.pow(18), _ => log_uniform_u128(r, 45) };
                    let as_root = r.gen_bool(0.8);
                    let t = free(cur(c), &treasury());
                    what = format!("schedule pool {p} currency {c}: {count} periods, {amount} (treasury {t}, root {as_root})");
                    let Some(res) = act(case, "update_reward_schedule", if as_root { Origin::root() } else { signed(&who) }, farming::Call::update_reward_schedule { pool_currency_id: pool(p, flip), reward_currency_id: cur(c), period_count: count, amount }) else { return };
                    let s = m.sched.get(&(p, c)).cloned().unwrap_or_default();
                    let n = s.count.checked_add(count);
                    let legal = as_root && amount <= t && n.is_some();
                    if !case.eq(res.is_ok(), legal, "a schedule is accepted or refused against the rules", || format!("{what}: {res:?}")) { return }
                    if legal {
                        let n = n.unwrap();
                        let total = s.per * s.count as u128 + amount;
                        let per = if n == 0 { 0 } else { total / n as u128 };
                        m.sched.insert((p, c), Sched { count: n, per });
                        *m.held.entry((p, c)).or_default() += amount;
                        case.eq(free(cur(c), &treasury()), t - amount, "a schedule is not funded by the treasury", || what.clone());
                        case.event("schedule");
                    } else {
                        case.event("schedule refused");
                    }
                }
                2 if r.gen_bool(0.4) => {
                    let as_root = r.gen_bool(0.7);
                    what = format!("remove schedule pool {p} currency {c} root {as_root}");
                    let t = free(cur(c), &treasury());
                    let Some(res) = act(case, "remove_reward_schedule", if as_root { Origin::root() } else { signed(&who) }, farming::Call::remove_reward_schedule { pool_currency_id: pool(p, flip), reward_currency_id: cur(c) }) else { return };
                    if !case.eq(res.is_ok(), as_root, "a schedule can be removed by anyone, or not by governance", || format!("{what}: {res:?}")) { return }
                    if as_root {
                        let s = m.sched.remove(&(p, c)).unwrap_or_default();
                        let back = free(cur(c), &treasury()) - t;
                        // what is owed to farmers stays, the rest of the schedule goes back (rounding leftovers may)
                        case.check(back >= s.per * s.count as u128, "removing a schedule does not return what was not handed out", || format!("{what}: {s:?}, returned {back}"));
                        *m.held.entry((p, c)).or_default() -= back.min(m.held.get(&(p, c)).copied().unwrap_or(0));
                        case.event("remove schedule");
                    }
                }
                3..=5 => {
                    let f = free(k, &who);
                    let len = match r.gen_range(0..4) { 0 => r.gen_range(0..4), _ => u32::MAX };
                    let seen = m.seen.get(&p).map(|x| x.len()).unwrap_or(0) as u32;
                    if m.rpt.iter().any(|(i, v)| i.0 == p && v * (m.total(p) + f) as f64 > 5e19) {
                        case.event("beyond the fixed point range");
                        continue;
                    }
                    what = format!("deposit {f} to pool {p} by {a} (rewards {len} of {seen})");
                    let Some(res) = act(case, "deposit", signed(&who), farming::Call::deposit { pool_currency_id: pool(p, flip), length_rewards: len }) else { return };
                    if !case.eq(res.is_ok(), len >= seen, "a deposit is accepted or refused against the rules", || format!("{what}: {res:?}")) { return }
                    if res.is_ok() {
                        *m.stake.entry((p, a)).or_default() += f;
                        case.event("deposit");
                    }
                }
                6..=8 => {
                    let s = m.st(p, a);
                    let x = match r.gen_range(0..6) { 0 => s, 1 => s + 1 + r.gen_range(0..1000), 2 => 0, _ => r.gen_range(0..=s) };
                    let len = match r.gen_range(0..4) { 0 => r.gen_range(0..4), _ => u32::MAX };
                    let seen = m.seen.get(&p).map(|x| x.len()).unwrap_or(0) as u32;
                    what = format!("withdraw {x} of {s} from pool {p} by {a} (rewards {len} of {seen})");
                    let Some(res) = act(case, "withdraw", signed(&who), farming::Call::withdraw { pool_currency_id: pool(p, flip), amount: x, length_rewards: len }) else { return };
                    if !case.eq(res.is_ok(), len >= seen && x <= s, "a withdrawal is accepted or refused against the rules", || format!("{what}: {res:?}")) { return }
                    if res.is_ok() {
                        *m.stake.entry((p, a)).or_default() -= x;
                        case.event("withdraw");
                    } else {
                        case.event("withdraw refused");
                    }
                }
                9..=10 => {
                    let want = compute(p, a, c);
                    let had = free(cur(c), &who);
                    what = format!("claim pool {p} currency {c} by {a}, announced {want}");
                    let Some(res) = act(case, "claim", signed(&who), farming::Call::claim { pool_currency_id: pool(p, flip), reward_currency_id: cur(c) }) else { return };
                    if !case.check(res.is_ok(), "an announced farming reward cannot be claimed", || format!("{what}: {res:?}")) { return }
                    case.eq(free(cur(c), &who) - had, want, "claiming does not pay what was announced", || what.clone());
                    *m.held.entry((p, c)).or_default() -= want;
                    m.owed.remove(&(p, c, a));
                    m.slack.remove(&(p, c, a));
                    if want > 0 { case.event("claim") }
                }
                11 => {
                    // more tokens to farm with
                    let (x, y) = (log_uniform_u128(r, 40), reserved(k, &who));
                    let _ = y;
                    set_balance(&who, k, free(k, &who) + x);
                    continue;
                }
                _ => {
                    // a stake's share of all rewards so far must fit the 128-bit fixed point type
                    let far = |m: &Model, p: usize, c: usize, per: u128| {
                        let t = m.total(p) as f64;
                        t > 0.0 && (m.rpt.get(&(p, c)).copied().unwrap_or(0.0) + per as f64 / t) * t > 5e19
                    };
                    if m.sched.iter().any(|((p, c), s)| far(&m, *p, *c, s.per)) {
                        case.event("beyond the fixed point range");
                        break;
                    }
                    let n = now() + if r.gen_bool(0.3) { r.gen_range(1..4) } else { MINUTES - now() % MINUTES };
                    what = format!("block {n}");
                    case.log(|| what.clone());
                    block_at(n, MILLISECS_PER_BLOCK);
                    if n % MINUTES == 0 {
                        let keys: Vec<_> = m.sched.keys().copied().collect();
                        for (p, c) in keys {
                            let t = m.total(p);
                            let s = m.sched.get_mut(&(p, c)).unwrap();
                            if s.count == 0 {
                                m.sched.remove(&(p, c));
                                continue;
                            }
                            if s.per == 0 {
                                s.count -= 1;
                                continue;
                            }
                            if t == 0 {
                                case.event("period without farmers");
                                continue;
                            }
                            s.count -= 1;
                            let per = s.per;
                            *m.rpt.entry((p, c)).or_default() += per as f64 / t as f64;
                            let seen = m.seen.entry(p).or_default();
                            if !seen.contains(&c) { seen.push(c) }
                            for a in 0..na {
                                let x = m.stake.get(&(p, a)).copied().unwrap_or(0);
                                if x > 0 {
                                    *m.owed.entry((p, c, a)).or_default() += BigInt::from(per) * x * sc() / t;
                                    *m.slack.entry((p, c, a)).or_default() += BigInt::from(x) * sc() / 10u64.pow(18);
                                }
                            }
                            case.event("period handed out");
                        }
                    }
                }
            }
            case.state_dbg(&(now(), &m.sched, &m.stake));
            if !check(case, &m, np, nc, na, &what) { return }
        }
        // everybody can leave with everything
        for p in 0..np {
            for a in 0..na {
                for c in 0..nc {
                    let want = compute(p, a, c);
                    let had = free(cur(c), &acc(a));
                    let Some(res) = act(case, "claim", signed(&acc(a)), farming::Call::claim { pool_currency_id: pool(p, true), reward_currency_id: cur(c) }) else { return };
                    case.check(res.is_ok() && free(cur(c), &acc(a)) == had + want, "an announced farming reward cannot be claimed", || format!("pool {p} currency {c} by {a}, announced {want}: {res:?}"));
                }
                let s = m.st(p, a);
                let Some(res) = act(case, "withdraw", signed(&acc(a)), farming::Call::withdraw { pool_currency_id: pool(p, true), amount: s, length_rewards: 10 }) else { return };
                case.check(res.is_ok(), "a stake cannot be withdrawn", || format!("pool {p} by {a}: {s}: {res:?}"));
            }
        }
        check_issuance(case);
        case.sample(|| format!("{np} pools, {nc} currencies, {na} farmers, schedules {:?}", m.sched));
    });
}

pub fn run(m: &Mon) {
    m.rule("histories: random schedules, deposits, withdrawals, claims and periods over several pools and reward currencies (pool tokens named in either order); after every step every stake, announced reward, schedule and pool account is compared with a model. A state is a block with all schedules and stakes.");
    m.stream("histories", 4000, 20, history);
    for (e, n) in [("schedule", 1000), ("schedule refused", 200), ("remove schedule", 200), ("deposit", 1000), ("withdraw", 1000), ("claim", 1000), ("period handed out", 1000), ("period without farmers", 100)] {
        m.require(e, n);
    }
}
