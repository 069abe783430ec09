//! E01: voting power and locks of the escrow pallet, against a direct model of every lock.
use frame_support::traits::{Currency, ReservableCurrency};
use mon::{rand::Rng, *};
use reward::RewardsApi;
use rt::{runtime::*, world::*};
use std::collections::BTreeMap;

const SPAN: u32 = WEEKS;
const MAX: u32 = WEEKS * 192;

#[derive(Clone, Debug, Default)]
struct User {
    amount: u128,
    end: u32,
    stake: u128,
    reserved: u128,
    limit: Option<(u32, u32)>,
    blocked: bool,
}
impl User {
    fn power(&self, h: u32) -> u128 {
        if self.end > h {
            self.amount / MAX as u128 * (self.end - h) as u128
        } else {
            0
        }
    }
    /// what may be locked at `h` out of `free`
    fn lockable(&self, free: u128, h: u32) -> u128 {
        if self.blocked {
            return 0;
        }
        match self.limit {
            None => free,
            Some((s, e)) => {
                let d = e.saturating_sub(s) as u128;
                let slope = if d == 0 { 0 } else { free / d };
                (slope * d).saturating_sub(slope * e.saturating_sub(h) as u128)
            }
        }
    }
}
fn lock_of(who: &AccountId) -> u128 {
    orml_tokens::Locks::<Runtime>::get(who, NATIVE).iter().map(|l| l.amount).max().unwrap_or(0)
}
fn rewards_stake(who: &AccountId) -> u128 {
    <EscrowRewards as RewardsApi<(), AccountId, Balance>>::get_stake(&(), who).unwrap_or(u128::MAX)
}

fn check(case: &mut Case, us: &BTreeMap<u32, User>, hs: &[u32], ctx: &str) -> bool {
    let n = now();
    let mut ok = true;
    let mut sum = 0;
    for (a, u) in us {
        let who = acc(*a);
        let p = u.power(n);
        sum += p;
        ok &= case.eq(Escrow::balance_at(&who, None), p, "voting power is not the lock's amount in proportion to the time left", || format!("{a} {u:?} at {n} after {ctx}"));
        ok &= case.eq(<Escrow as Currency<AccountId>>::free_balance(&who), p.saturating_sub(u.reserved), "free voting power is not what is left after reservations", || format!("{a} {u:?} at {n} after {ctx}"));
        ok &= case.eq(lock_of(&who), u.amount, "the native tokens locked are not the lock's amount", || format!("{a} {u:?} at {n} after {ctx}"));
        ok &= case.eq(Escrow::locked_balance(&who).amount, u.amount, "the recorded lock is not what was deposited", || format!("{a} {u:?} at {n} after {ctx}"));
        ok &= case.eq(rewards_stake(&who), u.stake, "the stake for rewards is not the voting power at the last update", || format!("{a} {u:?} at {n} after {ctx}"));
        for h in hs {
            let h = n + h;
            ok &= case.eq(Escrow::balance_at(&who, Some(h)), u.power(h), "future voting power is not the lock's amount in proportion to the time left", || format!("{a} {u:?} at {h} from {n} after {ctx}"));
        }
        case.eval(3);
    }
    ok &= case.eq(Escrow::total_supply(None), sum, "the voting power in existence is not the sum over holders", || format!("at {n} after {ctx}: {us:?}"));
    for h in hs {
        let want: u128 = us.values().map(|u| u.power(n + h)).sum();
        ok &= case.eq(Escrow::total_supply(Some(n + h)), want, "the future voting power in existence is not the sum over holders", || format!("at {} from {n} after {ctx}: {us:?}", n + h));
    }
    let st: u128 = us.values().map(|u| u.stake).sum();
    ok &= case.eq(<EscrowRewards as RewardsApi<(), AccountId, Balance>>::get_total_stake(&()), Ok(st), "the total stake for rewards is not the sum over holders", || ctx.to_string());
    ok
}

fn history(case: &mut Case, r: &mut R) {
    let nu = r.gen_range(1..6u32);
    let steps = r.gen_range(8..40);
    let endow = *pick(r, &[10_000_000u128, 1_000_000_000_000, 1_000_000_000_000_000_000]);
    let c = Cfg { accounts: 7, endowment: endow, ..Default::default() };
    let long = r.gen_bool(0.5);
    with_world(&c, || {
        let mut us: BTreeMap<u32, User> = (0..nu).map(|i| (i, User::default())).collect();
        for _ in 0..steps {
            // time
            let n = now();
            let next = match r.gen_range(0..7) {
                0 | 1 => n,
                2 => n + 1,
                3 => n + r.gen_range(1..SPAN),
                4 => (n / SPAN + 1) * SPAN + r.gen_range(0..2) - if r.gen() { 1 } else { 0 },
                5 => us.values().filter(|u| u.end > n).map(|u| u.end).min().unwrap_or(n) + r.gen_range(0..2),
                _ => n + r.gen_range(1..20) * SPAN * if long { 5 } else { 1 },
            };
            if next > n {
                block_at(next, MILLISECS_PER_BLOCK);
                let hs = [r.gen_range(1..SPAN * 3), SPAN * r.gen_range(1..100)];
                if !check(case, &us, &hs, "blocks passed") { return }
            }
            let n = now();
            let a = r.gen_range(0..nu);
            let who = acc(a);
            let u = us[&a].clone();
            let fr = free(NATIVE, &who);
            let can = u.lockable(fr, n);
            let amount = |r: &mut R| match r.gen_range(0..7) {
                0 => 0,
                1 => MAX as u128 + r.gen_range(0..3) - 1,
                2 => can.saturating_sub(u.amount),
                3 => can.saturating_sub(u.amount) + 1,
                4 => (MAX as u128).saturating_sub(u.amount),
                _ => r.gen_range(0..=can.saturating_sub(u.amount) / 2 + 1),
            };
            let height = |r: &mut R| match r.gen_range(0..8) {
                0 => n,
                1 => (n + MAX) / SPAN * SPAN + r.gen_range(0..2) * SPAN,
                2 => u.end + SPAN,
                3 => u.end + r.gen_range(0..SPAN),
                4 => n + r.gen_range(0..SPAN),
                _ => n + r.gen_range(1..MAX),
            };
            let mut exp: Option<User> = None; // state after success, None = must be refused
            let what;
            let res;
            let enough = |amt: u128| amt >= MAX as u128 && can >= amt;
            match r.gen_range(0..16) {
                0..=3 => {
                    let (x, h) = (amount(r), height(r));
                    let e = h / SPAN * SPAN;
                    if x > 0 && u.amount == 0 && e > n && e <= n + MAX && enough(x) {
                        let mut v = u.clone();
                        v.amount = x;
                        v.end = e;
                        v.stake = v.power(n);
                        exp = Some(v);
                    }
                    what = format!("{a} create_lock {x} until {h}");
                    res = act(case, "create_lock", signed(&who), escrow::Call::create_lock { amount: x, unlock_height: h });
                }
                4..=5 => {
                    let x = amount(r);
                    if x > 0 && u.amount > 0 && u.end > n && enough(u.amount.saturating_add(x)) {
                        let mut v = u.clone();
                        v.amount += x;
                        v.stake = v.power(n);
                        exp = Some(v);
                    }
                    what = format!("{a} increase_amount {x}");
                    res = act(case, "increase_amount", signed(&who), escrow::Call::increase_amount { amount: x });
                }
                6..=7 => {
                    let h = height(r);
                    let e = h / SPAN * SPAN;
                    if u.amount > 0 && u.end > n && e > u.end && e <= n + MAX && enough(u.amount) {
                        let mut v = u.clone();
                        v.end = e;
                        v.stake = v.power(n);
                        exp = Some(v);
                    }
                    what = format!("{a} increase_unlock_height {h}");
                    res = act(case, "increase_unlock_height", signed(&who), escrow::Call::increase_unlock_height { unlock_height: h });
                }
                8..=9 => {
                    if n >= u.end {
                        exp = Some(User { amount: 0, end: 0, stake: 0, ..u.clone() });
                    }
                    what = format!("{a} withdraw");
                    res = act(case, "withdraw", signed(&who), escrow::Call::withdraw {});
                }
                10..=11 => {
                    let by = acc(r.gen_range(0..7));
                    if enough(u.amount) {
                        let mut v = u.clone();
                        v.stake = v.power(n);
                        exp = Some(v);
                    }
                    what = format!("update_user_stake of {a}");
                    res = act(case, "update_user_stake", signed(&by), escrow::Call::update_user_stake { target_user: who.clone() });
                }
                12 => {
                    if r.gen_bool(0.5) { continue }
                    let s = n.saturating_sub(r.gen_range(0..SPAN * 20));
                    let e = s + r.gen_range(0..SPAN * 60);
                    let as_root = r.gen_bool(0.6);
                    if as_root { exp = Some(User { limit: Some((s, e)), ..u.clone() }) }
                    what = format!("limit {a} to {s}..{e} root {as_root}");
                    res = act(case, "set_account_limit", if as_root { Origin::root() } else { signed(&who) }, escrow::Call::set_account_limit { who: who.clone(), start: s, end: e });
                }
                13 => {
                    if r.gen_bool(0.7) { continue }
                    let as_root = r.gen_bool(0.5);
                    if as_root { exp = Some(User { blocked: true, ..u.clone() }) }
                    what = format!("block {a} root {as_root}");
                    res = act(case, "set_account_block", if as_root { Origin::root() } else { signed(&who) }, escrow::Call::set_account_block { who: who.clone() });
                }
                14 => {
                    // locked tokens cannot be moved
                    let mv = fr - u.amount.min(fr);
                    let x = match r.gen_range(0..4) { 0 => mv, 1 => mv + 1, 2 => mv / 2, _ => 1 };
                    what = format!("{a} transfers {x} of free {fr} locked {}", u.amount);
                    let fits = x <= mv;
                    res = act(case, "transfer", signed(&who), orml_tokens::Call::transfer { dest: acc(6), currency_id: NATIVE, amount: x });
                    if fits { exp = Some(u.clone()) }
                    if fits && x > 0 { case.event("free tokens moved") }
                    if !fits { case.event("locked tokens held") }
                }
                _ => {
                    let fp = u.power(n).saturating_sub(u.reserved);
                    let x = match r.gen_range(0..4) { 0 => fp, 1 => fp + 1, _ => r.gen_range(0..=fp) };
                    if r.gen_bool(0.6) {
                        what = format!("{a} reserve {x} of {fp}");
                        res = Some(<Escrow as ReservableCurrency<AccountId>>::reserve(&who, x).map_err(|e| e));
                        if x <= fp { exp = Some(User { reserved: u.reserved + x, ..u.clone() }) }
                    } else {
                        let x = match r.gen_range(0..3) { 0 => u.reserved, 1 => u.reserved + 5, _ => u.reserved / 2 };
                        what = format!("{a} unreserve {x} of {}", u.reserved);
                        let left = <Escrow as ReservableCurrency<AccountId>>::unreserve(&who, x);
                        case.eq(left, x.saturating_sub(u.reserved), "unreserving reports a wrong remainder", || what.clone());
                        res = Some(Ok(()));
                        exp = Some(User { reserved: u.reserved.saturating_sub(x), ..u.clone() });
                    }
                }
            }
            let Some(res) = res else { return };
            let okk = match (&res, &exp) {
                (Ok(()), None) => { case.violate("the escrow accepts what its rules refuse", format!("{what} at {n}: {u:?} free {fr}")); false }
                (Err(e), Some(v)) => { case.violate("the escrow refuses what its rules allow", format!("{what} at {n}: {u:?} free {fr} -> {v:?}: {e:?}")); false }
                _ => true,
            };
            if !okk { return }
            let name = what.split(' ').find(|w| w.chars().next().unwrap().is_alphabetic()).unwrap_or("?").to_string();
            case.event(&format!("{name} {}", if res.is_ok() { "ok" } else { "refused" }));
            if let Some(v) = exp {
                us.insert(a, v);
            }
            case.state_dbg(&(n, &us));
            if !check(case, &us, &[r.gen_range(0..SPAN * 2)], &what) { return }
        }
        // everybody leaves in the end
        let last = us.values().map(|u| u.end).max().unwrap_or(0).max(now()) + 1;
        block_at(last, MILLISECS_PER_BLOCK);
        for a in 0..nu {
            let Some(res) = act(case, "withdraw", signed(&acc(a)), escrow::Call::withdraw {}) else { return };
            case.check(res.is_ok(), "an expired lock cannot be withdrawn", || format!("{a}: {res:?}"));
            let u = us.get_mut(&a).unwrap();
            *u = User { reserved: u.reserved, ..Default::default() };
        }
        check(case, &us, &[5, SPAN], "the end");
        case.sample(|| format!("{nu} users until block {last}"));
    });
}

pub fn run(m: &Mon) {
    m.rule("histories: random locks, extensions, withdrawals, limits, reservations and transfers by several accounts, with blocks passing between (also to exact week boundaries and expiries); after every step every balance and the supply, now and at future heights, are compared with a direct model. A state is a block with every account's lock.");
    m.stream("histories", 6000, 20, history);
    for (e, n) in [("create_lock ok", 1000), ("create_lock refused", 500), ("increase_amount ok", 300), ("increase_unlock_height ok", 300), ("withdraw ok", 300), ("withdraw refused", 300), ("update_user_stake ok", 300), ("locked tokens held", 100), ("free tokens moved", 300), ("limit ok", 100), ("block ok", 20)] {
        m.require(e, n);
    }
}
