//! L01 value, L02 interest, L03 collateral and liquidation, L04 incentives, L05 markets:
//! one simulator of the lending pallet, judged from one side at a time.
use sp_runtime::{traits::Zero, FixedPointNumber};
use crate::model::*;
use mon::{rand::Rng, *};
use num_bigint::BigUint;
use primitives::{Rate, Ratio};
use rt::{runtime::*, world::*};
use std::collections::BTreeMap;
use traits::LoansApi;

type Amt = currency::Amount<Runtime>;
#[derive(Clone, Copy, PartialEq, Debug)]
enum V {
    Must,
    Not(&'static str),
    Either,
}
use V::*;
fn all(v: &[V]) -> V {
    for x in v {
        if let Not(s) = x {
            return Not(s);
        }
    }
    if v.contains(&Either) { Either } else { Must }
}
fn need(ok: bool, why: &'static str) -> V {
    if ok { Must } else { Not(why) }
}

struct Sim<'a> {
    prop: &'a str,
    users: Vec<AccountId>,
    who: Vec<AccountId>,
    price: BTreeMap<CurrencyId, u128>,
    min: u128,
    max: u128,
    /// incentives each account has earned: exact (scaled), error bound, paid
    earn: BTreeMap<AccountId, (BigUint, f64, u128)>,
    next_lend: u32,
    peak: BTreeMap<CurrencyId, u128>,
}
/// what an operation should do
#[derive(Default, Clone, Debug)]
struct Want {
    led: BTreeMap<(CurrencyId, AccountId), (i128, i128)>,
    borrow: BTreeMap<CurrencyId, i128>,
    reserve: BTreeMap<CurrencyId, i128>,
    debt: BTreeMap<(CurrencyId, AccountId), u128>,
    deposit: BTreeMap<(CurrencyId, AccountId), i128>,
    touch: Vec<CurrencyId>,
}
impl Want {
    fn f(&mut self, c: CurrencyId, a: &AccountId, d: i128) {
        self.led.entry((c, a.clone())).or_default().0 += d
    }
    fn r(&mut self, c: CurrencyId, a: &AccountId, d: i128) {
        self.led.entry((c, a.clone())).or_default().1 += d
    }
    fn mv(&mut self, c: CurrencyId, a: &AccountId, z: &AccountId, x: u128) {
        self.f(c, a, -(x as i128));
        self.f(c, z, x as i128);
    }
    /// lend tokens arrive: locked when the account has some deposited
    fn arrive(&mut self, s: &Snap, u: CurrencyId, l: CurrencyId, a: &AccountId, x: u128) {
        let gone = self.deposit.get(&(u, a.clone())).cloned().unwrap_or(0);
        if s.pos(u, a).deposit as i128 + gone > 0 {
            self.r(l, a, x as i128);
            *self.deposit.entry((u, a.clone())).or_default() += x as i128;
        } else {
            self.f(l, a, x as i128);
        }
    }
    fn unlock(&mut self, u: CurrencyId, l: CurrencyId, a: &AccountId, x: u128) {
        self.r(l, a, -(x as i128));
        *self.deposit.entry((u, a.clone())).or_default() -= x as i128;
    }
}

impl<'a> Sim<'a> {
    fn ck(&self, case: &mut Case, p: &str, ok: bool, sig: &str, d: impl FnOnce() -> String) -> bool {
        if self.prop == p { case.eval(1) }
        if self.prop == p || std::env::var_os("LOANS_ALL").is_some() { case.check(ok, sig, d) } else { true }
    }
    fn value(&self, c: CurrencyId, x: u128) -> Option<u128> {
        if c == WRAPPED { Some(x) } else { self.price.get(&c).map(|p| md(x, E18, *p)) }
    }
    fn unvalue(&self, c: CurrencyId, v: u128) -> Option<u128> {
        if c == WRAPPED { Some(v) } else { self.price.get(&c).map(|p| md(v, *p, E18)) }
    }
    /// worth of a lend token deposit after a cut
    fn worth(&self, m: &Mk, l: u128, cut: u128) -> Option<u128> {
        let u = md(l, m.rate(self.min)?, E18);
        self.value(m.u, md_up(u, cut, 1_000_000))
    }
    fn collateral(&self, s: &Snap, a: &AccountId, cut: impl Fn(&Mkt) -> u128) -> Option<u128> {
        let mut v = 0;
        for m in s.mk.values().filter(|m| m.active()) {
            let d = s.pos(m.u, a).deposit;
            if d > 0 {
                v += self.worth(m, d, cut(&m.p))?;
            }
        }
        Some(v)
    }
    fn debts(&self, s: &Snap, a: &AccountId) -> Option<u128> {
        let mut v = 0;
        for m in s.mk.values().filter(|m| m.active()) {
            let d = s.debt(m.u, a);
            if d > 0 {
                v += self.value(m.u, d)?;
            }
        }
        Some(v)
    }
    /// does the account's collateral cover its debts and `more`? debts count as of the last update or as of now
    fn covered(&self, pre: &Snap, acc: &Snap, a: &AccountId, more: Option<u128>) -> V {
        let (Some(c), Some(lo), Some(hi), Some(x)) = (self.collateral(acc, a, |p| ppm(p.collateral_factor)), self.debts(pre, a), self.debts(acc, a), more) else {
            return Not("no price");
        };
        if c >= hi + x { Must } else if x == 0 { Either } else if c < lo.min(hi) + x { Not("not enough collateral") } else { Either }
    }
    fn rate_ok(&self, m: &Mk) -> bool {
        m.rate(self.min).map(|r| r >= self.min && r < self.max).unwrap_or(false)
    }
}

fn accrued_snap(s: &Sim, case: &mut Case, pre: &Snap, t: u64) -> (Snap, Vec<CurrencyId>) {
    let mut stuck = vec![];
    let acc = dry(|| {
        for m in pre.mk.values().filter(|m| m.active()) {
            let r = frame_support::storage::with_storage_layer(|| Loans::recompute_underlying_amount(&Amt::new(1, m.l)).map(|_| ()));
            if r.is_err() {
                stuck.push(m.u);
            }
        }
        snap(&s.who)
    });
    if s.prop == "L02" || s.prop == "L01" {
        check_debts(case, &acc);
    }
    if s.prop == "L02" {
        for (u, m) in &pre.mk {
            if m.active() && !stuck.contains(u) {
                check_accrual(case, m, &acc.mk[u], t);
                let real = dry(|| Loans::get_market_status(*u).is_ok());
                case.check(real, "the status of a market cannot be read", || format!("{m:?}"));
            } else {
                case.eq(&acc.mk[u], m, "an inactive market changes", String::new);
            }
        }
        let rec = |s: &Snap| s.pos.iter().map(|(k, p)| (k.clone(), Pos { owes: 0, ..p.clone() })).collect::<BTreeMap<_, _>>();
        case.check(rec(&acc) == rec(pre) && acc.ledger == pre.ledger, "interest changes balances", || format!("{:?}\n{:?}", pre, acc));
    }
    (acc, stuck)
}

/// the state after an operation is the accrued state plus what it should do
fn judge(s: &Sim, case: &mut Case, what: &str, pre: &Snap, acc: &Snap, post: &Snap, w: &Want, t: u64) -> bool {
    let mut led = pre.ledger.clone();
    for (k, (f, r)) in &w.led {
        let e = led.entry(k.clone()).or_default();
        e.0 = (e.0 as i128 + f) as u128;
        e.1 = (e.1 as i128 + r) as u128;
    }
    led.retain(|_, v| *v != (0, 0));
    let mut got = post.ledger.clone();
    got.retain(|_, v| *v != (0, 0));
    let mut ok = s.ck(case, "L01", got == led, "an operation moves other balances than it should", || {
        let mut d = String::new();
        for k in led.keys().chain(got.keys()) {
            if led.get(k) != got.get(k) {
                d += &format!("{:?} {}: want {:?}, got {:?}\n", k.0, acc_name(&k.1), led.get(k), got.get(k));
            }
        }
        format!("{what}\n{d}{w:?}")
    });
    for (u, m) in &post.mk {
        let was = &pre.mk[u];
        let (base, fresh) = if m.last != was.last { (&acc.mk[u], true) } else { (was, false) };
        if w.touch.contains(u) && was.active() {
            ok &= s.ck(case, "L02", m.last == t, "an operation does not accrue interest", || format!("{what} {u:?}: {} at {t}", m.last));
        }
        let mut e = base.clone();
        e.borrows = (e.borrows as i128 + w.borrow.get(u).cloned().unwrap_or(0)).max(0) as u128;
        e.reserves = (e.reserves as i128 + w.reserve.get(u).cloned().unwrap_or(0)) as u128;
        let is = m;
        ok &= s.ck(case, "L01", is.borrows == e.borrows && is.reserves == e.reserves, "an operation leaves the market's debts or reserves wrong", || format!("{what}\nfresh {fresh} want {e:?}\ngot {is:?}"));
        ok &= s.ck(case, "L02", is.index == base.index && is.last == base.last, "an operation leaves the market's index wrong", || format!("{what}\nbase {base:?}\ngot {is:?}"));
        ok &= s.ck(case, "L05", is.p == base.p, "an operation changes a market's parameters", || format!("{what}\nbase {base:?}\ngot {is:?}"));
    }
    for a in &s.who {
        for u in post.mk.keys() {
            let (x, y) = (pre.pos(*u, a), post.pos(*u, a));
            let d = (x.deposit as i128 + w.deposit.get(&(*u, a.clone())).cloned().unwrap_or(0)) as u128;
            ok &= s.ck(case, "L03", y.deposit == d, "collateral records change otherwise than they should", || format!("{what} {} {u:?}: {x:?} -> {y:?}, want {d}", acc_name(a)));
            ok &= s.ck(case, "L03", y.deposit == y.lr, "deposited collateral is not what is locked", || format!("{what} {} {u:?}: {y:?}", acc_name(a)));
            ok &= s.ck(case, "L03", y.deposit == 0 || y.lf == 0, "collateral is only partly locked", || format!("{what} {} {u:?}: {y:?}", acc_name(a)));
            match w.debt.get(&(*u, a.clone())) {
                Some(d) => {
                    let at = if *d == 0 { 0 } else { post.mk[u].index };
                    ok &= s.ck(case, "L01", y.principal == *d && y.at == at, "an operation leaves an account's debt wrong", || format!("{what} {} {u:?}: {x:?} -> {y:?}, want {d} at {at}", acc_name(a)));
                }
                None => ok &= s.ck(case, "L01", y.principal == x.principal && (y.at == x.at || x.principal == 0), "an operation changes a debt of somebody else", || format!("{what} {} {u:?}: {x:?} -> {y:?}", acc_name(a))),
            }
        }
    }
    // what a lend token is worth never falls by more than the rounding of one unit
    for (u, m) in &post.mk {
        let (was, cmp) = (&acc.mk[u], &pre.mk[u]);
        if let (Some(v0), Some(v1), Some(p0)) = (was.value(), m.value(), cmp.value()) {
            if m.supply > 0 && was.supply > 0 {
                let base = if m.last != cmp.last { v0 } else { p0 };
                ok &= s.ck(case, "L01", b(v1 + 1 + v1 / (E18 / 60)) * was.supply >= b(base) * m.supply, "an operation takes value from the lenders", || format!("{what} {u:?}\nbefore {was:?}\nafter  {m:?}"));
            }
        } else {
            s.ck(case, "L01", false, "a market owes its treasury more than it has", || format!("{what} {u:?}\nbefore {was:?}\nafter  {m:?}"));
        }
    }
    ok
}

/// the recorded total of debts is what accounts owe, rounded in the lenders' disfavour
fn totals(s: &mut Sim, case: &mut Case, x: &Snap, steps: u128, what: &str) {
    for (u, m) in &x.mk {
        let sum: u128 = s.who.iter().map(|a| x.debt(*u, a)).sum();
        let peak = s.peak.entry(*u).or_default();
        *peak = (*peak).max(sum).max(m.borrows);
        let peak = *peak;
        s.ck(case, "L01", sum + (steps + 1) * (peak / (E18 / 4)) >= m.borrows, "the market counts on more than is owed to it", || format!("{what} {u:?}: owed {sum}, {m:?}"));
        let slack = (steps + 1) * (s.who.len() as u128 + 2) * (2 + peak / E18 * 4);
        s.ck(case, "L01", m.borrows + slack >= sum, "more is owed to the market than it counts on", || format!("{what} {u:?}: owed {sum}, slack {slack} {m:?}"));
        let held: u128 = s.who.iter().map(|a| { let p = x.pos(*u, a); p.lf + p.lr }).sum();
        s.ck(case, "L01", held == m.supply, "lend tokens are not all held by somebody", || format!("{what} {u:?}: {held} {m:?}"));
    }
}

fn amount(r: &mut R, near: u128) -> u128 {
    match r.gen_range(0..10) {
        0 => near,
        1 => near.saturating_add(1),
        2 => near.saturating_sub(1),
        3 => r.gen_range(0..4),
        4 => near / 2,
        5 => log_uniform_u128(r, 70),
        _ => md(near, r.gen_range(0..1_000_000), 1_000_000),
    }
}
fn ratio_of(r: &mut R, lo: u32, hi: u32) -> Ratio {
    Ratio::from_parts(r.gen_range(lo..=hi))
}
fn rate_model(r: &mut R, wild: bool) -> loans::InterestRateModel {
    let top = if wild { 6_000 } else { 1_000 };
    if r.gen_ratio(1, 4) {
        return loans::InterestRateModel::new_curve_model(Rate::saturating_from_rational(r.gen_range(0..if wild { 150u32 } else { 101 }), 1000u32));
    }
    let mut v = [r.gen_range(0..101u32), r.gen_range(0..1001), r.gen_range(0..top)];
    if !wild || r.gen() {
        v.sort();
        v[0] = v[0].min(100);
        v[1] = v[1].min(1000).max(v[0]);
        v[2] = v[2].min(5000).max(v[1]);
    }
    let ju = match r.gen_range(0..8) {
        0 if wild => 0,
        1 => 1_000_000,
        2 => 1,
        _ => r.gen_range(1..1_000_000),
    };
    let q = |x: u32| Rate::saturating_from_rational(x, 1000u32);
    loans::InterestRateModel::new_jump_model(q(v[0]), q(v[1]), q(v[2]), Ratio::from_parts(ju))
}
fn model_ok(m: &loans::InterestRateModel) -> bool {
    match m {
        loans::InterestRateModel::Curve(c) => inner(c.base_rate) <= E18 / 10,
        loans::InterestRateModel::Jump(j) => {
            inner(j.base_rate) <= E18 / 10
                && inner(j.jump_rate) <= E18
                && inner(j.full_rate) <= 5 * E18
                && j.base_rate <= j.jump_rate
                && j.jump_rate <= j.full_rate
                && ppm(j.jump_utilization) > 0
        }
    }
}
fn params_ok(p: &Mkt) -> bool {
    let one = 1_000_000;
    ppm(p.collateral_factor) < one
        && p.liquidation_threshold >= p.collateral_factor
        && ppm(p.liquidation_threshold) < one
        && ppm(p.reserve_factor) > 0
        && ppm(p.reserve_factor) < one
        && ppm(p.liquidate_incentive_reserved_factor) < one
        && p.supply_cap > 0
}
fn market(r: &mut R, l: u32, cap: u128, wild: bool) -> Mkt {
    let cf = r.gen_range(100_000..900_000);
    let lt = r.gen_range(cf..990_000);
    let mut m = Mkt {
        collateral_factor: Ratio::from_parts(cf),
        liquidation_threshold: Ratio::from_parts(lt),
        reserve_factor: ratio_of(r, 1, 500_000),
        close_factor: match r.gen_range(0..3) { 0 => Ratio::from_percent(50), 1 => Ratio::from_percent(100), _ => ratio_of(r, 1, 1_000_000) },
        liquidate_incentive: Rate::saturating_from_rational(r.gen_range(1000..1300u32), 1000u32),
        liquidate_incentive_reserved_factor: ratio_of(r, 0, 300_000),
        rate_model: rate_model(r, wild),
        state: loans::MarketState::Pending,
        supply_cap: if r.gen_ratio(1, 4) { cap / 100 + 1 } else { cap.saturating_mul(100) + 1 },
        borrow_cap: if r.gen_ratio(1, 4) { cap / 300 + 1 } else { cap.saturating_mul(100) + 1 },
        lend_token_id: LendToken(l),
    };
    if wild {
        match r.gen_range(0..9) {
            0 => m.collateral_factor = ratio_of(r, 0, 1_000_000),
            1 => m.liquidation_threshold = ratio_of(r, 0, 1_000_000),
            2 => m.reserve_factor = *pick(r, &[Ratio::from_parts(0), Ratio::from_percent(100), Ratio::from_parts(999_999)]),
            3 => m.liquidate_incentive_reserved_factor = *pick(r, &[Ratio::from_percent(100), Ratio::from_parts(999_999)]),
            4 => m.supply_cap = 0,
            5 => m.state = *pick(r, &[loans::MarketState::Active, loans::MarketState::Supervision]),
            6 => m.collateral_factor = Ratio::from_percent(100),
            _ => (),
        }
    }
    m
}

type LC = loans::Call<Runtime>;

fn history(m: &Mon, case: &mut Case, r: &mut R) {
    let prop = m.prop.as_str();
    let endow = 10u128.pow(r.gen_range(4..22));
    let cfg = Cfg { accounts: 5, endowment: endow, oracle_max_delay: 4_000_000_000, ..Cfg::default() };
    with_world(&cfg, || {
        let n = r.gen_range(2..=5);
        let users: Vec<AccountId> = (0..n).map(acc).collect();
        let mut who = users.clone();
        who.push(Loans::incentive_reward_account_id());
        let max = if r.gen() { E18 } else { 1000 * E18 };
        let min = E18 / 50;
        loans::MaxExchangeRate::<Runtime>::put(Rate::from_inner(max));
        loans::MinExchangeRate::<Runtime>::put(Rate::from_inner(min));
        let mut s = Sim { prop, users: users.clone(), who, price: BTreeMap::new(), min, max, earn: BTreeMap::new(), next_lend: 10, peak: BTreeMap::new() };
        let all_curs = [RELAY, WRAPPED, Token(KSM), NATIVE, ForeignAsset(1)];
        let mut curs: Vec<CurrencyId> = vec![];
        let k = r.gen_range(1..=4);
        while curs.len() < k {
            let c = *pick(r, &all_curs);
            if !curs.contains(&c) {
                curs.push(c);
            }
        }
        for a in &users {
            mint(a, WRAPPED, endow);
        }
        for c in &curs {
            if *c != WRAPPED && !r.gen_ratio(1, 40) {
                let p = 10u128.pow(r.gen_range(15..22)) + log_uniform_u128(r, 60);
                set_rate(*c, Rate::from_inner(p));
                s.price.insert(*c, p);
            }
        }
        for (i, c) in curs.iter().enumerate() {
            let mk = market(r, i as u32 + 1, endow * n as u128, false);
            if root(LC::add_market { asset_id: *c, market: mk }).is_err() {
                case.violate("a valid market is refused", format!("{mk:?}"));
                return;
            }
            if !r.gen_ratio(1, 30) {
                root(LC::activate_market { asset_id: *c }).expect("activate");
            }
            // the market must be in use before the first interest; make it so now and then from the start
            if prop == "L04" || r.gen_ratio(1, 3) {
                let sp = |r: &mut R| (!r.gen_ratio(1, 4)).then(|| { let bits = if r.gen() { 40 } else { 66 }; log_uniform_u128(r, bits) });
                let (x, y) = (sp(r), sp(r));
                let _ = root(LC::update_market_reward_speed { asset_id: *c, supply_reward_per_block: x, borrow_reward_per_block: y });
            }
        }
        let pool = Loans::reward_account_id();
        mint(&pool, NATIVE, if r.gen_ratio(1, 10) { endow } else { 10u128.pow(27) });
        let steps = r.gen_range(30..110u32);
        for step in 0..steps {
            let t = time_ms() / 1000;
            let pre = snap(&s.who);
            let (acc, stuck) = accrued_snap(&s, case, &pre, t);
            if !stuck.is_empty() {
                case.event("market stopped");
                // only dust in a nearly empty market may do that (see the known findings)
                for u in &stuck {
                    let mk = &pre.mk[u];
                    s.ck(case, "L01", !s.rate_ok(mk) && (mk.supply < 1000 || mk.index >= 10 * E18)
                        || growth(mk, t.saturating_sub(mk.last)).map(|g| grow(mk.borrows, &g.1) + mk.cash >= md(mk.supply, max, E18)).unwrap_or(true), "an ordinary market stops", || format!("{mk:?}"));
                }
                return;
            }
            if prop == "L06" {
                told(&s, case, r, &pre, &acc);
                if case.failed() { return }
            }
            let mut u = curs[r.gen_range(0..curs.len())];
            let mut a = s.users[r.gen_range(0..s.users.len())].clone();
            let z = s.users[r.gen_range(0..s.users.len())].clone();
            let mut kind = r.gen_range(0..100);
            // mostly what has something to act on
            for _ in 0..4 {
                let p = acc.pos(u, &a);
                let fits = match kind {
                    14..=24 => p.lf + p.lr > 0,
                    25..=38 => s.collateral(&acc, &a, |p| ppm(p.collateral_factor)).unwrap_or(0) > s.debts(&acc, &a).unwrap_or(0),
                    39..=47 => p.owes > 0,
                    48..=56 => p.lf > 0 && p.deposit == 0,
                    57..=61 => p.deposit > 0,
                    62..=71 => s.users.iter().any(|x| s.debts(&acc, x) > s.collateral(&acc, x, |p| ppm(p.liquidation_threshold))),
                    _ => true,
                };
                if fits || r.gen_ratio(1, 6) {
                    break;
                }
                kind = r.gen_range(0..100);
                u = curs[r.gen_range(0..curs.len())];
                a = s.users[r.gen_range(0..s.users.len())].clone();
            }
            let mut bold = false;
            if step < 2 * k as u32 {
                kind = 0;
            } else if r.gen_ratio(1, 3) {
                // towards loans near their limit, and beyond
                let idle: Vec<_> = acc.pos.iter().filter(|(k, p)| p.lf > 0 && p.deposit == 0 && s.users.contains(&k.1)).map(|(k, _)| k.clone()).collect();
                let under: Vec<_> = s.users.iter().filter(|x| s.debts(&acc, x) > s.collateral(&acc, x, |p| ppm(p.liquidation_threshold))).collect();
                let backed: Vec<_> = acc.pos.iter().filter(|(k, p)| p.deposit > 0 && s.users.contains(&k.1)).map(|(k, _)| k.1.clone()).collect();
                if !under.is_empty() && r.gen() {
                    kind = 62;
                } else if !idle.is_empty() && r.gen_ratio(1, 2) {
                    (u, a) = pick(r, &idle).clone();
                    kind = 48;
                } else if !backed.is_empty() && r.gen_ratio(2, 3) {
                    a = pick(r, &backed).clone();
                    bold = true;
                    kind = 25;
                } else {
                    bold = true;
                    kind = 89;
                }
            }
            let mk = acc.mk[&u].clone();
            let (pa, active) = (acc.pos(u, &a), mk.active());
            let rate = mk.rate(min).unwrap_or(min);
            let act_v = need(active, "market not active");
            let mut w = Want { touch: vec![u], ..Want::default() };
            let (call, verdict, origin, sig): (LC, V, Origin, &str);
            let mut fit: Option<Box<dyn Fn(&Snap, &mut Want, &Sim, &mut Case) -> bool>> = None;
            match kind {
                0..=13 => {
                    let cap = acc.free(u, &a) / if r.gen() { 1 } else { 50 };
                    let x = amount(r, cap);
                    let v = md(x, E18, rate);
                    call = LC::mint { asset_id: u, mint_amount: x };
                    (origin, sig) = (signed(&a), "mint");
                    verdict = all(&[act_v, need(x > 0, "nothing"), need(x <= acc.free(u, &a), "funds"), need(mk.cash.saturating_add(x) <= mk.p.supply_cap, "cap"), need(v > 0, "too little")]);
                    w.mv(u, &a, &pot(), x.min(1 << 120));
                    w.arrive(&acc, u, mk.l, &a, v.min(1 << 120));
                }
                14..=24 => {
                    let held = pa.lf + pa.lr;
                    let near = if r.gen() { md(held, rate, E18) } else { mk.avail() };
                    let x = amount(r, near);
                    let everything = r.gen_ratio(1, 4);
                    let v = if everything { held } else { md(x, E18, rate) };
                    let x = if everything { md(v, rate, E18) } else { x };
                    call = if everything { LC::redeem_all { asset_id: u } } else { LC::redeem { asset_id: u, redeem_amount: x } };
                    (origin, sig) = (signed(&a), "redeem");
                    let back = if pa.deposit > 0 { s.covered(&pre, &acc, &a, s.worth(&mk, v, ppm(mk.p.collateral_factor))) } else { Must };
                    verdict = all(&[act_v, need(x > 0 || everything, "nothing"), need(v > 0, "too little"), need(v <= held, "balance"), need(md(v, rate, E18) <= mk.avail() && x <= mk.cash && mk.cash >= mk.reserves, "cash"), back]);
                    w.mv(u, &pot(), &a, x.min(1 << 120));
                    if pa.deposit > 0 { w.unlock(u, mk.l, &a, v.min(1 << 120)) } else { w.f(mk.l, &a, -(v.min(1 << 120) as i128)) }
                }
                25..=38 => {
                    let room = s.collateral(&acc, &a, |p| ppm(p.collateral_factor)).zip(s.debts(&acc, &a)).map(|(c, d)| c.saturating_sub(d)).unwrap_or(0);
                    let room = s.unvalue(u, room).unwrap_or(0);
                    let near = if r.gen_ratio(1, 4) { mk.avail() } else { room.min(mk.avail()) };
                    let x = if bold && r.gen() { near } else { amount(r, near) };
                    call = LC::borrow { asset_id: u, borrow_amount: x };
                    (origin, sig) = (signed(&a), "borrow");
                    let cov = s.covered(&pre, &acc, &a, s.value(u, x));
                    // an account with no collateral and no debt may "borrow" what is worth nothing
                    verdict = all(&[act_v, need(x > 0, "nothing"), need(mk.borrows.saturating_add(x) <= mk.p.borrow_cap, "cap"), need(x <= mk.avail() && mk.cash >= mk.reserves, "cash"), cov]);
                    let x = x.min(1 << 120);
                    w.mv(u, &pot(), &a, x);
                    w.borrow.insert(u, x as i128);
                    w.debt.insert((u, a.clone()), acc.debt(u, &a) + x);
                }
                39..=47 => {
                    let debt = acc.debt(u, &a);
                    let everything = r.gen_ratio(1, 3);
                    let x = if everything { debt } else { amount(r, debt) };
                    call = if everything { LC::repay_borrow_all { asset_id: u } } else { LC::repay_borrow { asset_id: u, repay_amount: x } };
                    (origin, sig) = (signed(&a), "repay");
                    verdict = all(&[act_v, need(x > 0, "nothing"), need(x <= debt, "too much"), need(x <= acc.free(u, &a), "funds")]);
                    let x = x.min(debt);
                    w.mv(u, &a, &pot(), x);
                    w.borrow.insert(u, -(x as i128));
                    w.debt.insert((u, a.clone()), debt - x);
                }
                48..=56 => {
                    call = LC::deposit_all_collateral { asset_id: u };
                    (origin, sig) = (signed(&a), "deposit collateral");
                    verdict = all(&[act_v, need(pa.lf > 0, "nothing"), need(pa.lr == 0, "already locked")]);
                    w.touch.clear();
                    w.f(mk.l, &a, -(pa.lf as i128));
                    w.r(mk.l, &a, pa.lf as i128);
                    w.deposit.insert((u, a.clone()), pa.lf as i128);
                }
                57..=61 => {
                    call = LC::withdraw_all_collateral { asset_id: u };
                    (origin, sig) = (signed(&a), "withdraw collateral");
                    verdict = all(&[act_v, need(pa.deposit > 0, "nothing"), s.covered(&pre, &acc, &a, s.worth(&mk, pa.deposit, ppm(mk.p.collateral_factor)))]);
                    w.f(mk.l, &a, pa.deposit as i128);
                    w.unlock(u, mk.l, &a, pa.deposit);
                }
                62..=71 => {
                    // liquidation: prefer somebody who can be liquidated
                    let bad: Vec<AccountId> = s.users.iter().filter(|x| s.debts(&acc, x) > s.collateral(&acc, x, |p| ppm(p.liquidation_threshold))).cloned().collect();
                    let bo = if bad.is_empty() || r.gen_ratio(1, 6) { z.clone() } else { pick(r, &bad).clone() };
                    if bo == a && !r.gen_ratio(1, 6) {
                        a = s.users.iter().find(|x| **x != bo).unwrap().clone();
                    }
                    let have: Vec<CurrencyId> = curs.iter().filter(|c| acc.debt(**c, &bo) > 0).cloned().collect();
                    let dep: Vec<CurrencyId> = curs.iter().filter(|c| acc.pos(**c, &bo).deposit > 0).cloned().collect();
                    let u = if have.is_empty() || r.gen_ratio(1, 8) { u } else { *pick(r, &have) };
                    let c = if dep.is_empty() || r.gen_ratio(1, 8) { curs[r.gen_range(0..curs.len())] } else { *pick(r, &dep) };
                    let (mk, mc) = (acc.mk[&u].clone(), acc.mk[&c].clone());
                    let debt = acc.debt(u, &bo);
                    let cap = md(debt, ppm(mk.p.close_factor), 1_000_000);
                    let x = if r.gen_ratio(1, 12) { amount(r, debt) } else { amount(r, cap) };
                    call = LC::liquidate_borrow { borrower: bo.clone(), liquidation_asset_id: u, repay_amount: x, collateral_asset_id: c };
                    (origin, sig) = (signed(&a), "liquidate");
                    let deposit = acc.pos(c, &bo).deposit;
                    let lt = s.collateral(&acc, &bo, |p| ppm(p.liquidation_threshold));
                    let short = match (lt, s.debts(&pre, &bo), s.debts(&acc, &bo)) {
                        (Some(l), Some(lo), Some(hi)) => if lo.min(hi) > l { Must } else if hi > l { Either } else { Not("healthy") },
                        _ => Not("no price"),
                    };
                    let inc = inner(mk.p.liquidate_incentive);
                    let vals = (|| {
                        let limit = md_up(s.value(u, debt)?, ppm(mk.p.close_factor), 1_000_000);
                        let rv = s.value(u, x)?;
                        let lv = md(rv, inc, E18);
                        let cv = s.value(c, md(deposit, mc.rate(min)?, E18))?;
                        let seize = md(s.unvalue(c, lv)?, E18, mc.rate(min)?);
                        Some((limit, rv, lv, cv, seize))
                    })();
                    let (limit, rv, lv, cv, seize) = vals.unwrap_or((0, 1, 0, 0, 0));
                    verdict = all(&[
                        need(mk.active() && mc.active(), "market not active"),
                        need(bo != a, "own debt"),
                        need(x > 0, "nothing"),
                        short,
                        need(vals.is_some(), "no price"),
                        need(rv <= limit && x <= debt, "more than the close factor"),
                        need(deposit > 0, "no collateral"),
                        need(lv <= cv, "not enough collateral"),
                        need(x <= acc.free(u, &a), "funds"),
                        if seize <= deposit { Must } else { Either },
                    ]);
                    let x = x.min(debt);
                    w.touch = vec![u, c];
                    w.mv(u, &a, &pot(), x);
                    w.borrow.insert(u, -(x as i128));
                    w.debt.insert((u, bo.clone()), debt - x);
                    let (l, bo2, a2, acc2) = (mc.l, bo.clone(), a.clone(), acc.clone());
                    let rf = ppm(mk.p.liquidate_incentive_reserved_factor);
                    let inc_acc = Loans::incentive_reward_account_id();
                    let same = u == c;
                    fit = Some(Box::new(move |post: &Snap, w: &mut Want, s: &Sim, case: &mut Case| {
                        // what was seized, and the share of the treasury
                        let got = acc2.pos(c, &bo2).deposit.saturating_sub(post.pos(c, &bo2).deposit);
                        let part = (post.pos(c, &inc_acc).lf + post.pos(c, &inc_acc).lr).saturating_sub(acc2.pos(c, &inc_acc).lf + acc2.pos(c, &inc_acc).lr);
                        let ok = if same { got.abs_diff(seize) <= 2 + seize / 1_000_000_000_000 + 2 * seize / acc2.mk[&c].value().unwrap_or(1).max(1) } else { got == seize };
                        let good = s.ck(case, "L03", ok, "a liquidation seizes the wrong amount", || format!("seized {got}, expected {seize}"));
                        let fair = md(md(got, E18, inc), rf, 1_000_000);
                        let good = good & s.ck(case, "L03", part == fair, "a liquidation gives the treasury the wrong share", || format!("{part} of {got}, expected {fair}"));
                        let got = got.min(acc2.pos(c, &bo2).deposit);
                        w.unlock(c, l, &bo2, got);
                        w.arrive(&acc2, c, l, &a2, got.saturating_sub(part));
                        w.arrive(&acc2, c, l, &inc_acc, part);
                        good
                    }));
                    run_op(&mut s, case, r, sig, call, verdict, origin, w, fit, &pre, &acc, t, step);
                    if case.failed() { return }
                    continue;
                }
                72..=75 => {
                    // lend tokens change hands
                    let x = amount(r, pa.lf);
                    let ok = all(&[need(x <= pa.lf || a == z || x == 0, "balance"), if acc.pos(u, &z).deposit > 0 && !active { Either } else { Must }]);
                    let Some(res) = act(case, "transfer", signed(&a), orml_tokens::Call::<Runtime>::transfer { dest: z.clone(), currency_id: mk.l, amount: x }) else { return };
                    w.touch.clear();
                    let post = snap(&s.who);
                    if !s.ck(case, "L03", match ok { Must => res.is_ok(), Not(_) => res.is_err(), _ => true }, "a transfer of lend tokens is accepted or refused against the rules", || format!("{x} of {pa:?}: {res:?}")) { return }
                    if res.is_ok() {
                        if a != z {
                            w.f(mk.l, &a, -(x as i128)); w.arrive(&acc, u, mk.l, &z, x) }
                        judge(&s, case, "transfer of lend tokens", &pre, &acc, &post, &w, t);
                        case.event("lend tokens transferred");
                    } else {
                        judge(&s, case, "refused transfer", &pre, &acc, &post, &Want::default(), t);
                    }
                    if case.failed() { return }
                    continue;
                }
                76 => {
                    // a gift to the market, small against what lenders own
                    let x = amount(r, mk.value().unwrap_or(0) / 100).min(mk.value().unwrap_or(0) / 50).min(acc.free(u, &a));
                    let _ = act(case, "transfer", signed(&a), orml_tokens::Call::<Runtime>::transfer { dest: pot(), currency_id: u, amount: x });
                    let post = snap(&s.who);
                    let mut w = Want::default();
                    w.mv(u, &a, &pot(), x);
                    judge(&s, case, "gift", &pre, &acc, &post, &w, t);
                    if case.failed() { return }
                    continue;
                }
                77 => {
                    let x = amount(r, acc.free(u, &a) / 10);
                    call = LC::add_reserves { payer: a.clone(), asset_id: u, add_amount: x };
                    let by_root = !r.gen_ratio(1, 5);
                    (origin, sig) = (if by_root { Origin::root() } else { signed(&a) }, "add reserves");
                    verdict = all(&[need(by_root, "not governance"), act_v, need(x > 0, "nothing"), need(x <= acc.free(u, &a), "funds")]);
                    w.mv(u, &a, &pot(), x.min(1 << 120));
                    w.reserve.insert(u, x.min(1 << 120) as i128);
                }
                78..=79 => {
                    let x = amount(r, mk.reserves);
                    call = LC::reduce_reserves { receiver: a.clone(), asset_id: u, reduce_amount: x };
                    let by_root = !r.gen_ratio(1, 5);
                    (origin, sig) = (if by_root { Origin::root() } else { signed(&a) }, "reduce reserves");
                    verdict = all(&[need(by_root, "not governance"), act_v, need(x > 0, "nothing"), need(x <= mk.reserves, "reserves"), need(x <= mk.cash, "cash")]);
                    w.mv(u, &pot(), &a, x.min(1 << 120));
                    w.reserve.insert(u, -(x.min(1 << 120) as i128));
                }
                80 => {
                    let inc = Loans::incentive_reward_account_id();
                    let held = acc.pos(u, &inc).lf;
                    let x = amount(r, md(held, rate, E18));
                    let v = md(x, E18, rate);
                    call = LC::reduce_incentive_reserves { receiver: a.clone(), asset_id: u, redeem_amount: x };
                    let by_root = !r.gen_ratio(1, 5);
                    (origin, sig) = (if by_root { Origin::root() } else { signed(&a) }, "reduce incentive reserves");
                    verdict = all(&[need(by_root, "not governance"), act_v, need(x > 0, "nothing"), need(v > 0, "too little"), need(v <= held, "balance"), need(md(v, rate, E18) <= mk.avail() && x <= mk.cash && mk.cash >= mk.reserves, "cash")]);
                    w.mv(u, &pot(), &a, x.min(1 << 120));
                    w.f(mk.l, &inc, -(v.min(1 << 120) as i128));
                }
                81..=84 => {
                    // incentives
                    let one = r.gen();
                    let due = s.due(&pre, &a, one, u);
                    let c = if one { LC::claim_reward_for_market { asset_id: u } } else { LC::claim_reward {} };
                    let Some(res) = act(case, "claim", signed(&a), c) else { return };
                    let post = snap(&s.who);
                    let pool = Loans::reward_account_id();
                    let got = post.free(NATIVE, &a).saturating_sub(pre.free(NATIVE, &a));
                    let mut w = Want::default();
                    if res.is_ok() {
                        w.mv(NATIVE, &pool, &a, got);
                        s.earn.entry(a.clone()).or_default().2 += got;
                        s.ck(case, "L04", post.accrued.get(&a).is_none(), "a paid reward is still owed", || format!("{:?}", post.accrued));
                        if let Some(d) = due {
                            s.ck(case, "L04", got == d, "a claim does not pay what was due", || format!("paid {got}, due {d}"));
                        }
                        case.event(if got > 0 { "reward paid" } else { "nothing to claim" });
                    } else {
                        s.ck(case, "L04", due.is_none(), "a claim of a funded reward fails", || format!("due {due:?} {res:?}"));
                    }
                    judge(&s, case, "claim", &pre, &acc, &post, &w, t);
                    if case.failed() { return }
                    continue;
                }
                85 => {
                    let x = amount(r, endow / 100).min(pre.free(NATIVE, &a));
                    let Some(res) = act(case, "add reward", signed(&a), LC::add_reward { amount: x }) else { return };
                    let post = snap(&s.who);
                    let mut w = Want::default();
                    if s.ck(case, "L04", res.is_ok() == (x > 0), "adding rewards is accepted or refused against the rules", || format!("{x} {res:?}")) && res.is_ok() {
                        w.mv(NATIVE, &a, &Loans::reward_account_id(), x);
                    }
                    judge(&s, case, "add reward", &pre, &acc, &post, &w, t);
                    if case.failed() { return }
                    continue;
                }
                86..=88 => {
                    govern(&mut s, case, r, &pre, &acc, u, &curs, endow);
                    if case.failed() { return }
                    continue;
                }
                89..=92 => {
                    // prices move
                    if u != WRAPPED {
                        let p = s.price.get(&u).cloned().unwrap_or(E18);
                        let d = if bold { 1100 } else { 2500 };
                        let q = md(p, r.gen_range(300..d), 1000).max(1_000_000).min(E18 * 1_000_000);
                        set_rate(u, Rate::from_inner(q));
                        s.price.insert(u, q);
                        case.log(|| format!("price {u:?} {p} -> {q}"));
                        case.event("price moved");
                    }
                    continue;
                }
                _ => {
                    let k = match r.gen_range(0..5) { 0 => r.gen_range(1..40), _ => r.gen_range(1..4) };
                    let slow = r.gen_ratio(1, 3);
                    for _ in 0..k {
                        let dt: u64 = if slow { 1000 * *pick(r, &[1u64, 60, 3600, 86400, 86400 * 30, 86400 * 200]) + r.gen_range(0..2000) } else { 12_000 };
                        s.earn_block(&snap(&s.who));
                        block_at(now() + 1, dt);
                        if slow { break }
                    }
                    case.log(|| format!("block {} time {}", now(), time_ms() / 1000));
                    for (c, p) in s.price.clone() {
                        set_rate(c, Rate::from_inner(p));
                    }
                    continue;
                }
            }
            run_op(&mut s, case, r, sig, call, verdict, origin, w, fit, &pre, &acc, t, step);
            if case.failed() { return }
        }
        check_issuance(case);
        let fin = snap(&s.who);
        case.sample(|| format!("{} users, markets {:?}", s.users.len(), fin.mk.values().map(|m| (m.u, m.cash, m.borrows, m.reserves, m.supply)).collect::<Vec<_>>()));
    });
}

#[allow(clippy::too_many_arguments)]
fn run_op(s: &mut Sim, case: &mut Case, r: &mut R, sig: &str, call: LC, verdict: V, origin: Origin, mut w: Want, fit: Option<Box<dyn Fn(&Snap, &mut Want, &Sim, &mut Case) -> bool>>, pre: &Snap, acc: &Snap, t: u64, step: u32) {
    let what = format!("{:?}", call);
    // the index the debt is recorded at must be as of now even if nothing else is
    let Some(res) = act(case, sig, origin, call) else { return };
    let post = snap(&s.who);
    let rules = if ["add reserves", "reduce reserves", "reduce incentive reserves"].contains(&sig) { "L05" } else { "L03" };
    let fine = match verdict {
        Must => res.is_ok(),
        Not(_) => res.is_err(),
        Either => true,
    };
    let ctx = || {
        let mut o = format!("{what}\nexpected {verdict:?}, got {}\n", err_name(&res));
        for m in acc.mk.values() {
            o += &format!("{m:?} price {:?}\n", s.price.get(&m.u));
        }
        for a in &s.who {
            for u in acc.mk.keys() {
                let p = acc.pos(*u, a);
                if p != Pos::default() {
                    o += &format!("  {} {u:?} {p:?} owes {}\n", acc_name(a), acc.debt(*u, a));
                }
            }
            o += &format!("  {} collateral {:?} threshold {:?} debts {:?}\n", acc_name(a), s.collateral(acc, a, |p| ppm(p.collateral_factor)), s.collateral(acc, a, |p| ppm(p.liquidation_threshold)), s.debts(acc, a));
        }
        o
    };
    if !s.ck(case, rules, fine, &format!("{sig}: {}", if res.is_ok() { "accepted against the rules" } else { "refused against the rules" }), ctx) || !fine {
        return;
    }
    if verdict == Either {
        case.event("borderline");
    }
    if res.is_ok() {
        if let Some(f) = fit {
            f(&post, &mut w, s, case);
        }
        judge(s, case, &what, pre, acc, &post, &w, t);
        case.event(sig);
        if sig == "borrow" || sig == "withdraw collateral" || sig == "redeem" {
            // the actor is covered afterwards, with debts as recorded
            for a in &s.users {
                let moved = acc.pos.iter().any(|(k, p)| k.1 == *a && post.pos(k.0, a).deposit < p.deposit) || s.debts(&post, a).unwrap_or(0) > s.debts(acc, a).unwrap_or(0) + 2;
                if moved {
                    if let (Some(c), Some(d)) = (s.collateral(&post, a, |p| ppm(p.collateral_factor)), s.debts(&post, a)) {
                        let slack = 2 * s.price.len() as u128 + 4 + acc.mk.keys().map(|u| s.value(*u, 2).unwrap_or(0)).sum::<u128>();
                        let mixed = Snap { mk: acc.mk.clone(), ..post.clone() };
                        let c = c.max(s.collateral(&mixed, a, |p| ppm(p.collateral_factor)).unwrap_or(0));
                        let was = s.debts(acc, a).unwrap_or(0).saturating_sub(s.collateral(acc, a, |p| ppm(p.collateral_factor)).unwrap_or(0));
                        s.ck(case, "L03", c + slack + was >= d, "an account gets more credit than its collateral allows", || format!("{what}: {} collateral {c}, debts {d}", acc_name(a)));
                    }
                }
            }
        }
    } else {
        s.ck(case, "L01", *pre == post, "a refused operation changes something", || format!("{what}\n{pre:?}\n{post:?}"));
        case.event(&format!("{sig} refused"));
        if let Not(why) = verdict {
            case.event(&format!("{sig} refused: {why}"));
        }
    }
    if !case.failed() {
        totals(s, case, &post, step as u128, &what);
        if s.prop == "L04" {
            let a = s.users[r.gen_range(0..s.users.len())].clone();
            s.check_earned(case, &post, &a, &what);
        }
        case.state_dbg(&post.mk);
    }
}

impl<'a> Sim<'a> {
    /// one block passes over the state `x`
    fn earn_block(&mut self, x: &Snap) {
        let n = self.who.len() as f64;
        for (u, m) in &x.mk {
            let base_total = md(m.borrows, E18, m.index.max(1));
            for a in &self.who {
                let p = x.pos(*u, a);
                let held = p.lf + p.lr;
                let e = self.earn.entry(a.clone()).or_default();
                if held > 0 && m.s_speed > 0 && m.supply > 0 {
                    e.0 += ((b(m.s_speed) * held) << 64) / m.supply;
                    e.1 += held as f64 / 1e12 + 2.0;
                }
                if p.principal > 0 && m.b_speed > 0 && base_total > 0 {
                    let base = md(p.principal, E18, p.at.max(1));
                    e.0 += ((b(m.b_speed) * base) << 64) / base_total;
                    e.1 += base as f64 / 1e12 + 2.0 + m.b_speed as f64 * (n + 4.0) / base_total as f64 * (1.0 + base as f64 / base_total as f64) + (m.b_speed as f64) * 1e-15;
                }
            }
        }
    }
    /// what a claim would pay now, if the pool can pay it
    fn due(&self, x: &Snap, a: &AccountId, one: bool, u: CurrencyId) -> Option<u128> {
        let pool = x.free(NATIVE, &Loans::reward_account_id());
        let before = x.free(NATIVE, a);
        let c = if one { LC::claim_reward_for_market { asset_id: u } } else { LC::claim_reward {} };
        let (ok, after) = dry(|| {
            mint(&Loans::reward_account_id(), NATIVE, 1u128 << 110);
            let ok = by(a, c).is_ok();
            (ok, free(NATIVE, a))
        });
        let d = after - before;
        (ok && d <= pool).then_some(d)
    }
    fn check_earned(&self, case: &mut Case, x: &Snap, a: &AccountId, what: &str) {
        let before = x.free(NATIVE, a);
        let (ok, after) = dry(|| {
            mint(&Loans::reward_account_id(), NATIVE, 1u128 << 110);
            (by(a, LC::claim_reward {}).is_ok(), free(NATIVE, a))
        });
        case.check(ok, "rewards cannot be claimed", || format!("{what} {}", acc_name(a)));
        let e = self.earn.get(a).cloned().unwrap_or_default();
        let got = after - before + e.2;
        let want = to(&(e.0 >> 64));
        // an operation in this block may round once more in every market
        let slack = (e.1 + 10.0) as u128 + want / 1_000_000_000_000;
        case.eval(1);
        if got > 0 {
            case.event("rewards compared");
        }
        case.check(got.abs_diff(want) <= slack, "incentives are not paid in proportion", || format!("{what}: {} has {} (of them paid {}), should have {want} up to {slack}", acc_name(a), got, e.2));
    }
}

/// governance calls, by governance and by others
#[allow(clippy::too_many_arguments)]
fn govern(s: &mut Sim, case: &mut Case, r: &mut R, pre: &Snap, acc: &Snap, u: CurrencyId, curs: &[CurrencyId], endow: u128) {
    let by_root = !r.gen_ratio(1, 4);
    let origin = if by_root { Origin::root() } else { signed(&s.users[0]) };
    let gov = need(by_root, "not governance");
    let t = time_ms() / 1000;
    let m = pre.mk[&u].clone();
    let lend = LendToken(if r.gen() { s.next_lend } else { r.gen_range(1..4) });
    let (call, verdict, mut want): (LC, V, Option<(CurrencyId, Mkt)>);
    let mut speeds = None;
    match r.gen_range(0..7) {
        0 => {
            let others = [RELAY, WRAPPED, Token(KSM), NATIVE, ForeignAsset(1), Token(KINT)];
            let c = *pick(r, &others);
            let mut mk = market(r, 0, endow, true);
            mk.lend_token_id = if r.gen_ratio(1, 6) { u } else { lend };
            let used = pre.mk.values().any(|x| x.l == mk.lend_token_id) || loans::UnderlyingAssetId::<Runtime>::contains_key(mk.lend_token_id) || pre.mk.contains_key(&mk.lend_token_id);
            call = LC::add_market { asset_id: c, market: mk };
            verdict = all(&[gov, need(!pre.mk.contains_key(&c), "exists"), need(mk.state == loans::MarketState::Pending, "not pending"), need(model_ok(&mk.rate_model), "rate model"), need(params_ok(&mk), "parameters"), need(!used, "lend token in use")]);
            want = Some((c, mk));
            if verdict == Must { s.next_lend += 1 }
        }
        1 => {
            call = LC::activate_market { asset_id: u };
            verdict = all(&[gov, need(!m.active(), "active already")]);
            want = Some((u, Mkt { state: loans::MarketState::Active, ..m.p }));
        }
        2 => {
            let rm = rate_model(r, true);
            call = LC::update_rate_model { asset_id: u, rate_model: rm };
            verdict = all(&[gov, need(model_ok(&rm), "rate model")]);
            want = Some((u, Mkt { rate_model: rm, ..m.p }));
        }
        3 | 4 => {
            let n = market(r, 0, endow * 5, true);
            let mut p = m.p;
            macro_rules! opt {
                ($f:ident) => {{
                    if r.gen_ratio(1, 3) {
                        p.$f = n.$f;
                        Some(n.$f)
                    } else {
                        None
                    }
                }};
            }
            call = LC::update_market {
                asset_id: u,
                collateral_factor: opt!(collateral_factor),
                liquidation_threshold: opt!(liquidation_threshold),
                reserve_factor: opt!(reserve_factor),
                close_factor: opt!(close_factor),
                liquidate_incentive_reserved_factor: opt!(liquidate_incentive_reserved_factor),
                liquidate_incentive: opt!(liquidate_incentive),
                supply_cap: opt!(supply_cap),
                borrow_cap: opt!(borrow_cap),
            };
            verdict = all(&[gov, need(params_ok(&p), "parameters")]);
            want = Some((u, p));
        }
        5 => {
            // a market is halted, or goes on
            let mut p = m.p;
            p.state = *pick(r, &[loans::MarketState::Active, loans::MarketState::Active, loans::MarketState::Supervision]);
            call = LC::force_update_market { asset_id: u, market: p };
            verdict = gov;
            want = Some((u, p));
        }
        _ => {
            let sp = |r: &mut R| r.gen::<bool>().then(|| { let bits = if r.gen() { 40 } else { 66 }; log_uniform_u128(r, bits) });
            let (x, y) = (sp(r), sp(r));
            call = LC::update_market_reward_speed { asset_id: u, supply_reward_per_block: x, borrow_reward_per_block: y };
            verdict = all(&[gov, need(m.active(), "not active")]);
            want = None;
            speeds = Some((x.unwrap_or(m.s_speed), y.unwrap_or(m.b_speed)));
        }
    }
    let what = format!("{call:?}");
    let Some(res) = act(case, "governance call", origin, call) else { return };
    let post = snap(&s.who);
    let fine = match verdict {
        Must => res.is_ok(),
        Not(_) => res.is_err(),
        _ => true,
    };
    if !s.ck(case, "L05", fine, if res.is_ok() { "a governance call is accepted against the rules" } else { "a governance call is refused against the rules" }, || format!("{what}\nexpected {verdict:?}, got {}", err_name(&res))) || !fine {
        return;
    }
    if res.is_err() {
        s.ck(case, "L05", *pre == post, "a refused governance call changes something", || what.clone());
        case.event("governance call refused");
        return;
    }
    case.event("governance call");
    let mut exp = pre.clone();
    for (c, x) in exp.mk.iter_mut() {
        // interest may be brought up to date
        if post.mk[c].last != x.last {
            let y = &post.mk[c];
            let now = Mk { p: x.p, s_speed: x.s_speed, b_speed: x.b_speed, ..y.clone() };
            if s.prop == "L02" {
                check_accrual(case, x, &now, t);
            }
            *x = now;
        }
    }
    if let Some((c, p)) = want.take() {
        if let Some(x) = exp.mk.get_mut(&c) {
            // time passed at the old terms
            let dt = t > pre.mk[&c].last && pre.mk[&c].last != 0 && pre.mk[&c].borrows > 0;
            let terms = pre.mk[&c].p.rate_model != p.rate_model || pre.mk[&c].p.reserve_factor != p.reserve_factor;
            if terms && dt && m.active() {
                s.ck(case, "L02", post.mk[&c].last == t, "new terms apply to the time before they were set", || format!("{what}: last {} at {t}", post.mk[&c].last));
                case.event("terms changed with debts");
            }
            x.p = p;
        } else if let Some(y) = post.mk.get(&c) {
            s.ck(case, "L05", y.p == p && y.borrows == 0 && y.reserves == 0 && y.index == E18 && y.u == c, "a new market does not start empty", || format!("{y:?}"));
            exp.mk.insert(c, y.clone());
        }
    }
    if let Some((x, y)) = speeds {
        let e = exp.mk.get_mut(&u).unwrap();
        e.s_speed = x;
        e.b_speed = y;
    }
    let _ = curs;
    let rec = |s: &Snap| s.pos.iter().map(|(k, p)| (k.clone(), Pos { owes: 0, ..p.clone() })).collect::<BTreeMap<_, _>>();
    s.ck(case, "L05", exp.mk == post.mk && rec(&exp) == rec(&post) && exp.ledger == post.ledger, "a governance call changes other things than it should", || format!("{what}\nwant {exp:?}\ngot  {post:?}"));
}

/// what the chain says of a market and of an account is what acting on it then shows
fn told(s: &Sim, case: &mut Case, r: &mut R, pre: &Snap, acc: &Snap) {
    use traits::LoansMarketDataProvider;
    for (u, m) in &pre.mk {
        let st = dry(|| Loans::get_market_status(*u));
        let lend = dry(|| <Loans as LoansMarketDataProvider<CurrencyId, Balance>>::get_market_status(*u));
        let info = <Loans as LoansMarketDataProvider<CurrencyId, Balance>>::get_market_info(*u);
        let full = match &m.p.rate_model { loans::InterestRateModel::Jump(j) => Some(j.full_rate), _ => None };
        let got = info.as_ref().ok().map(|i| (i.collateral_factor, i.liquidation_threshold, i.reserve_factor, i.close_factor, i.full_rate));
        case.eq(got, full.map(|f| (m.p.collateral_factor, m.p.liquidation_threshold, m.p.reserve_factor, m.p.close_factor, f)), "a market's terms are told wrong", || format!("{m:?}"));
        case.eq(<Loans as LoansMarketDataProvider<CurrencyId, Balance>>::get_full_interest_rate(*u), full, "a market's highest rate is told wrong", || format!("{m:?}"));
        if !m.active() { continue }
        let a = &acc.mk[u];
        let Ok((br, sr, xr, util, borrows, reserves, index)) = st else {
            case.violate("the status of a market cannot be read", format!("{m:?} {st:?}"));
            return;
        };
        let Ok(l) = lend else { return case.violate("the status of a market cannot be read", format!("{m:?}")) };
        case.eq((l.borrow_rate, l.supply_rate, l.exchange_rate, l.utilization, l.total_borrows, l.total_reserves, l.borrow_index), (br, sr, xr, util, borrows, reserves, index), "two ways of reading a market's status differ", || format!("{m:?}"));
        case.eq((borrows, reserves, inner(index)), (a.borrows, a.reserves, a.index), "the status of a market is not what acting on it records", || format!("{m:?}\n{a:?}"));
        case.eq(Some(inner(xr)), a.rate(s.min), "the price of a lend token is told wrong", || format!("{m:?}\n{a:?}"));
        let Some(un) = utilization(m) else { continue };
        case.eq(ppm(util), un, "the utilization of a market is told wrong", || format!("{m:?}"));
        let want = to(&((borrow_rate(&m.p, un) * E18) >> 128u32));
        // the curve takes a power of a rounded number
        case.check(inner(br).abs_diff(want) <= 40, "the rate borrowers pay is told wrong", || format!("{m:?}\ntold {} expected {want}", inner(br)));
        let want = md(md(inner(br), 1_000_000 - ppm(m.p.reserve_factor), 1_000_000), ppm(util), 1_000_000);
        case.check(inner(sr).abs_diff(want) <= 4, "the rate lenders earn is told wrong", || format!("{m:?}\ntold {} expected {want}", inner(sr)));
        if un > 0 {
            case.event("status of a market with debts");
        }
    }
    let a = s.users[r.gen_range(0..s.users.len())].clone();
    // as it stands, debts may count as of the last update
    let bounds = |cut: fn(&Mkt) -> u128| {
        let (c, lo, hi) = (s.collateral(acc, &a, cut)?, s.debts(pre, &a)?, s.debts(acc, &a)?);
        Some((c, lo.min(hi), hi.max(lo)))
    };
    let small = |x: u128| x < u128::MAX / E18;
    for (threshold, cut) in [(false, (|p: &Mkt| ppm(p.collateral_factor)) as fn(&Mkt) -> u128), (true, |p: &Mkt| ppm(p.liquidation_threshold))] {
        let read = || if threshold { Loans::get_account_liquidation_threshold_liquidity(&a).and_then(|l| l.to_rpc_tuple()) } else { Loans::get_account_liquidity(&a).and_then(|l| l.to_rpc_tuple()) };
        let now = dry(read);
        let later = dry(|| {
            for m in pre.mk.values().filter(|m| m.active()) {
                let _ = Loans::recompute_underlying_amount(&Amt::new(1, m.l));
            }
            read()
        });
        let Some((c, lo, hi)) = bounds(cut) else {
            case.event("liquidity without a price");
            continue;
        };
        if !small(c) || !small(hi) { continue }
        let ctx = || format!("{} threshold {threshold} collateral {c} debts {lo}..{hi}: told {now:?}, with interest {later:?}\n{acc:?}", acc_name(&a));
        let (Ok((l, sh)), Ok((l2, sh2))) = (now, later) else { return case.violate("the liquidity of an account cannot be read", ctx()) };
        let int = |x: Rate| inner(x) / E18;
        let fit = |l: Rate, sh: Rate, lo: u128, hi: u128| inner(l) % E18 == 0 && inner(sh) % E18 == 0 && (l.is_zero() || sh.is_zero())
            && int(l) <= c.saturating_sub(lo) && int(l) >= c.saturating_sub(hi) && int(sh) >= lo.saturating_sub(c) && int(sh) <= hi.saturating_sub(c);
        case.check(fit(l, sh, lo, hi), "the liquidity of an account is told wrong", ctx);
        let d = s.debts(acc, &a).unwrap_or(0);
        case.check(fit(l2, sh2, d, d), "the liquidity of an account is told wrong when interest is up to date", ctx);
        if !l2.is_zero() && d > 0 { case.event("liquidity of a borrower") }
        if !sh2.is_zero() { case.event("shortfall") }
        // an account may borrow what it is told, and no more
        let u = *pick(r, &acc.mk.keys().cloned().collect::<Vec<_>>());
        let m = &acc.mk[&u];
        if !m.active() || s.value(u, 1).is_none() { continue }
        if !threshold {
            let x = s.unvalue(u, int(l2)).unwrap_or(0);
            let more = s.unvalue(u, int(l2) + 1).unwrap_or(0) + 1;
            let try_ = |x: u128| dry(|| {
                for m in pre.mk.values().filter(|m| m.active()) {
                    let _ = Loans::recompute_underlying_amount(&Amt::new(1, m.l));
                }
                by(&a, LC::borrow { asset_id: u, borrow_amount: x }).is_ok()
            });
            let free_to = |x: u128| x > 0 && x <= m.avail() && m.cash >= m.reserves && m.borrows.saturating_add(x) <= m.p.borrow_cap;
            if free_to(x) && s.value(u, x).map(|v| v <= int(l2)).unwrap_or(false) {
                case.check(try_(x), "an account cannot borrow what it is told it can", || format!("{x} of {u:?}\n{}", ctx()));
                case.event("borrowing up to the liquidity");
            }
            if free_to(more) && s.value(u, more).map(|v| v > int(l2)).unwrap_or(false) {
                case.check(!try_(more), "an account can borrow more than it is told", || format!("{more} of {u:?}\n{}", ctx()));
                case.event("borrowing beyond the liquidity");
            }
        } else if let Some(c) = acc.mk.values().find(|c| c.active() && acc.pos(c.u, &a).deposit > 0) {
            // it can be liquidated exactly when it is told to fall short
            let debt = acc.debt(u, &a);
            let x = md(debt, ppm(m.p.close_factor), 1_000_000) / 2;
            let z = s.users.iter().find(|z| **z != a).unwrap();
            let res = dry(|| {
                for m in pre.mk.values().filter(|m| m.active()) {
                    let _ = Loans::recompute_underlying_amount(&Amt::new(1, m.l));
                }
                mint(z, u, x);
                by(z, LC::liquidate_borrow { borrower: a.clone(), liquidation_asset_id: u, repay_amount: x, collateral_asset_id: c.u })
            });
            if x > 0 {
                let short = err_name(&res).contains("InsufficientShortfall");
                case.check(short == sh2.is_zero(), "an account can be liquidated although it is told otherwise, or the other way round", || format!("{}\n{}", err_name(&res), ctx()));
                case.event(if sh2.is_zero() { "not to be liquidated" } else { "to be liquidated" });
            }
        }
    }
    // what lend tokens are worth is what redeeming them gives
    let u = *pick(r, &acc.mk.keys().cloned().collect::<Vec<_>>());
    let (m, p) = (&acc.mk[&u], acc.pos(u, &a));
    if m.active() && p.deposit == 0 && p.lf > 0 {
        let worth = dry(|| Loans::recompute_underlying_amount(&Amt::new(p.lf, m.l)).map(|x| (x.amount(), x.currency())));
        let res = dry(|| {
            let ok = by(&a, LC::redeem_all { asset_id: u });
            (ok, free(u, &a) - acc.free(u, &a))
        });
        if res.0.is_ok() {
            case.eq(worth, Ok((res.1, u)), "lend tokens are not redeemed for what they are told to be worth", || format!("{p:?} {m:?}"));
            case.event("worth of lend tokens");
            let back = dry(|| Loans::recompute_collateral_amount(&Amt::new(res.1, u)).map(|x| (x.amount(), x.currency())));
            let mint_ = dry(|| {
                mint(&a, u, res.1);
                (by(&a, LC::mint { asset_id: u, mint_amount: res.1 }).is_ok(), free(m.l, &a) - p.lf)
            });
            if mint_.0 {
                case.eq(back, Ok((mint_.1, m.l)), "lending gives other lend tokens than told", || format!("{} {m:?}", res.1));
            }
        }
    }
}

/// dust and gifts in a nearly empty market
fn dust(case: &mut Case, r: &mut R) {
    let cfg = Cfg { accounts: 3, endowment: 1_000_000_000_000, ..Cfg::default() };
    with_world(&cfg, || {
        loans::MaxExchangeRate::<Runtime>::put(Rate::from_inner(E18));
        let (a, z) = (acc(0), acc(1));
        let mk = market(r, 1, 1_000_000_000_000, false);
        root(LC::add_market { asset_id: RELAY, market: Mkt { supply_cap: 1 << 100, ..mk } }).expect("add");
        root(LC::activate_market { asset_id: RELAY }).expect("activate");
        let x = r.gen_range(1..4u128);
        let _ = act(case, "mint", signed(&a), LC::mint { asset_id: RELAY, mint_amount: x });
        let gift = r.gen_range(0..400u128);
        let _ = act(case, "gift", signed(&a), orml_tokens::Call::<Runtime>::transfer { dest: pot(), currency_id: RELAY, amount: gift });
        next_block();
        let Some(res) = act(case, "mint", signed(&z), LC::mint { asset_id: RELAY, mint_amount: 1_000_000 }) else { return };
        let stopped = x + gift >= 50 * x;
        case.event(if res.is_ok() { "market goes on" } else { "market stopped by dust" });
        if stopped {
            case.check(res.is_ok(), "a gift to a nearly empty market stops it", || format!("{x} lent, {gift} given: {}", err_name(&res)));
        } else {
            case.check(res.is_ok(), "an ordinary market refuses a deposit", || format!("{x} lent, {gift} given: {}", err_name(&res)));
        }
    });
}

pub fn run(m: &Mon) {
    m.rule("histories: 2-5 users over 1-4 lending markets of different prices, rate models and limits; lending, redeeming, borrowing, repaying, collateral switches, liquidations, transfers, gifts, reserves, incentives, governance calls, price moves and time steps from a second to months, with amounts around every limit. After every step all balances, market totals, debts and deposits are compared with the accrued state plus the operation's effect. A state is the set of market records.");
    m.stream("histories", 1500, 20, |c, r| history(m, c, r));
    if m.prop == "L01" {
        m.stream("dust", 20, 2, dust);
    }
    if m.prop == "L06" {
        for (e, n) in [("status of a market with debts", 1000), ("liquidity of a borrower", 1000), ("shortfall", 300), ("borrowing up to the liquidity", 200), ("borrowing beyond the liquidity", 200), ("not to be liquidated", 300), ("to be liquidated", 100), ("worth of lend tokens", 1000)] {
            m.require(e, n);
        }
    }
    for (e, n) in [("mint", 1000), ("redeem", 1000), ("borrow", 1000), ("repay", 500), ("deposit collateral", 1000), ("withdraw collateral", 200), ("liquidate", 200), ("lend tokens transferred", 200), ("price moved", 1000)] {
        m.require(e, n);
    }
}
