//! What is stored for the lending markets, and what interest should do to it.
use mon::Case;
use num_bigint::BigUint;
use primitives::{Rate, Ratio};
use rt::{runtime::*, world::*};
use sp_runtime::{FixedPointNumber, PerThing};
use std::collections::BTreeMap;

pub type Mkt = loans::Market<Balance>;
pub type Ledger = BTreeMap<(CurrencyId, AccountId), (Balance, Balance)>;

pub fn b(x: u128) -> BigUint {
    BigUint::from(x)
}
pub fn ppm(r: Ratio) -> u128 {
    r.deconstruct() as u128
}
pub fn inner(r: Rate) -> u128 {
    r.into_inner()
}
pub const E18: u128 = 1_000_000_000_000_000_000;
pub fn to(x: &BigUint) -> u128 {
    u128::try_from(x).unwrap_or(u128::MAX)
}
pub fn md(a: u128, c: u128, d: u128) -> u128 {
    if d == 0 { 0 } else { to(&(b(a) * c / d)) }
}
pub fn md_up(a: u128, c: u128, d: u128) -> u128 {
    if d == 0 { 0 } else { to(&((b(a) * c + (d - 1)) / d)) }
}

#[derive(Clone, Debug, PartialEq)]
pub struct Mk {
    pub u: CurrencyId,
    pub l: CurrencyId,
    pub p: Mkt,
    pub cash: u128,
    pub borrows: u128,
    pub reserves: u128,
    pub index: u128,
    pub last: u64,
    pub supply: u128,
    pub s_speed: u128,
    pub b_speed: u128,
}
#[derive(Clone, Debug, PartialEq, Default)]
pub struct Pos {
    pub principal: u128,
    pub at: u128,
    pub deposit: u128,
    pub lf: u128,
    pub lr: u128,
    /// what the account owes at the stored index, as the pallet reports it
    pub owes: u128,
}
#[derive(Clone, Debug, PartialEq)]
pub struct Snap {
    pub mk: BTreeMap<CurrencyId, Mk>,
    pub pos: BTreeMap<(CurrencyId, AccountId), Pos>,
    pub accrued: BTreeMap<AccountId, u128>,
    pub ledger: Ledger,
}
pub fn pot() -> AccountId {
    Loans::account_id()
}
pub fn snap(who: &[AccountId]) -> Snap {
    let ledger = ledger();
    let bal = |c: CurrencyId, a: &AccountId| ledger.get(&(c, a.clone())).cloned().unwrap_or_default();
    let mut s = Snap { mk: BTreeMap::new(), pos: BTreeMap::new(), accrued: BTreeMap::new(), ledger: Ledger::new() };
    for (u, p) in loans::Markets::<Runtime>::iter() {
        let l = p.lend_token_id;
        for a in who {
            let r = loans::AccountBorrows::<Runtime>::get(u, a);
            let (lf, lr) = bal(l, a);
            let at = if r.principal == 0 { 0 } else { inner(r.borrow_index) };
            let deposit = loans::AccountDeposits::<Runtime>::get(l, a);
            let owes = if r.principal == 0 { 0 } else { Loans::current_borrow_balance(a, u).map(|x| x.amount()).unwrap_or(u128::MAX >> 8) };
            let x = Pos { principal: r.principal, at, deposit, lf, lr, owes };
            if x != Pos::default() {
                s.pos.insert((u, a.clone()), x);
            }
        }
        s.mk.insert(
            u,
            Mk {
                u,
                l,
                cash: bal(u, &pot()).0,
                borrows: loans::TotalBorrows::<Runtime>::get(u),
                reserves: loans::TotalReserves::<Runtime>::get(u),
                index: inner(Loans::borrow_index(u)),
                last: Loans::last_accrued_interest_time(u),
                supply: issuance(l),
                s_speed: Loans::reward_supply_speed(u),
                b_speed: Loans::reward_borrow_speed(u),
                p,
            },
        );
    }
    for a in who {
        let x = Loans::reward_accrued(a);
        if x > 0 {
            s.accrued.insert(a.clone(), x);
        }
    }
    s.ledger = ledger;
    s
}
impl Snap {
    pub fn pos(&self, u: CurrencyId, a: &AccountId) -> Pos {
        self.pos.get(&(u, a.clone())).cloned().unwrap_or_default()
    }
    pub fn free(&self, c: CurrencyId, a: &AccountId) -> u128 {
        self.ledger.get(&(c, a.clone())).map(|x| x.0).unwrap_or(0)
    }
    /// what `a` owes at the index stored for the market
    pub fn debt(&self, u: CurrencyId, a: &AccountId) -> u128 {
        self.pos(u, a).owes
    }
}
/// every reported debt is the recorded one grown with the index
pub fn check_debts(case: &mut Case, s: &Snap) {
    for ((u, a), p) in &s.pos {
        let want = if p.principal == 0 || p.at == 0 { 0 } else { md_up(p.principal, s.mk[u].index, p.at) };
        let off = p.principal / E18 + 1;
        case.eval(1);
        case.check(p.owes.abs_diff(want) <= off, "a debt does not grow with the index", || format!("{} {u:?} {p:?}, expected {want} at {}", acc_name(a), s.mk[u].index));
    }
}
impl Mk {
    /// what the lenders own together
    pub fn value(&self) -> Option<u128> {
        (self.cash + self.borrows).checked_sub(self.reserves)
    }
    pub fn active(&self) -> bool {
        self.p.state == loans::MarketState::Active
    }
    /// price of a lend token in the underlying, 18 digits rounded down
    pub fn rate(&self, min: u128) -> Option<u128> {
        if self.supply == 0 { Some(min) } else { Some(md(self.value()?, E18, self.supply)) }
    }
    pub fn avail(&self) -> u128 {
        self.cash.saturating_sub(self.reserves)
    }
}

// --- interest --------------------------------------------------------------------------------
const FX: u32 = 128;
fn fx(n: u128, d: u128) -> BigUint {
    (b(n) << FX) / d
}
/// yearly borrow rate at a utilization in millionths, scaled
pub fn borrow_rate(p: &Mkt, util: u128) -> BigUint {
    match &p.rate_model {
        loans::InterestRateModel::Jump(j) => {
            let (b0, b1, b2, ju) = (inner(j.base_rate), inner(j.jump_rate), inner(j.full_rate), ppm(j.jump_utilization));
            if util <= ju {
                if ju == 0 {
                    return fx(b1, E18);
                }
                fx(b0, E18) + (fx(b1 - b0, E18) * util) / ju
            } else {
                fx(b1, E18) + (fx(b2 - b1, E18) * (util - ju)) / (1_000_000 - ju)
            }
        }
        loans::InterestRateModel::Curve(c) => {
            // base + utilization^9 (a ninth power keeps the curve flat up to high utilization)
            let mut x = fx(util, 1_000_000);
            for _ in 0..3 {
                x = (&x * &x) >> FX;
            }
            x = (x * fx(util, 1_000_000)) >> FX;
            fx(inner(c.base_rate), E18) + x
        }
    }
}
pub fn utilization(m: &Mk) -> Option<u128> {
    if m.borrows == 0 {
        return Some(0);
    }
    let t = m.value()?;
    if t == 0 { Some(1_000_000) } else { Some(md(m.borrows, 1_000_000, t).min(1_000_000)) }
}
/// bounds of the factor by which debts grow in `dt` seconds, scaled
pub fn growth(m: &Mk, dt: u64) -> Option<(BigUint, BigUint)> {
    let u = utilization(m)?;
    let lo = borrow_rate(&m.p, u);
    let hi = borrow_rate(&m.p, (u + 1).min(1_000_000));
    let (lo, hi) = if lo <= hi { (lo, hi) } else { (hi, lo) };
    let eps = fx(3, E18);
    let step = |r: BigUint, up: bool| {
        let s = if up { (r + &eps * 6u32) / 31_536_000u32 + &eps } else { r / 31_536_000u32 };
        let mut x = (b(1) << FX) + s;
        if !up {
            x = if x > &eps + (b(1) << FX) { x - &eps } else { b(1) << FX };
        }
        let mut acc = b(1) << FX;
        let mut n = dt;
        while n > 0 {
            if n & 1 == 1 {
                acc = (&acc * &x) >> FX;
            }
            x = (&x * &x) >> FX;
            n >>= 1;
        }
        let w = (&acc * fx(4, E18) >> FX) * dt + fx(10, E18) * 10u32;
        if up { acc + w } else if acc > w { acc - w } else { b(0) }
    };
    let lo = step(lo, false).max(b(1) << FX);
    Some((lo, step(hi, true)))
}
/// x * f
pub fn grow(x: u128, f: &BigUint) -> u128 {
    to(&((f * x) >> FX))
}

/// `now` is `was` with interest up to `t`
pub fn check_accrual(case: &mut Case, was: &Mk, now: &Mk, t: u64) {
    let ctx = || format!("time {t}\nbefore {was:?}\nafter  {now:?}");
    if was.last == 0 || t <= was.last {
        let same = Mk { last: now.last, ..was.clone() };
        case.check(same == *now, "interest without time", ctx);
        return;
    }
    let dt = t - was.last;
    let Some((lo, hi)) = growth(was, dt) else { return };
    case.eval(4);
    let ok = now.index >= grow(was.index, &lo).saturating_sub(2) && now.index <= grow(was.index, &hi) + 2;
    case.check(ok, "the index does not grow by the rate of the market", || format!("dt {dt} util {:?} rate {:?}\nexpected {}..{}\n{}", utilization(was), borrow_rate(&was.p, utilization(was).unwrap()) * E18 >> FX, grow(was.index, &lo), grow(was.index, &hi), ctx()));
    let want = md(was.borrows, now.index, was.index);
    let slack = was.borrows / E18 * 3 + 2;
    case.check(now.borrows <= want && now.borrows + slack >= want, "debts of the market do not grow with its index", ctx);
    let interest = now.borrows.saturating_sub(was.borrows);
    let share = md(interest, ppm(was.p.reserve_factor), 1_000_000);
    case.check(now.reserves == was.reserves + share, "the reserves do not get their share of the interest", || format!("interest {interest} share {share}\n{}", ctx()));
    let same = Mk { last: now.last, borrows: now.borrows, reserves: now.reserves, index: now.index, ..was.clone() };
    case.check(same == *now, "interest changes something else", ctx);
    if interest > 0 {
        case.event("interest accrued");
    }
}
