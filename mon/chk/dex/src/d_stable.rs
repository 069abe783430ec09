//! X01: stable pools, against an independent high precision solution of their invariant.
use crate::d_math::*;
use codec::{Decode, Encode};
use dex_stable::Pallet as Stable;
use mon::{rand::Rng, *};
use num_bigint::BigUint;
use rt::{runtime::*, world::*};
use std::collections::BTreeMap;

// --- what is in storage ---------------------------------------------------------------------
#[derive(Clone, Debug, Decode, PartialEq)]
pub struct Info {
    pub cur: Vec<CurrencyId>,
    pub lp: CurrencyId,
    pub mult: Vec<u128>,
    pub bal: Vec<u128>,
    pub fee: u128,
    pub admin: u128,
    pub a0: u128,
    pub a1: u128,
    pub t0: u128,
    pub t1: u128,
    pub account: AccountId,
    pub receiver: AccountId,
    pub symbol: Vec<u8>,
    pub dec: u8,
}
#[derive(Clone, Debug, Decode, PartialEq)]
struct MetaInfo {
    base: u32,
    vp: u128,
    at: u64,
    cur: Vec<CurrencyId>,
    info: Info,
}
#[derive(Clone, Debug, Decode, PartialEq)]
enum Raw {
    Base(Info),
    Meta(MetaInfo),
}
#[derive(Clone, Debug, PartialEq)]
pub struct Pool {
    pub i: Info,
    /// base pool, cached price, time of the cache, base currencies
    pub meta: Option<(u32, u128, u64, Vec<CurrencyId>)>,
    pub supply: u128,
}
pub fn pool(id: u32) -> Option<Pool> {
    let p = Stable::<Runtime>::pools(id)?;
    let raw = Raw::decode(&mut &p.encode()[..]).ok()?;
    let (i, meta) = match raw {
        Raw::Base(i) => (i, None),
        Raw::Meta(m) => (m.info, Some((m.base, m.vp, m.at, m.cur))),
    };
    let supply = issuance(i.lp);
    Some(Pool { i, meta, supply })
}
pub type Pools = BTreeMap<u32, Pool>;
pub fn pools() -> Pools {
    (0..6).filter_map(|i| pool(i).map(|p| (i, p))).collect()
}
pub fn secs() -> u128 {
    time_ms() as u128 / 1000
}
impl Pool {
    pub fn n(&self) -> usize {
        self.i.cur.len()
    }
    pub fn amp(&self) -> u128 {
        let t = secs();
        let i = &self.i;
        if t >= i.t1 {
            return i.a1;
        }
        let (p, q) = (t - i.t0, i.t1 - i.t0);
        if i.a1 > i.a0 { i.a0 + (i.a1 - i.a0) * p / q } else { i.a0 - (i.a0 - i.a1) * p / q }
    }
    fn vp(&self, j: usize) -> u128 {
        match &self.meta {
            Some(m) if j + 1 == self.n() => m.1,
            _ => ONE,
        }
    }
    /// an amount of currency `j` in scaled common units
    fn norm(&self, j: usize, x: &BigUint) -> BigUint {
        x * self.i.mult[j] * self.vp(j) / ONE
    }
    fn xp(&self, bal: &[u128]) -> Vec<BigUint> {
        (0..self.n()).map(|j| self.norm(j, &up(bal[j]))).collect()
    }
    fn d(&self) -> Option<BigUint> {
        d_of(&self.xp(&self.i.bal), self.amp())
    }
    /// fee on an imbalance
    fn fpt(&self) -> u128 {
        self.i.fee * self.n() as u128 / (4 * (self.n() as u128 - 1))
    }
    /// one unit of rounding in currency `j`, plus a few common units
    fn unit(&self, j: usize) -> BigUint {
        self.norm(j, &up(1)) + up(4)
    }
}
const ONE: u128 = 1_000_000_000_000_000_000;
const DEN: u128 = 10_000_000_000;

pub fn coin(i: usize) -> CurrencyId {
    match i {
        0 => RELAY,
        1 => WRAPPED,
        _ => CurrencyId::ForeignAsset(i as u32),
    }
}
pub const DECS: [u32; 7] = [10, 8, 18, 6, 12, 18, 17];
const RECV: u32 = 80;

type Ledger = BTreeMap<(CurrencyId, AccountId), (u128, u128)>;
/// the ledger entries that changed, as differences of free balances
pub fn diff(a: &Ledger, b: &Ledger) -> BTreeMap<(CurrencyId, AccountId), i128> {
    let mut o = BTreeMap::new();
    for k in a.keys().chain(b.keys()) {
        let (x, y) = (a.get(k).map(|v| v.0).unwrap_or(0), b.get(k).map(|v| v.0).unwrap_or(0));
        if x != y {
            o.insert(k.clone(), y as i128 - x as i128);
        }
    }
    o
}
fn put(m: &mut BTreeMap<(CurrencyId, AccountId), i128>, c: CurrencyId, a: &AccountId, x: i128) {
    let e = m.entry((c, a.clone())).or_default();
    *e += x;
    if *e == 0 { m.remove(&(c, a.clone())); }
}
fn show(m: &BTreeMap<(CurrencyId, AccountId), i128>) -> String {
    m.iter().map(|((c, a), x)| format!("{} {c:?} {x:+}", acc_name(a))).collect::<Vec<_>>().join(", ")
}

/// value per share of every pool must not fall; what is in a pool's books must be in its account
pub fn keep(case: &mut Case, p0: &Pools, p1: &Pools, ctx: &str) -> bool {
    let mut ok = true;
    for (id, b1) in p1 {
        for j in 0..b1.n() {
            ok &= case.check(free(b1.i.cur[j], &b1.i.account) >= b1.i.bal[j], "a pool's books show more than its account holds", || format!("pool {id} currency {j}: {} of {} after {ctx}", free(b1.i.cur[j], &b1.i.account), b1.i.bal[j]));
        }
        let Some(b0) = p0.get(id) else { continue };
        if b0.supply == 0 || b1.supply == 0 || b0 == b1 {
            continue;
        }
        // the same price of base shares on both sides
        let mut c0 = b0.clone();
        c0.meta = b1.meta.clone();
        let more: Vec<BigUint> = (0..b1.n()).map(|j| b1.norm(j, &up(b1.i.bal[j])) + up(4)).collect();
        let (Some(d0), Some(d1)) = (c0.d(), d_of(&more, b1.amp())) else { continue };
        case.eval(1);
        let tol = (tolerance(&c0.xp(&b0.i.bal), &d0) + tolerance(&more, &d1)) * 2u32;
        let lost = (&d1 + &tol) * b0.supply < (if d0 > tol { &d0 - &tol } else { b(0) }) * b1.supply;
        ok &= case.check(!lost, "an operation takes value from the holders of pool shares", || format!("pool {id}: worth {} of {} shares before, {} of {} after; {:?} -> {:?} after {ctx}", dec(&d0), b0.supply, dec(&d1), b1.supply, b0.i.bal, b1.i.bal));
    }
    ok
}
/// the worth of a pool with the price of its base shares renewed if it is due, and the error allowed
pub fn worth_now(ps: &Pools, id: u32) -> Option<(BigUint, BigUint)> {
    let mut p = ps[&id].clone();
    if let Some(m) = &mut p.meta {
        if secs() > m.2 as u128 + 36_000 {
            let (d, _) = worth_now(ps, m.0)?;
            m.1 = (d * ONE / ps.get(&m.0)?.supply.max(1) >> SH).to_string().parse().ok()?;
        }
    }
    let d = p.d()?;
    let xp = p.xp(&p.i.bal);
    let tol = tolerance(&xp, &d) + xp.last().unwrap() * 8u32 / ONE;
    Some((d, tol))
}
/// cached prices of base shares: renewed when older than the limit, and then right
fn prices(case: &mut Case, p0: &Pools, p1: &Pools, used: &[u32], ctx: &str) -> bool {
    let mut ok = true;
    for (id, m1) in p1 {
        let (Some(a), Some(c)) = (p0.get(id).and_then(|p| p.meta.clone()), m1.meta.clone()) else { continue };
        let old = secs() > a.2 as u128 + 36_000;
        if a.1 == c.1 && a.2 == c.2 {
            ok &= case.check(!(old && used.contains(id)), "an outdated price of base pool shares is used", || format!("pool {id}: from {} at {} after {ctx}", a.2, secs()));
            continue;
        }
        ok &= case.check(old && c.2 as u128 == secs(), "the price of base pool shares is renewed at the wrong time", || format!("pool {id}: {a:?} -> {c:?} at {} after {ctx}", secs()));
        let near = |ps: &Pools| worth_now(ps, c.0).map(|(d, tol)| {
            let got = b(c.1) * ps[&c.0].supply;
            let (d, tol) = (d * ONE >> SH, (tol * ONE >> SH) + ps[&c.0].supply);
            got <= &d + &tol && &got + tol >= d
        }).unwrap_or(false);
        ok &= case.check(near(p0) || near(p1), "the price of base pool shares is not their worth", || format!("pool {id}: {c:?} {:?} after {ctx}", p1[&c.0]));
        case.event("base price renewed");
    }
    ok
}
/// the integer iteration is off by a few units, more in a pool far off balance
fn tolerance(xp: &[BigUint], d: &BigUint) -> BigUint {
    let s: BigUint = xp.iter().sum();
    let d = d.clone().max(b(1));
    let least = xp.iter().min().cloned().unwrap_or_default().max(b(1));
    (up(16) + up(16) * s / &d + (&d << SH) / least).min(d / 1_000_000u32 + up(64))
}
fn within(x: &BigUint, lo: &BigUint, hi: &BigUint) -> bool {
    x >= lo && x <= hi
}
fn sub0(a: &BigUint, x: &BigUint) -> BigUint {
    if a > x { a - x } else { b(0) }
}

/// an output of `dy` (with its fee) leaves the invariant where it was
fn judge_swap(case: &mut Case, p: &Pool, q: &Pool, i: usize, j: usize, dx: u128, dy: u128, ctx: &str) -> bool {
    let admin = p.i.bal[j].wrapping_sub(dy).wrapping_sub(q.i.bal[j]);
    let mut pc = p.clone();
    pc.meta = q.meta.clone();
    let p = &pc;
    let mut ok = case.eq(q.i.bal[i], p.i.bal[i] + dx, "a swap does not add what was paid to the pool", || ctx.into());
    let xp = p.xp(&p.i.bal);
    let Some(d0) = d_of(&xp, p.amp()) else { return ok };
    let (u, uj) = (up(4), p.unit(j));
    // before the fee: got / (1 - fee)
    let keep = DEN - p.i.fee;
    let g_lo = p.norm(j, &up(dy)) * DEN / keep;
    let g_hi = (p.norm(j, &up(dy + 1)) + &uj) * DEN / keep;
    let mut x1 = xp.clone();
    x1[i] = p.norm(i, &up(p.i.bal[i] + dx));
    let tol = tolerance(&xp, &d0) + tolerance(&x1, &d0);
    let with = |y: BigUint| {
        let mut v = x1.clone();
        v[j] = y;
        d_of(&v, p.amp())
    };
    // too much out: the rest of the pool is worth less than before
    if let Some(d) = with(sub0(&xp[j], &g_lo) + &u) {
        ok &= case.check(&d + &tol >= d0, "a swap pays more than the pool's curve allows", || format!("{ctx}: out {dy}, worth {} -> {}", dec(&d0), dec(&d)));
    }
    if xp[j] > &g_hi + &u {
        if let Some(d) = with(&xp[j] - &g_hi - &u) {
            ok &= case.check(d <= &d0 + &tol, "a swap pays less than the pool's curve and its fee allow", || format!("{ctx}: out {dy}, worth {} -> {}", dec(&d0), dec(&d)));
        }
    }
    // the share of the fee that goes to the receiver
    let f_lo = &g_lo * p.i.fee / DEN * p.i.admin / DEN;
    let f_hi = (&g_hi * p.i.fee / DEN + &u) * p.i.admin / DEN;
    let a = p.norm(j, &up(admin));
    ok &= case.check(&a <= &(f_hi + &u) && &a + &uj + &u >= f_lo && (p.i.admin > 0 || admin == 0), "the share of a swap fee set aside is not the agreed one", || format!("{ctx}: {admin} of {dy}, fee {} admin {}", p.i.fee, p.i.admin));
    ok
}
/// amounts in (or out) against shares minted (or burnt)
fn judge_change(case: &mut Case, p: &Pool, q: &Pool, amounts: &[u128], deposit: bool, shares: u128, ctx: &str) -> bool {
    let mut pc = p.clone();
    pc.meta = q.meta.clone();
    let p = &pc;
    let n = p.n();
    let mut ok = true;
    let new: Vec<u128> = (0..n).map(|j| if deposit { p.i.bal[j] + amounts[j] } else { p.i.bal[j].wrapping_sub(amounts[j]) }).collect();
    if !deposit && (0..n).any(|j| amounts[j] > p.i.bal[j]) {
        return case.check(false, "more is paid out than the pool has", || ctx.into());
    }
    if p.supply == 0 {
        let xp = p.xp(&new);
        let Some(d) = d_of(&xp, p.amp()) else { return ok };
        let tol = tolerance(&xp, &d);
        ok &= case.check(within(&up(shares), &sub0(&d, &tol), &(&d + &tol)), "the first liquidity does not get shares of its worth", || format!("{ctx}: {shares} for {}", dec(&d)));
        return ok & case.eq(q.i.bal.clone(), new, "the first liquidity is not all in the pool's books", || ctx.into());
    }
    let (Some(d0), Some(d1)) = (p.d(), d_of(&p.xp(&new), p.amp())) else { return ok };
    let tol = tolerance(&p.xp(&p.i.bal), &d0) + tolerance(&p.xp(&new), &d1);
    let (mut lo, mut hi) = (vec![], vec![]);
    for j in 0..n {
        // all in units of the currency, scaled
        let ideal = &d1 * p.i.bal[j] / &d0 << SH;
        let nb = up(new[j]);
        let dist = if ideal > nb { &ideal - &nb } else { &nb - &ideal };
        // the invariant has an error of a few units, which a currency far off balance magnifies
        let slack = up(2) + up(p.i.bal[j]) * &tol / &d0;
        let f_lo = sub0(&dist, &slack) * p.fpt() / DEN;
        let f_hi = (&dist + &slack) * p.fpt() / DEN;
        let adm = new[j].wrapping_sub(q.i.bal[j]);
        let a_lo = sub0(&f_lo, &up(1)) * p.i.admin / DEN;
        let a_hi = &f_hi * p.i.admin / DEN;
        ok &= case.check(new[j] >= q.i.bal[j] && within(&up(adm), &sub0(&a_lo, &up(1)), &(a_hi + up(1))) && (p.i.admin > 0 || adm == 0), "the share of a liquidity fee set aside is not the agreed one", || format!("{ctx}: currency {j}: {adm}, fee {} {}", f_lo.clone() >> SH, f_hi.clone() >> SH));
        lo.push(sub0(&p.norm(j, &sub0(&nb, &f_hi)), &up(2)));
        hi.push(p.norm(j, &(nb + up(1) - f_lo.clone().min(up(1)) )) + up(2));
        // the upper end: the least fee
        let h = hi.last_mut().unwrap();
        *h = p.norm(j, &sub0(&(up(new[j]) + up(1)), &f_lo)) + up(2);
    }
    let d_lo = d_of(&lo, p.amp());
    let d_hi = d_of(&hi, p.amp());
    let s = up(shares);
    if deposit {
        if let Some(h) = &d_hi {
            let most = (sub0(&(h + &tol), &d0)) * p.supply / sub0(&d0, &tol).max(b(1)) << SH;
            ok &= case.check(s <= most + up(1), "liquidity is given more shares than it is worth", || format!("{ctx}: {shares} of {}, worth {} -> {}", p.supply, dec(&d0), dec(h)));
        }
        if let Some(l) = &d_lo {
            let least = sub0(l, &(&d0 + &tol)) * p.supply / (&d0 + &tol) << SH;
            ok &= case.check(&s + up(2) >= least, "liquidity is given fewer shares than it is worth", || format!("{ctx}: {shares} of {}, worth {} -> {}", p.supply, dec(&d0), dec(l)));
        }
    } else {
        if let Some(h) = &d_hi {
            let least = sub0(&d0, &(h + &tol)) * p.supply / (&d0 + &tol) << SH;
            ok &= case.check(&s + up(2) >= least, "liquidity is withdrawn for fewer shares than it is worth", || format!("{ctx}: {shares} of {}, worth {} -> {}", p.supply, dec(&d0), dec(h)));
        }
        if let Some(l) = &d_lo {
            let most = sub0(&(&d0 + &tol), l) * p.supply / sub0(&d0, &tol).max(b(1)) << SH;
            ok &= case.check(s <= most + up(3), "liquidity is withdrawn for more shares than it is worth", || format!("{ctx}: {shares} of {}, worth {} -> {}", p.supply, dec(&d0), dec(l)));
        }
    }
    ok
}
fn judge_one(case: &mut Case, p: &Pool, q: &Pool, t: u128, j: usize, dy: u128, ctx: &str) -> bool {
    let admin = p.i.bal[j].wrapping_sub(dy).wrapping_sub(q.i.bal[j]);
    let mut pc = p.clone();
    pc.meta = q.meta.clone();
    let p = &pc;
    let xp = p.xp(&p.i.bal);
    let Some(d0) = d_of(&xp, p.amp()) else { return true };
    let mut ok = true;
    let d1 = &d0 - &d0 * t / p.supply;
    let Some(y) = y_of(&xp, j, &d1, p.amp()) else { return true };
    let red = |slack: &BigUint, sub: bool| -> Vec<BigUint> {
        (0..p.n()).map(|k| {
            let part = &xp[k] * &d1 / &d0;
            let e = if k == j { sub0(&part, &y) } else { &xp[k] - part };
            let f = if sub { (e + slack) * p.fpt() / DEN + up(1) } else { sub0(&(sub0(&e, slack) * p.fpt() / DEN), &up(2)) };
            sub0(&xp[k], &f)
        }).collect()
    };
    let tol = tolerance(&xp, &d0) * 2u32;
    let slack = up(8) + xp.iter().max().unwrap() * &tol / &d0;
    let (small, large) = (red(&slack, true), red(&slack, false));
    let (u, uj) = (up(4), p.unit(j));
    let out = p.norm(j, &up(dy));
    let mut v = large.clone();
    v[j] = sub0(&large[j], &out) + &u;
    if let Some(d) = d_of(&v, p.amp()) {
        ok &= case.check(&d + &tol >= d1, "withdrawing one currency pays more than the shares are worth", || format!("{ctx}: out {dy}, left {} of {}", dec(&d), dec(&d1)));
    }
    let top = p.norm(j, &up(dy + 1)) + &u + &uj;
    if small[j] > top {
        let mut v = small.clone();
        v[j] = &small[j] - &top;
        if let Some(d) = d_of(&v, p.amp()) {
            ok &= case.check(d <= &d1 + &tol, "withdrawing one currency pays less than the shares are worth", || format!("{ctx}: out {dy}, left {} of {}", dec(&d), dec(&d1)));
        }
    }
    // what is set aside: a part of the difference to a withdrawal without fee
    let fee = sub0(&sub0(&xp[j], &y), &out);
    let err = (&slack + &uj) * 2u32;
    let a = p.norm(j, &up(admin));
    ok &= case.check(a <= (&fee + &err) * p.i.admin / DEN + &uj && a + &uj + &uj >= sub0(&fee, &err) * p.i.admin / DEN && (p.i.admin > 0 || admin == 0), "the share of a withdrawal fee set aside is not the agreed one", || format!("{ctx}: {admin} of fee {}", dec(&fee)));
    ok
}
/// a pool in which nothing is small, large or far off balance
pub fn sane(ps: &Pools, p: &Pool) -> bool {
    if let Some(m) = &p.meta {
        if !sane(ps, &ps[&m.0]) { return false }
    }
    let xp = p.xp(&p.i.bal);
    let (lo, hi) = (xp.iter().min().unwrap(), xp.iter().max().unwrap());
    *lo >= up(1_000_000_000_000_000) && *hi <= up(1 << 90) && *hi <= lo * 30u32 && p.supply > 1_000_000_000_000_000
}

fn value(r: &mut R, have: u128) -> u128 {
    match r.gen_range(0..12) {
        0 => 0,
        1 => 1,
        2 => have,
        3 => have.saturating_add(1),
        4 => have / 2,
        5 => r.gen(),
        _ => {
            let bits = (128 - have.leading_zeros()).max(1);
            log_uniform_u128(r, bits)
        }
    }
}
use dex_stable::Call as C;
type Cl = C<Runtime>;

pub struct Setup {
    pub nu: u32,
    pub nc: usize,
}
/// creates pools and gives them their first liquidity
pub fn setup(case: &mut Case, r: &mut R, bits: u32) -> Option<Setup> {
    let nu = r.gen_range(1..4u32);
    let nc = r.gen_range(3..8usize);
    for u in 0..nu {
        for c in 0..nc {
            let unit = 10u128.pow(DECS[c]);
            let x = unit / 1000 * log_uniform_u128(r, bits);
            set_balance(&acc(u), coin(c), x);
        }
    }
    let np = r.gen_range(1..4u32);
    for id in 0..np {
        let meta = id > 0 && r.gen_bool(0.7);
        let base = if meta { Some(r.gen_range(0..id)) } else { None };
        let n = r.gen_range(if meta { 1 } else { 2 }..5.min(nc));
        let mut cs: Vec<usize> = vec![];
        while cs.len() < n {
            let c = r.gen_range(0..nc);
            if !cs.contains(&c) { cs.push(c) }
        }
        let mut cur: Vec<_> = cs.iter().map(|c| coin(*c)).collect();
        let mut decs: Vec<_> = cs.iter().map(|c| DECS[*c]).collect();
        if let Some(bp) = base {
            cur.push(pool(bp)?.i.lp);
            decs.push(18);
        }
        let a = *pick(r, &[1u128, 5, 50, 100, 500, 2000, 999_999]);
        let fee = *pick(r, &[0u128, 1_000_000, 4_000_000, 10_000_000, 100_000_000]);
        let admin = *pick(r, &[0u128, 0, 5_000_000_000, 10_000_000_000, 1]);
        let recv = acc(RECV + r.gen_range(0..2));
        case.log(|| format!("pool {id}: {cur:?} decimals {decs:?} A {a} fee {fee} admin {admin} base {base:?}"));
        let res = if base.is_some() {
            root(C::create_meta_pool { currency_ids: cur.clone(), currency_decimals: decs, a, fee, admin_fee: admin, admin_fee_receiver: recv, lp_currency_symbol: vec![] })
        } else {
            root(C::create_base_pool { currency_ids: cur.clone(), currency_decimals: decs, a, fee, admin_fee: admin, admin_fee_receiver: recv, lp_currency_symbol: vec![] })
        };
        if !case.check(res.is_ok(), "governance cannot create a pool", || format!("{res:?}")) { return None }
        // roughly equal worth of everything
        let who = acc(0);
        let worth = 1u128 << r.gen_range(bits / 2..bits);
        let am: Vec<u128> = cur.iter().enumerate().map(|(k, c)| {
            let unit = if k < cs.len() { 10u128.pow(DECS[cs[k]]) } else { ONE };
            let skew = r.gen_range(200..2000u128);
            (unit / 1000 * worth / 1000 * skew / 1000).max(1).min(free(*c, &who) / 3)
        }).collect();
        let p0 = pools();
        let res = by(&who, C::add_liquidity { pool_id: id, amounts: am.clone(), min_mint_amount: 0, to: who.clone(), deadline: now() + 1 });
        case.log(|| format!("first liquidity {am:?}: {res:?}"));
        if res.is_err() { return None }
        let p1 = pools();
        judge_change(case, &p0[&id], &p1[&id], &am, true, p1[&id].supply, "the first liquidity");
        case.event(if base.is_some() { "meta pool" } else { "base pool" });
    }
    Some(Setup { nu, nc })
}

fn history(case: &mut Case, r: &mut R) {
    let bits = *pick(r, &[20u32, 30, 40, 50]);
    let steps = r.gen_range(10..40);
    with_world(&Cfg { accounts: 0, ..Default::default() }, || {
        let Some(s) = setup(case, r, bits) else { return };
        for _ in 0..steps {
            if !step(case, r, &s) || case.failed() { return }
        }
    })
}
fn step(case: &mut Case, r: &mut R, s: &Setup) -> bool {
    let p0 = pools();
    let np = p0.len() as u32;
    let id = r.gen_range(0..np);
    let p = p0[&id].clone();
    let (who, to) = (acc(r.gen_range(0..s.nu)), acc(r.gen_range(0..s.nu + 1)));
    let late = r.gen_bool(0.03);
    let dl = if late { now() - r.gen_range(0..now().min(2)) } else { now() + r.gen_range(1..5) };
    let l0 = ledger();
    let n = p.n();
    let idx = |r: &mut R| if r.gen_bool(0.04) { r.gen_range(0..10) } else { r.gen_range(0..n as u32) };
    // with the effect expected of the ledger
    macro_rules! done {
        ($what:expr, $want:expr) => {{
            let got = diff(&l0, &ledger());
            if !case.check(got == $want, "an exchange operation moves other amounts than it should", || format!("{}: {} instead of {}", $what, show(&got), show(&$want))) { return false }
        }};
    }
    macro_rules! finish {
        ($what:expr, $res:expr, $used:expr) => { finish!($what, $res, $used, $used) };
        ($what:expr, $res:expr, $used:expr, $priced:expr) => {{
            let p1 = pools();
            if $res.is_err() {
                if !case.check(p0 == p1 && l0 == ledger(), "a refused operation changes something", || $what.clone()) { return false }
            } else {
                for (k, a) in &p0 {
                    let c = &p1[k];
                    let mut e = a.i.clone();
                    e.bal = c.i.bal.clone();
                    if !case.check(e == c.i, "a user's operation changes the parameters of a pool", || format!("{}: {:?} -> {:?}", $what, a.i, c.i)) { return false }
                    if !$used.contains(k) && !case.check(a == c, "an operation changes a pool it does not use", || format!("{}: pool {k}", $what)) { return false }
                }
                if !keep(case, &p0, &p1, &$what) | !prices(case, &p0, &p1, &$priced, &$what) { return false }
            }
            p1
        }};
    }
    match r.gen_range(0..40) {
        0..=7 => {
            let (i, j) = (idx(r), idx(r));
            let have = p.i.cur.get(i as usize).map(|c| free(*c, &who)).unwrap_or(5);
            let pb = p.i.bal.get(i as usize).copied().unwrap_or(5);
            let top = if r.gen() { have } else { pb.min(have) };
            let dx = value(r, top);
            // the true output, known from a trial
            let trial = dry(|| {
                let c = p.i.cur.get(j as usize)?;
                let b = free(*c, &to);
                by(&who, C::swap { pool_id: id, from_index: i, to_index: j, in_amount: dx, min_out_amount: 0, to: to.clone(), deadline: now() + 1 }).ok()?;
                Some(free(*c, &to) - b)
            });
            let min = match (trial, r.gen_range(0..4)) { (Some(t), 0) => t, (Some(t), 1) => t + 1, _ => 0 };
            let what = format!("swap of pool {id} {i}->{j} {dx} of {have} min {min} by {} to {} late {late}", acc_name(&who), acc_name(&to));
            let Some(res) = act(case, "swap", signed(&who), Cl::swap { pool_id: id, from_index: i, to_index: j, in_amount: dx, min_out_amount: min, to: to.clone(), deadline: dl }) else { return false };
            let p1 = finish!(what, res, [id]);
            let bad = late || i == j || i as usize >= n || j as usize >= n || dx > have || trial.map(|t| t < min).unwrap_or(false);
            if res.is_ok() {
                if !case.check(!bad, "a swap against the rules is accepted", || what.clone()) { return false }
                let t = trial.unwrap_or(0);
                let mut want = BTreeMap::new();
                put(&mut want, p.i.cur[i as usize], &who, -(dx as i128));
                put(&mut want, p.i.cur[i as usize], &p.i.account, dx as i128);
                put(&mut want, p.i.cur[j as usize], &p.i.account, -(t as i128));
                put(&mut want, p.i.cur[j as usize], &to, t as i128);
                done!(what, want);
                case.event("swap");
                if !judge_swap(case, &p, &p1[&id], i as usize, j as usize, dx, t, &what) { return false }
            } else if !bad && sane(&p0, &p) {
                let v = p.norm(i as usize, &up(dx));
                let okay = v >= up(1_000_000) && v <= p.norm(i as usize, &up(p.i.bal[i as usize])) && p.norm(j as usize, &up(1)) <= v;
                if !case.check(!okay, "an ordinary swap is refused", || format!("{what}: {res:?} {:?}", p)) { return false }
            }
        }
        8..=13 => {
            let am: Vec<u128> = (0..n).map(|j| {
                let have = free(p.i.cur[j], &who);
                if r.gen_bool(0.2) { 0 } else if r.gen() { value(r, have) } else { let h = p.i.bal[j].min(have); value(r, h) }
            }).collect();
            let am = if r.gen_bool(0.03) { am[1..].to_vec() } else { am };
            let trial = dry(|| {
                by(&who, C::add_liquidity { pool_id: id, amounts: am.clone(), min_mint_amount: 0, to: to.clone(), deadline: now() + 1 }).ok()?;
                Some(issuance(p.i.lp) - p.supply)
            });
            let min = match (trial, r.gen_range(0..4)) { (Some(t), 0) => t, (Some(t), 1) => t + 1, _ => 0 };
            let what = format!("add_liquidity of pool {id} {am:?} min {min} by {} to {} late {late}", acc_name(&who), acc_name(&to));
            let Some(res) = act(case, "add_liquidity", signed(&who), Cl::add_liquidity { pool_id: id, amounts: am.clone(), min_mint_amount: min, to: to.clone(), deadline: dl }) else { return false };
            let p1 = finish!(what, res, [id]);
            let bad = late || am.len() != n || (0..n).any(|j| am[j] > free_in(&l0, p.i.cur[j], &who)) || (p.supply == 0 && am.contains(&0)) || am.iter().all(|x| *x == 0) || trial.map(|t| t < min).unwrap_or(false);
            if res.is_ok() {
                if !case.check(!bad, "liquidity is added against the rules", || what.clone()) { return false }
                let t = trial.unwrap_or(0);
                let mut want = BTreeMap::new();
                for j in 0..n {
                    put(&mut want, p.i.cur[j], &who, -(am[j] as i128));
                    put(&mut want, p.i.cur[j], &p.i.account, am[j] as i128);
                }
                put(&mut want, p.i.lp, &to, t as i128);
                done!(what, want);
                case.event(if p.supply == 0 { "liquidity to an empty pool" } else { "liquidity" });
                if !judge_change(case, &p, &p1[&id], &am, true, t, &what) { return false }
            } else if !bad && sane(&p0, &p) {
                let okay = (0..n).all(|j| { let v = p.norm(j, &up(am[j])); v <= p.norm(j, &up(p.i.bal[j])) * 2u32 }) && (0..n).any(|j| p.norm(j, &up(am[j])) >= up(1_000_000_000));
                if !case.check(!okay, "ordinary liquidity is refused", || format!("{what}: {res:?} {p:?}")) { return false }
            }
        }
        14..=18 => {
            let have = free(p.i.lp, &who);
            let x = value(r, have);
            let share: Vec<u128> = p.i.bal.iter().map(|v| if p.supply == 0 { 0 } else { crate::d_pair::muldiv(*v, x, p.supply).unwrap_or(u128::MAX) }).collect();
            let min: Vec<u128> = share.iter().map(|v| if r.gen_bool(0.7) { 0 } else { v.saturating_add(r.gen_bool(0.2) as u128) }).collect();
            let min = if r.gen_bool(0.03) { min[1..].to_vec() } else { min };
            let what = format!("remove_liquidity of pool {id} {x} of {have} min {min:?} by {} to {} late {late}", acc_name(&who), acc_name(&to));
            let Some(res) = act(case, "remove_liquidity", signed(&who), Cl::remove_liquidity { pool_id: id, lp_amount: x, min_amounts: min.clone(), to: to.clone(), deadline: dl }) else { return false };
            let p1 = finish!(what, res, [id], []);
            let legal = !late && x > 0 && x <= have && min.len() == n && (0..n).all(|j| share[j] >= min[j]);
            if !case.eq(res.is_ok(), legal, "shares are redeemed or refused against the rules", || format!("{what}: {res:?}")) { return false }
            if legal {
                let mut want = BTreeMap::new();
                put(&mut want, p.i.lp, &who, -(x as i128));
                for j in 0..n {
                    put(&mut want, p.i.cur[j], &p.i.account, -(share[j] as i128));
                    put(&mut want, p.i.cur[j], &to, share[j] as i128);
                }
                done!(what, want);
                let books: Vec<u128> = (0..n).map(|j| p.i.bal[j] - share[j]).collect();
                if !case.eq(p1[&id].i.bal.clone(), books, "a withdrawal is not taken from the pool's books", || what.clone()) { return false }
                case.event(if x == p.supply { "all shares redeemed" } else { "shares redeemed" });
            }
        }
        19..=22 => {
            let j = idx(r);
            let have = free(p.i.lp, &who);
            let x = value(r, have);
            let trial = dry(|| {
                let c = p.i.cur.get(j as usize)?;
                let b = free(*c, &to);
                by(&who, C::remove_liquidity_one_currency { pool_id: id, lp_amount: x, index: j, min_amount: 0, to: to.clone(), deadline: now() + 1 }).ok()?;
                Some(free(*c, &to) - b)
            });
            let min = match (trial, r.gen_range(0..4)) { (Some(t), 0) => t, (Some(t), 1) => t + 1, _ => 0 };
            let what = format!("remove_liquidity_one_currency of pool {id} {x} of {have}, supply {}, for {j} min {min} by {} to {} late {late}", p.supply, acc_name(&who), acc_name(&to));
            let Some(res) = act(case, "remove_liquidity_one_currency", signed(&who), Cl::remove_liquidity_one_currency { pool_id: id, lp_amount: x, index: j, min_amount: min, to: to.clone(), deadline: dl }) else { return false };
            let p1 = finish!(what, res, [id]);
            let bad = late || x == 0 || x > have || j as usize >= n || trial.map(|t| t < min).unwrap_or(false);
            if res.is_ok() {
                if !case.check(!bad, "one currency is withdrawn against the rules", || what.clone()) { return false }
                let t = trial.unwrap_or(0);
                let mut want = BTreeMap::new();
                put(&mut want, p.i.lp, &who, -(x as i128));
                put(&mut want, p.i.cur[j as usize], &p.i.account, -(t as i128));
                put(&mut want, p.i.cur[j as usize], &to, t as i128);
                done!(what, want);
                case.event("one currency withdrawn");
                if !judge_one(case, &p, &p1[&id], x, j as usize, t, &what) { return false }
            } else if !bad && sane(&p0, &p) && x > p.supply / 1_000_000 && x < p.supply / 2 {
                if !case.check(false, "an ordinary withdrawal of one currency is refused", || format!("{what}: {res:?} {p:?}")) { return false }
            }
        }
        23..=26 => {
            let am: Vec<u128> = (0..n).map(|j| if r.gen_bool(0.3) { 0 } else { value(r, p.i.bal[j]) / if r.gen() { 1 } else { 10 } }).collect();
            let am = if r.gen_bool(0.03) { am[1..].to_vec() } else { am };
            let have = free(p.i.lp, &who);
            let trial = dry(|| {
                by(&who, C::remove_liquidity_imbalance { pool_id: id, amounts: am.clone(), max_burn_amount: u128::MAX, to: to.clone(), deadline: now() + 1 }).ok()?;
                Some(p.supply - issuance(p.i.lp))
            });
            let max = match (trial, r.gen_range(0..4)) { (Some(t), 0) => t, (Some(t), 1) => t - 1, _ => u128::MAX };
            let what = format!("remove_liquidity_imbalance of pool {id} {am:?} max {max} of {have} by {} to {} late {late}", acc_name(&who), acc_name(&to));
            let Some(res) = act(case, "remove_liquidity_imbalance", signed(&who), Cl::remove_liquidity_imbalance { pool_id: id, amounts: am.clone(), max_burn_amount: max, to: to.clone(), deadline: dl }) else { return false };
            let p1 = finish!(what, res, [id]);
            let bad = late || am.len() != n || trial.map(|t| t > max || t > have).unwrap_or(false) || (0..n).any(|j| am[j] > p.i.bal[j]);
            if res.is_ok() {
                if !case.check(!bad, "amounts are withdrawn against the rules", || what.clone()) { return false }
                let t = trial.unwrap_or(0);
                let mut want = BTreeMap::new();
                put(&mut want, p.i.lp, &who, -(t as i128));
                for j in 0..n {
                    put(&mut want, p.i.cur[j], &p.i.account, -(am[j] as i128));
                    put(&mut want, p.i.cur[j], &to, am[j] as i128);
                }
                done!(what, want);
                case.event("amounts withdrawn");
                if !judge_change(case, &p, &p1[&id], &am, false, t, &what) { return false }
            } else if !bad && sane(&p0, &p) && have > p.supply / 2 {
                let okay = (0..n).all(|j| am[j] <= p.i.bal[j] / 4 / n as u128) && (0..n).any(|j| p.norm(j, &up(am[j])) >= up(1_000_000_000));
                if !case.check(!okay, "an ordinary withdrawal of amounts is refused", || format!("{what}: {res:?} {p:?}")) { return false }
            }
        }
        27..=34 => return compound(case, r, s, id, &p0, &l0, &who, &to, dl, late),
        35..=36 => {
            // governance
            let as_root = r.gen_bool(0.8);
            let o = if as_root { Origin::root() } else { signed(&who) };
            let mut e = p.i.clone();
            let (what, res, legal);
            match r.gen_range(0..5) {
                0 => {
                    let f = *pick(r, &[0u128, 4_000_000, 100_000_000, 100_000_001, u128::MAX]);
                    what = format!("set_swap_fee of pool {id} {f} root {as_root}");
                    res = act(case, "set_swap_fee", o, Cl::set_swap_fee { pool_id: id, new_swap_fee: f });
                    legal = f <= 100_000_000;
                    e.fee = f;
                }
                1 => {
                    let f = *pick(r, &[0u128, 5_000_000_000, 10_000_000_000, 10_000_000_001, u128::MAX]);
                    what = format!("set_admin_fee of pool {id} {f} root {as_root}");
                    res = act(case, "set_admin_fee", o, Cl::set_admin_fee { pool_id: id, new_admin_fee: f });
                    legal = f <= 10_000_000_000;
                    e.admin = f;
                }
                2 => {
                    let a = RECV + r.gen_range(0..2);
                    what = format!("update_fee_receiver of pool {id} {a} root {as_root}");
                    res = act(case, "update_fee_receiver", o, Cl::update_fee_receiver { pool_id: id, fee_receiver: acc(a).into() });
                    legal = true;
                    e.receiver = acc(a);
                }
                3 => {
                    let cur = p.amp();
                    let a = match r.gen_range(0..6) { 0 => cur / 1000, 1 => cur / 10, 2 => cur / 10 + 1, 3 => cur / 1000 + 1, 4 => cur / 200 + 1, _ => *pick(r, &[0u128, 1, 999_999, 1_000_000, u128::MAX]) };
                    let t = secs() + *pick(r, &[0u128, 86_399, 86_400, 172_800, 1_000_000]);
                    what = format!("ramp_a of pool {id} {a} until {t} root {as_root}");
                    res = act(case, "ramp_a", o, Cl::ramp_a { pool_id: id, future_a: a, future_a_time: t });
                    let f = a.saturating_mul(100);
                    legal = a > 0 && a < 1_000_000 && t >= secs() + 86_400 && secs() >= p.i.t0 + 86_400 && f <= cur * 10 && f * 10 >= cur;
                    e.a0 = cur;
                    e.a1 = f;
                    e.t0 = secs();
                    e.t1 = t;
                }
                _ => {
                    what = format!("stop_ramp_a of pool {id} root {as_root}");
                    res = act(case, "stop_ramp_a", o, Cl::stop_ramp_a { pool_id: id });
                    legal = p.i.t1 > secs();
                    e.a0 = p.amp();
                    e.a1 = p.amp();
                    e.t0 = secs();
                    e.t1 = secs();
                }
            }
            let Some(res) = res else { return false };
            case.eval(1);
            let legal = legal && as_root;
            if !case.eq(res.is_ok(), legal, "a pool's parameters are changed or not against the rules", || format!("{what}: {res:?} {:?} at {}", p.i, secs())) { return false }
            let p1 = pools();
            let e = if legal { e } else { p.i.clone() };
            if !case.eq(p1[&id].i.clone(), e, "a pool's parameters are not what governance set", || what.clone()) { return false }
            if !case.check(diff(&l0, &ledger()).is_empty(), "governance moves funds of a pool", || what.clone()) { return false }
            if legal { case.event("parameter set") }
        }
        37 => {
            let what = format!("withdraw_admin_fee of pool {id}");
            let Some(res) = act(case, "withdraw_admin_fee", signed(&who), Cl::withdraw_admin_fee { pool_id: id }) else { return false };
            if !case.check(res.is_ok() && pools() == p0, "set aside fees cannot be collected", || format!("{what}: {res:?}")) { return false }
            let mut want = BTreeMap::new();
            for j in 0..n {
                let x = (free_in(&l0, p.i.cur[j], &p.i.account) - p.i.bal[j]) as i128;
                put(&mut want, p.i.cur[j], &p.i.account, -x);
                put(&mut want, p.i.cur[j], &p.i.receiver, x);
            }
            if !want.is_empty() { case.event("fees collected") }
            done!(what, want);
        }
        _ => {
            let dt = *pick(r, &[6_000u64, 3_600_000, 36_000_000, 40_000_000, 90_000_000]);
            block_at(now() + 1, dt);
            case.log(|| format!("time passes to {}", secs()));
        }
    }
    case.state_dbg(&(id, pools().values().map(|p| (p.i.bal.clone(), p.supply)).collect::<Vec<_>>()));
    true
}
fn free_in(l: &Ledger, c: CurrencyId, a: &AccountId) -> u128 {
    l.get(&(c, a.clone())).map(|x| x.0).unwrap_or(0)
}

fn beyond(r: &mut R, n: u32, by: u32) -> u32 {
    let e = if r.gen_bool(0.1) { by } else { 0 };
    r.gen_range(0..n + e)
}
/// operations over two pools must do what their two parts do
fn compound(case: &mut Case, r: &mut R, _s: &Setup, id: u32, p0: &Pools, l0: &Ledger, who: &AccountId, to: &AccountId, dl: BlockNumber, late: bool) -> bool {
    let metas: Vec<u32> = p0.iter().filter(|(_, p)| p.meta.is_some()).map(|(i, _)| *i).collect();
    let id = if metas.is_empty() || r.gen_bool(0.05) { id } else { *pick(r, &metas) };
    let p = p0[&id].clone();
    let n = p.n();
    let right = p.meta.as_ref().map(|m| m.0);
    let bid = match right { Some(x) if r.gen_bool(0.95) => x, _ => r.gen_range(0..p0.len() as u32) };
    let matching = right == Some(bid);
    let q = p0[&bid].clone();
    let nb = q.n();
    let last = n - 1;
    let soon = now() + 1;
    let am = |r: &mut R, pl: &Pool, j: usize| { let h = free(pl.i.cur[j], who).min(pl.i.bal[j].saturating_mul(2)); value(r, h) };
    let lpb = |l: &CurrencyId| free(*l, who);
    let what: String;
    let call: Cl;
    // the parts, as calls already judged on their own; returns the least result the user named
    let parts: Box<dyn Fn() -> Option<()>>;
    let mut exact = matching;
    let mut limit: (CurrencyId, u128) = (NATIVE, 0);
    match r.gen_range(0..6) {
        0 => {
            let ba: Vec<u128> = (0..nb).map(|j| if r.gen_bool(0.3) { 0 } else { am(r, &q, j) }).collect();
            let mut ma: Vec<u128> = (0..n).map(|j| if r.gen_bool(0.3) { 0 } else { am(r, &p, j) }).collect();
            ma[last] = 0;
            let min = 0;
            what = format!("add_pool_and_base_pool_liquidity {id} {bid} {ma:?} {ba:?}");
            call = C::add_pool_and_base_pool_liquidity { pool_id: id, base_pool_id: bid, meta_amounts: ma.clone(), base_amounts: ba.clone(), min_to_mint: min, to: to.clone(), deadline: dl };
            let (w, t, c) = (who.clone(), to.clone(), q.i.lp);
            parts = Box::new(move || {
                let mut ma = ma.clone();
                if ba.iter().any(|x| *x > 0) {
                    let b0 = free(c, &w);
                    by(&w, C::add_liquidity { pool_id: bid, amounts: ba.clone(), min_mint_amount: 0, to: w.clone(), deadline: soon }).ok()?;
                    ma[last] = free(c, &w).checked_sub(b0)?;
                }
                by(&w, C::add_liquidity { pool_id: id, amounts: ma, min_mint_amount: min, to: t.clone(), deadline: soon }).ok()
            });
        }
        1 => {
            let h = lpb(&p.i.lp);
            let x = value(r, h);
            what = format!("remove_pool_and_base_pool_liquidity {id} {bid} {x}");
            call = C::remove_pool_and_base_pool_liquidity { pool_id: id, base_pool_id: bid, amount: x, min_amounts_meta: vec![0; n], min_amounts_base: vec![0; nb], to: to.clone(), deadline: dl };
            let (w, t, c) = (who.clone(), to.clone(), q.i.lp);
            parts = Box::new(move || {
                let b0 = free(c, &w);
                by(&w, C::remove_liquidity { pool_id: id, lp_amount: x, min_amounts: vec![0; n], to: w.clone(), deadline: soon }).ok()?;
                let y = free(c, &w).checked_sub(b0)?;
                by(&w, C::remove_liquidity { pool_id: bid, lp_amount: y, min_amounts: vec![0; nb], to: t.clone(), deadline: soon }).ok()
            });
        }
        2 => {
            let h = lpb(&p.i.lp);
            let x = value(r, h);
            let i = beyond(r, nb as u32, 1);
            what = format!("remove_pool_and_base_pool_liquidity_one_currency {id} {bid} {x} {i}");
            call = C::remove_pool_and_base_pool_liquidity_one_currency { pool_id: id, base_pool_id: bid, amount: x, i, min_amount: 0, to: to.clone(), deadline: dl };
            let (w, t, c) = (who.clone(), to.clone(), q.i.lp);
            parts = Box::new(move || {
                let b0 = free(c, &w);
                by(&w, C::remove_liquidity_one_currency { pool_id: id, lp_amount: x, index: last as u32, min_amount: 0, to: w.clone(), deadline: soon }).ok()?;
                let y = free(c, &w).checked_sub(b0)?;
                by(&w, C::remove_liquidity_one_currency { pool_id: bid, lp_amount: y, index: i, min_amount: 0, to: t.clone(), deadline: soon }).ok()
            });
        }
        3 => {
            let i = beyond(r, nb as u32, 3);
            let o = beyond(r, n as u32, 1);
            let dx = if (i as usize) < nb { am(r, &q, i as usize) } else { 7 };
            let min = if r.gen_bool(0.3) { let b = (dx / 2).max(1); value(r, b) } else { 0 };
            what = format!("swap_pool_from_base {id} {bid} {i}->{o} {dx} min {min}");
            call = C::swap_pool_from_base { pool_id: id, base_pool_id: bid, in_index: i, out_index: o, dx, min_dy: min, to: to.clone(), deadline: dl };
            if (o as usize) < n { limit = (p.i.cur[o as usize], min) }
            let (w, t, c) = (who.clone(), to.clone(), q.i.lp);
            parts = Box::new(move || {
                let b0 = free(c, &w);
                let mut a = vec![0; nb];
                *a.get_mut(i as usize)? = dx;
                if o as usize == last {
                    return by(&w, C::add_liquidity { pool_id: bid, amounts: a, min_mint_amount: min, to: t.clone(), deadline: soon }).ok();
                }
                by(&w, C::add_liquidity { pool_id: bid, amounts: a, min_mint_amount: 0, to: w.clone(), deadline: soon }).ok()?;
                let y = free(c, &w).checked_sub(b0)?;
                by(&w, C::swap { pool_id: id, from_index: last as u32, to_index: o, in_amount: y, min_out_amount: min, to: t.clone(), deadline: soon }).ok()
            });
        }
        4 => {
            let i = beyond(r, n as u32, 1);
            let o = beyond(r, nb as u32, 1);
            let dx = if (i as usize) < n { am(r, &p, i as usize) } else { 7 };
            let min = if r.gen_bool(0.3) { let b = (dx / 2).max(1); value(r, b) } else { 0 };
            what = format!("swap_pool_to_base {id} {bid} {i}->{o} {dx} min {min}");
            call = C::swap_pool_to_base { pool_id: id, base_pool_id: bid, in_index: i, out_index: o, dx, min_dy: min, to: to.clone(), deadline: dl };
            if (o as usize) < nb { limit = (q.i.cur[o as usize], min) }
            let (w, t, c) = (who.clone(), to.clone(), q.i.lp);
            // giving base shares themselves is a withdrawal, which this call does not offer
            exact = exact && i as usize != last;
            parts = Box::new(move || {
                let b0 = free(c, &w);
                by(&w, C::swap { pool_id: id, from_index: i, to_index: last as u32, in_amount: dx, min_out_amount: 0, to: w.clone(), deadline: soon }).ok()?;
                let y = free(c, &w).checked_sub(b0)?;
                by(&w, C::remove_liquidity_one_currency { pool_id: bid, lp_amount: y, index: o, min_amount: min, to: t.clone(), deadline: soon }).ok()
            });
        }
        _ => {
            let bcur = p.meta.as_ref().map(|m| m.3.clone()).unwrap_or_default();
            let all: Vec<CurrencyId> = p.i.cur[..last].iter().chain(bcur.iter()).copied().collect();
            let m = all.len().max(1);
            let (i, o) = (beyond(r, m as u32, 1) as usize, beyond(r, m as u32, 1) as usize);
            let h = all.get(i).map(|c| free(*c, who)).unwrap_or(3);
            let dx = value(r, h);
            let min = if r.gen_bool(0.3) { let b = (dx / 2).max(1); value(r, b) } else { 0 };
            what = format!("swap_meta_pool_underlying {id} {i}->{o} {dx} min {min}");
            call = C::swap_meta_pool_underlying { pool_id: id, in_index: i as u32, out_index: o as u32, dx, min_dy: min, to: to.clone(), deadline: dl };
            if let Some(c) = all.get(o) { limit = (*c, min) }
            // with the price about to be renewed the parts would see another price
            let fresh = p.meta.as_ref().map(|m| secs() <= m.2 as u128 + 36_000).unwrap_or(true);
            exact = fresh && right.is_some();
            let base = right.unwrap_or(0);
            let c = p0[&base].i.lp;
            let nb = p0[&base].n();
            let (w, t) = (who.clone(), to.clone());
            parts = Box::new(move || {
                if i == o || i >= m || o >= m { return None }
                let b0 = free(c, &w);
                let mut a = vec![0; nb];
                match (i >= last, o >= last) {
                    (false, false) => by(&w, C::swap { pool_id: id, from_index: i as u32, to_index: o as u32, in_amount: dx, min_out_amount: min, to: t.clone(), deadline: soon }).ok(),
                    (true, true) => by(&w, C::swap { pool_id: base, from_index: (i - last) as u32, to_index: (o - last) as u32, in_amount: dx, min_out_amount: min, to: t.clone(), deadline: soon }).ok(),
                    (true, false) => {
                        a[i - last] = dx;
                        by(&w, C::add_liquidity { pool_id: base, amounts: a, min_mint_amount: 0, to: w.clone(), deadline: soon }).ok()?;
                        let y = free(c, &w).checked_sub(b0)?;
                        by(&w, C::swap { pool_id: id, from_index: last as u32, to_index: o as u32, in_amount: y, min_out_amount: min, to: t.clone(), deadline: soon }).ok()
                    }
                    (false, true) => {
                        by(&w, C::swap { pool_id: id, from_index: i as u32, to_index: last as u32, in_amount: dx, min_out_amount: 0, to: w.clone(), deadline: soon }).ok()?;
                        let y = free(c, &w).checked_sub(b0)?;
                        by(&w, C::remove_liquidity_one_currency { pool_id: base, lp_amount: y, index: (o - last) as u32, min_amount: min, to: t.clone(), deadline: soon }).ok()
                    }
                }
            });
        }
    }
    let trial = dry(|| parts().map(|_| (ledger(), pools())));
    let Some(res) = act(case, what.split(' ').next().unwrap(), signed(who), call) else { return false };
    let p1 = pools();
    case.eval(1);
    if late && !case.check(res.is_err(), "an operation is accepted after its deadline", || what.clone()) { return false }
    if res.is_err() {
        if !case.check(*p0 == p1 && *l0 == ledger(), "a refused operation changes something", || what.clone()) { return false }
        if exact && !late && !case.check(trial.is_none(), "an operation over two pools is refused though its parts are not", || format!("{what}: {res:?}")) { return false }
    } else {
        case.event(what.split(' ').next().unwrap());
        if exact {
            let Some((l, ps)) = trial else { return case.check(false, "an operation over two pools is accepted though its parts are not", || what.clone()) };
            let (x, y) = (diff(l0, &ledger()), diff(l0, &l));
            if !case.check(x == y, "an operation over two pools does not do what its parts do", || format!("{what} by {} to {}: {} instead of {}", acc_name(who), acc_name(to), show(&x), show(&y))) { return false }
            if !case.check(p1 == ps, "an operation over two pools leaves other books than its parts", || format!("{what}: {p1:?} instead of {ps:?}")) { return false }
        }
        let gain = diff(l0, &ledger()).get(&(limit.0, to.clone())).copied().unwrap_or(0);
        if limit.1 > 0 && who != to && !case.check(gain >= limit.1 as i128, "a swap over two pools pays less than the user's minimum", || format!("{what}: {gain}")) { return false }
        // nothing stays behind with, or is taken from, the pools' accounts beyond their books
        for (k, a) in p0 {
            let c = &p1[k];
            for j in 0..c.n() {
                let x0 = free_in(l0, a.i.cur[j], &a.i.account) - a.i.bal[j];
                let x1 = free(c.i.cur[j], &c.i.account).wrapping_sub(c.i.bal[j]);
                if !case.check(x1 >= x0, "set aside fees are taken by a swap", || format!("{what}: pool {k}")) { return false }
            }
        }
        if !keep(case, p0, &p1, &what) | !prices(case, p0, &p1, &[], &what) { return false }
    }
    case.state_dbg(&(id, 9, p1.values().map(|p| (p.i.bal.clone(), p.supply)).collect::<Vec<_>>()));
    true
}

pub fn run(m: &Mon) {
    m.rule("histories: one to three random pools (base pools of two to four currencies of different decimals, pools over another pool's shares), random amplification, fees and shares of fees; users swap, add and withdraw in every way, also over two pools, governance changes parameters and ramps, time passes. Every operation's payments are compared with the ledger, and its price with the pool's invariant solved to 64 fractional bits; operations over two pools are compared with a trial of their parts. A state is the books and shares of all pools.");
    m.stream("histories", 6000, 30, history);
    for (e, n) in [("swap", 1000), ("liquidity", 1000), ("shares redeemed", 300), ("all shares redeemed", 5), ("one currency withdrawn", 300), ("amounts withdrawn", 100), ("swap_meta_pool_underlying", 50), ("swap_pool_from_base", 50), ("swap_pool_to_base", 50), ("add_pool_and_base_pool_liquidity", 30), ("base price renewed", 20), ("fees collected", 50), ("parameter set", 200)] {
        m.require(e, n);
    }
}
