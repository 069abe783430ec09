//! W01: proportional sharing by the reward pools, against exact integer arithmetic.
use frame_support::storage::with_storage_layer;
use mon::{rand::Rng, *};
use num_bigint::BigInt;
use reward::RewardsApi;
use rt::{runtime::*, world::*};
use sp_runtime::DispatchError;
use std::collections::BTreeMap;

type Res<T> = Result<T, DispatchError>;
#[derive(Clone, Copy, Debug, PartialEq)]
enum Inst {
    Escrow,
    Vault,
    Capacity,
    Farming,
}
fn cur(i: u32) -> CurrencyId {
    match i {
        0 => NATIVE,
        1 => WRAPPED,
        2 => RELAY,
        n => CurrencyId::ForeignAsset(n),
    }
}
fn vid(i: u32) -> VaultId {
    VaultId::new(acc(i), RELAY, WRAPPED)
}
macro_rules! on {
    ($i:expr, $p:expr, $s:expr, |$api:ident, $pool:ident, $st:ident| $e:expr) => {
        match $i {
            Inst::Escrow => { type $api = EscrowRewards; let $pool = (); let $st = acc($s); let _ = $p; $e }
            Inst::Vault => { type $api = VaultRewards; let $pool = cur($p); let $st = vid($s); $e }
            Inst::Capacity => { type $api = VaultCapacity; let $pool = (); let $st = cur($s); let _ = $p; $e }
            Inst::Farming => { type $api = FarmingRewards; let $pool = cur($p); let $st = acc($s); $e }
        }
    };
}
impl Inst {
    fn deposit(self, p: u32, s: u32, a: Balance) -> Res<()> {
        with_storage_layer(|| on!(self, p, s, |A, pool, st| <A as RewardsApi<_, _, Balance>>::deposit_stake(&pool, &st, a)))
    }
    fn withdraw(self, p: u32, s: u32, a: Balance) -> Res<()> {
        with_storage_layer(|| on!(self, p, s, |A, pool, st| <A as RewardsApi<_, _, Balance>>::withdraw_stake(&pool, &st, a)))
    }
    fn withdraw_all(self, p: u32, s: u32) -> Res<Balance> {
        with_storage_layer(|| on!(self, p, s, |A, pool, st| <A as RewardsApi<_, _, Balance>>::withdraw_all_stake(&pool, &st)))
    }
    fn set(self, p: u32, s: u32, a: Balance) -> Res<()> {
        with_storage_layer(|| on!(self, p, s, |A, pool, st| <A as RewardsApi<_, _, Balance>>::set_stake(&pool, &st, a)))
    }
    fn distribute(self, p: u32, c: u32, a: Balance) -> Res<()> {
        with_storage_layer(|| on!(self, p, 0, |A, pool, _st| <A as RewardsApi<_, _, Balance>>::distribute_reward(&pool, cur(c), a)))
    }
    fn compute(self, p: u32, s: u32, c: u32) -> Res<Balance> {
        on!(self, p, s, |A, pool, st| <A as RewardsApi<_, _, Balance>>::compute_reward(&pool, &st, cur(c)))
    }
    fn claim(self, p: u32, s: u32, c: u32) -> Res<Balance> {
        with_storage_layer(|| on!(self, p, s, |A, pool, st| <A as RewardsApi<_, _, Balance>>::withdraw_reward(&pool, &st, cur(c))))
    }
    fn stake(self, p: u32, s: u32) -> Res<Balance> {
        on!(self, p, s, |A, pool, st| <A as RewardsApi<_, _, Balance>>::get_stake(&pool, &st))
    }
    fn total(self, p: u32) -> Res<Balance> {
        on!(self, p, 0, |A, pool, _st| <A as RewardsApi<_, _, Balance>>::get_total_stake(&pool))
    }
}

const SC: u32 = 60; // decimal digits of the model's fraction
fn sc() -> BigInt {
    BigInt::from(10u8).pow(SC)
}
fn ulp() -> BigInt {
    BigInt::from(10u8).pow(SC - 18)
}
/// the range of the pools' fixed point type, with a margin
fn limit() -> BigInt {
    BigInt::from(160_000_000_000_000_000_000u128) * sc()
}
#[derive(Default, Clone)]
struct Owed {
    exact: BigInt,
    /// what rounding at distributions may have taken
    low: BigInt,
    ops: u32,
}
#[derive(Default)]
struct Model {
    stake: BTreeMap<(u32, u32), u128>,
    owed: BTreeMap<(u32, u32, u32), Owed>,
    rpt: BTreeMap<(u32, u32), BigInt>,
    distributed: BTreeMap<u32, u128>,
    paid: BTreeMap<u32, u128>,
    curs: BTreeMap<u32, Vec<u32>>,
}
impl Model {
    fn st(&self, p: u32, s: u32) -> u128 {
        self.stake.get(&(p, s)).copied().unwrap_or(0)
    }
    fn total(&self, p: u32) -> u128 {
        self.stake.iter().filter(|(k, _)| k.0 == p).map(|(_, v)| v).sum()
    }
    /// Would a stake of `x` at pool `p` stay in the range of the arithmetic?
    fn fits(&self, p: u32, x: u128) -> bool {
        let x = BigInt::from(x);
        x.clone() * sc() < limit() && self.rpt.iter().filter(|(k, _)| k.0 == p).all(|(_, r)| r.clone() * &x < limit())
    }
    fn touch(&mut self, p: u32, s: u32) {
        for ((pp, _, ss), o) in self.owed.iter_mut() {
            if *pp == p && *ss == s {
                o.ops += 1;
            }
        }
    }
}
fn amount(r: &mut R) -> u128 {
    match r.gen_range(0..8) {
        0 => r.gen_range(0..3),
        1 => r.gen_range(1..1000),
        2 => 1u128 << r.gen_range(0..67),
        3 => 10u128.pow(r.gen_range(0..20)),
        _ => log_uniform_u128(r, 66),
    }
}

fn check_all(case: &mut Case, i: Inst, m: &Model, np: u32, ns: u32, nc: u32, ctx: &str) -> bool {
    let mut ok = true;
    for p in 0..np {
        let t = m.total(p);
        ok &= case.eq(i.total(p), Ok(t), "the total stake of a pool is not the sum of its stakes", || format!("{i:?} pool {p} after {ctx}"));
        for s in 0..ns {
            ok &= case.eq(i.stake(p, s), Ok(m.st(p, s)), "a stake is not what was deposited less what was withdrawn", || format!("{i:?} pool {p} staker {s} after {ctx}"));
            for c in 0..nc {
                let o = m.owed.get(&(p, c, s)).cloned().unwrap_or_default();
                let slack = ulp() * (o.ops + 2);
                case.eval(1);
                match i.compute(p, s, c) {
                    Ok(a) => {
                        let a = BigInt::from(a) * sc();
                        ok &= case.check(a <= &o.exact + &slack, "a staker is owed more than its share of the rewards", || {
                            format!("{i:?} pool {p} staker {s} currency {c} after {ctx}: announced {} exact {}", &a / sc(), show(&o.exact))
                        });
                        ok &= case.check(a + sc() + &o.low + &slack > o.exact, "a staker is owed less than its share of the rewards", || {
                            format!("{i:?} pool {p} staker {s} currency {c} after {ctx}: announced {:?} exact {} rounding {}", i.compute(p, s, c), show(&o.exact), show(&o.low))
                        });
                    }
                    Err(e) => {
                        ok = false;
                        case.violate("a reward within the range of the arithmetic cannot be computed", format!("{i:?} pool {p} staker {s} currency {c} after {ctx}: {e:?}, exact {}", show(&o.exact)));
                    }
                }
            }
        }
    }
    ok
}
pub fn show(x: &BigInt) -> String {
    let q = x / ulp();
    let i = &q / BigInt::from(10u64.pow(18));
    let f = &q % BigInt::from(10u64.pow(18));
    format!("{i}.{:0>18}", f.to_string())
}

fn history(case: &mut Case, r: &mut R) {
    let i = *pick(r, &[Inst::Escrow, Inst::Vault, Inst::Capacity, Inst::Farming, Inst::Farming]);
    let np = if matches!(i, Inst::Escrow | Inst::Capacity) { 1 } else { r.gen_range(1..4) };
    let ns = r.gen_range(1..6u32);
    let (nc, maxc) = match i {
        Inst::Escrow => (2, 1),
        Inst::Farming => (12, 10),
        _ => (3, 2),
    };
    let steps = r.gen_range(10..60);
    let realistic = r.gen_bool(0.4);
    let am = |r: &mut R| if realistic { r.gen_range(1_000_000..1_000_000_000_000u128) } else { amount(r) };
    with_world(&Cfg::default(), || {
        let mut m = Model::default();
        for step in 0..steps {
            let (p, s, c) = (r.gen_range(0..np), r.gen_range(0..ns), if r.gen_bool(0.7) { r.gen_range(0..maxc) } else { r.gen_range(0..nc) });
            let mut what = String::new();
            let have = m.st(p, s);
            match r.gen_range(0..13) {
                0..=2 => {
                    let a = am(r);
                    if !m.fits(p, m.total(p).saturating_add(a)) { continue }
                    what = format!("deposit {a} pool {p} staker {s}");
                    let g = i.deposit(p, s, a);
                    case.log(|| format!("{what} -> {g:?}"));
                    if !case.eq(g, Ok(()), "a stake cannot be deposited", || what.clone()) { return }
                    m.touch(p, s);
                    *m.stake.entry((p, s)).or_default() += a;
                    case.event("deposit");
                }
                3 => {
                    let a = match r.gen_range(0..4) { 0 => have, 1 => have / 2, _ => r.gen_range(0..=have) };
                    what = format!("withdraw {a} of {have} pool {p} staker {s}");
                    let g = i.withdraw(p, s, a);
                    case.log(|| format!("{what} -> {g:?}"));
                    if !case.eq(g, Ok(()), "a stake cannot be withdrawn", || what.clone()) { return }
                    m.touch(p, s);
                    *m.stake.entry((p, s)).or_default() -= a;
                    case.event("withdraw");
                }
                4 => {
                    let a = have + 1 + if r.gen() { 0 } else { am(r) };
                    what = format!("overdraw {a} of {have} pool {p} staker {s}");
                    let g = i.withdraw(p, s, a);
                    case.log(|| format!("{what} -> {g:?}"));
                    case.check(g.is_err(), "more than the stake can be withdrawn", || what.clone());
                    case.event("overdraw refused");
                }
                5 => {
                    what = format!("withdraw all of {have} pool {p} staker {s}");
                    let g = i.withdraw_all(p, s);
                    case.log(|| format!("{what} -> {g:?}"));
                    if !case.eq(g, Ok(have), "withdrawing a whole stake does not return it", || what.clone()) { return }
                    m.touch(p, s);
                    m.stake.insert((p, s), 0);
                    case.event("withdraw all");
                }
                6 => {
                    let a = if r.gen_bool(0.2) { have } else { am(r) };
                    if !m.fits(p, m.total(p) - have + a) { continue }
                    what = format!("set stake {a} (was {have}) pool {p} staker {s}");
                    let g = i.set(p, s, a);
                    case.log(|| format!("{what} -> {g:?}"));
                    if !case.eq(g, Ok(()), "a stake cannot be set", || what.clone()) { return }
                    m.touch(p, s);
                    m.stake.insert((p, s), a);
                    case.event("set");
                }
                7..=9 => {
                    let a = am(r);
                    let t = m.total(p);
                    what = format!("distribute {a} of {c} to pool {p} (total stake {t})");
                    let tot_c = m.distributed.get(&c).copied().unwrap_or(0).saturating_add(a);
                    if t > 0 {
                        let rpt = m.rpt.get(&(p, c)).cloned().unwrap_or_default() + BigInt::from(a) * sc() / t;
                        if rpt.clone() * t >= limit() || rpt >= limit() || BigInt::from(tot_c) * sc() >= limit() { continue }
                    }
                    if BigInt::from(a) * sc() >= limit() { continue }
                    let g = i.distribute(p, c, a);
                    case.log(|| format!("{what} -> {g:?}"));
                    if a == 0 {
                        case.eq(g, Ok(()), "an empty distribution is refused", || what.clone());
                        continue
                    }
                    let known = m.curs.entry(p).or_default();
                    if t == 0 {
                        case.check(g.is_err(), "a reward is accepted although nobody has a stake", || what.clone());
                        case.event("no stake refused");
                        continue
                    }
                    if !known.contains(&c) && known.len() as u32 >= maxc {
                        case.check(g.is_err(), "more reward currencies than the limit", || what.clone());
                        case.event("currency limit refused");
                        continue
                    }
                    if !known.contains(&c) { known.push(c) }
                    if !case.eq(g, Ok(()), "a reward cannot be distributed", || what.clone()) { return }
                    *m.distributed.entry(c).or_default() += a;
                    *m.rpt.entry((p, c)).or_default() += BigInt::from(a) * sc() / t;
                    for s in 0..ns {
                        let x = m.st(p, s);
                        if x > 0 {
                            let o = m.owed.entry((p, c, s)).or_default();
                            o.exact += BigInt::from(a) * x * sc() / t;
                            o.low += BigInt::from(x) * ulp();
                        }
                    }
                    case.event("distribute");
                }
                _ => {
                    let before = i.compute(p, s, c);
                    what = format!("claim currency {c} pool {p} staker {s}");
                    let g = i.claim(p, s, c);
                    case.log(|| format!("{what} -> {g:?}"));
                    if !case.eq(g, before, "claiming does not pay what was announced", || what.clone()) { return }
                    let Ok(g) = g else { return };
                    *m.paid.entry(c).or_default() += g;
                    if let Some(o) = m.owed.get_mut(&(p, c, s)) {
                        *o = Owed { ops: 1, ..Default::default() };
                    }
                    let again = i.claim(p, s, c);
                    case.eq(again, Ok(0), "claiming twice pays twice", || what.clone());
                    if g > 0 { case.event("claim paid") }
                }
            }
            case.eval(1);
            case.state_dbg(&(i as u32, step, what.len(), &m.stake, &m.paid));
            if !check_all(case, i, &m, np, ns, nc, &what) { return }
        }
        // all that is owed can be claimed, and no more was promised than distributed
        for p in 0..np {
            for s in 0..ns {
                for c in 0..nc {
                    let g = i.claim(p, s, c);
                    case.check(g.is_ok(), "an announced reward cannot be claimed", || format!("{i:?} pool {p} staker {s} currency {c}: {g:?}"));
                    *m.paid.entry(c).or_default() += g.unwrap_or(0);
                }
            }
        }
        for (c, paid) in &m.paid {
            let d = m.distributed.get(c).copied().unwrap_or(0);
            case.check(*paid <= d, "more was paid than distributed", || format!("{i:?} currency {c}: paid {paid} distributed {d}"));
        }
        case.sample(|| format!("{i:?}: {} pools, {} stakers, distributed {:?} paid {:?}", np, ns, m.distributed, m.paid));
    });
}

pub fn run(m: &Mon) {
    m.rule("histories: random deposits, withdrawals, distributions and claims on each of the runtime's four reward pools; after every step every stake and every announced reward is compared with exact arithmetic. A state is a pool instance with its stakes and payments.");
    m.stream("histories", 4000, 20, history);
    for (e, n) in [("deposit", 1000), ("withdraw", 500), ("distribute", 1000), ("claim paid", 500), ("overdraw refused", 200), ("no stake refused", 50), ("currency limit refused", 10)] {
        m.require(e, n);
    }
}
