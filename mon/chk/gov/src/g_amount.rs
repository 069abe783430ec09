//! U01: amounts of a currency: arithmetic, movement and conversion.
use currency::{Amount, CurrencyConversion, Rounding};
use frame_support::storage::with_storage_layer;
use mon::{rand::Rng, *};
use num_bigint::BigUint;
use primitives::{TruncateFixedPointToInt, VaultCurrencyPair};
use rt::{runtime::*, world::*};
use sp_runtime::{FixedI128, FixedPointNumber, FixedU128};
use std::collections::BTreeMap;

type A = Amount<Runtime>;
const E18: u128 = 1_000_000_000_000_000_000;
fn big(x: u128) -> BigUint {
    BigUint::from(x)
}
fn small(x: BigUint) -> Option<u128> {
    (x.bits() <= 128).then(|| x.to_u64_digits().iter().rev().fold(0, |a, d| (a << 64) | *d as u128))
}
/// x * n / d; None when it does not fit
fn mul_div(x: u128, n: u128, d: u128, rounding: &Rounding) -> Option<u128> {
    if d == 0 {
        return None;
    }
    let p = big(x) * big(n);
    let (q, m) = (&p / big(d), &p % big(d));
    let up = match rounding {
        Rounding::Down => false,
        Rounding::Up => m > big(0),
        Rounding::NearestPrefDown => m * big(2) > big(d),
        Rounding::NearestPrefUp => m * big(2) >= big(d),
    };
    small(if up { q + big(1) } else { q })
}
fn value(r: &mut R) -> u128 {
    match r.gen_range(0..4) {
        0 => weird_u128(r),
        1 => r.gen_range(0..20),
        _ => log_uniform_u128(r, 128),
    }
}
fn factor(r: &mut R) -> u128 {
    match r.gen_range(0..6) {
        0 => weird_u128(r),
        1 => E18,
        2 => E18 + r.gen_range(0..3) - 1,
        3 => r.gen_range(0..E18),
        4 => E18 / r.gen_range(1..1000u128),
        _ => log_uniform_u128(r, 128),
    }
}
fn math(case: &mut Case, r: &mut R) {
    let cs = [NATIVE, RELAY, WRAPPED, LendToken(1), ForeignAsset(7)];
    let (c, d) = (*pick(r, &cs), *pick(r, &cs));
    let x = value(r);
    let y = if r.gen_ratio(1, 4) { x.wrapping_add(r.gen_range(0..3)).wrapping_sub(1) } else { value(r) };
    let f = factor(r);
    let same = c == d;
    let (a, b) = (A::new(x, c), A::new(y, d));
    let ctx = || format!("{x} {c:?} and {y} {d:?}, factor {f}/10^18");
    let k = FixedU128::from_inner(f);
    let amt = |v: Result<A, sp_runtime::DispatchError>| v.ok().map(|v| (v.amount(), v.currency()));
    let with = |v: Option<u128>| v.map(|v| (v, c));
    let Some(done) = case.total("arithmetic", ctx, || {
        let mut acc = a.clone();
        let accrued = acc.checked_accrue(&b).is_ok();
        let two: Vec<(&str, Option<(u128, CurrencyId)>, Option<(u128, CurrencyId)>)> = vec![
            ("sum", amt(a.checked_add(&b)), with(x.checked_add(y)).filter(|_| same)),
            ("accrued sum", Some((acc.amount(), acc.currency())), Some(if same && x.checked_add(y).is_some() { (x + y, c) } else { (x, c) })),
            ("accrual", accrued.then_some((0, c)), (same && x.checked_add(y).is_some()).then_some((0, c))),
            ("difference", amt(a.checked_sub(&b)), with(x.checked_sub(y)).filter(|_| same)),
            ("saturating difference", amt(a.saturating_sub(&b)), with(Some(x.saturating_sub(y))).filter(|_| same)),
            ("minimum", amt(a.min(&b)), with(Some(x.min(y))).filter(|_| same)),
            ("maximum", amt(a.max(&b)), with(Some(x.max(y))).filter(|_| same)),
            ("ratio", a.ratio(&b).ok().map(|v| (v.into_inner(), c)), with(mul_div(x, E18, y, &Rounding::Down)).filter(|_| same)),
            ("product", amt(a.checked_mul(&k)), with(mul_div(x, f, E18, &Rounding::Down))),
            ("product up", amt(a.checked_rounded_mul(&k, Rounding::Up)), with(mul_div(x, f, E18, &Rounding::Up))),
            ("product nearest", amt(a.checked_rounded_mul(&k, Rounding::NearestPrefUp)), with(mul_div(x, f, E18, &Rounding::NearestPrefUp))),
            ("product nearest down", amt(a.checked_rounded_mul(&k, Rounding::NearestPrefDown)), with(mul_div(x, f, E18, &Rounding::NearestPrefDown))),
            ("quotient", amt(a.checked_div(&k)), with(mul_div(x, E18, f, &Rounding::Down))),
            ("relabelled", Some((a.set_currency(d).amount(), a.set_currency(d).currency())), Some((x, d))),
            ("zero", Some((A::zero(c).amount(), A::zero(c).currency())), Some((0, c))),
        ];
        let cmp: Vec<(&str, Option<bool>, bool)> = vec![
            ("<", a.lt(&b).ok(), x < y),
            ("<=", a.le(&b).ok(), x <= y),
            (">", a.gt(&b).ok(), x > y),
            (">=", a.ge(&b).ok(), x >= y),
            ("=", a.eq(&b).ok(), x == y),
            ("!=", a.ne(&b).ok(), x != y),
        ];
        (two, cmp)
    }) else { return };
    for (n, got, want) in done.0 {
        if !case.check(got == want, "an amount's arithmetic is not exact, bounded and within one currency", || format!("{n} of {}: got {got:?} want {want:?}", ctx())) {
            return;
        }
        case.event(if want.is_some() { "value" } else { "no value" });
    }
    for (n, got, want) in done.1 {
        let want = same.then_some(want);
        if !case.check(got == want, "amounts do not compare by value within one currency", || format!("{n} of {}: got {got:?} want {want:?}", ctx())) {
            return;
        }
    }
    case.eval(24);
    case.check(a.is_zero() == (x == 0), "an amount is not zero exactly when it is", ctx);
    let p = r.gen_range(0..=1_000_000u32);
    let got = a.mul_ratio_floor(primitives::Ratio::from_parts(p)).amount();
    case.eq(Some(got), mul_div(x, p as u128, 1_000_000, &Rounding::Down), "an amount's arithmetic is not exact, bounded and within one currency", || format!("{p} ppm of {x}"));
    // to and from fixed point
    let got = case.total("fixed point", ctx, || {
        (
            a.to_unsigned_fixed_point().ok().map(|v| v.into_inner()),
            a.to_signed_fixed_point().ok().map(|v| v.into_inner()),
            A::from_unsigned_fixed_point(k, c).ok().map(|v| v.amount()),
            A::from_signed_fixed_point(FixedI128::from_inner(f as i128), c).ok().map(|v| v.amount()),
            k.truncate_to_inner(),
        )
    });
    let Some(got) = got else { return };
    let uns = x.checked_mul(E18);
    let sig = uns.and_then(|v| i128::try_from(v).ok());
    let fi = f as i128;
    let want = (uns, sig, Some(f / E18), if fi >= 0 || fi / E18 as i128 == 0 { Some((fi / E18 as i128) as u128) } else { None }, Some(f / E18));
    case.check(got == want, "an amount is not kept through the fixed-point form, or does not fit where it should", || format!("{}: got {got:?} want {want:?}", ctx()));
    case.state_dbg(&(x, y, f));
    case.event(if same { "same currency" } else { "different currencies" });
}

fn moves(case: &mut Case, r: &mut R) {
    let cs = [NATIVE, RELAY, WRAPPED, Token(KSM), ForeignAsset(1)];
    with_world(&Cfg { accounts: 0, ..Default::default() }, || {
        let mut m: BTreeMap<(CurrencyId, u32), (u128, u128)> = BTreeMap::new();
        let mut supply: BTreeMap<CurrencyId, u128> = cs.iter().map(|c| (*c, issuance(*c))).collect();
        for c in cs {
            for a in 0..4 {
                m.insert((c, a), (0, 0));
            }
        }
        let top = if r.gen_ratio(1, 5) { 127 } else { r.gen_range(3..60) };
        for _ in 0..r.gen_range(10..60) {
            let c = *pick(r, &cs);
            let (a, b) = (r.gen_range(0..4u32), r.gen_range(0..4u32));
            let (f, res) = m[&(c, a)];
            let x = match r.gen_range(0..9) {
                0 => f,
                1 => f.saturating_add(1),
                2 => res,
                3 => res.saturating_add(1),
                4 => 0,
                5 => weird_u128(r),
                _ => log_uniform_u128(r, top),
            };
            let am = A::new(x, c);
            let (pa, pb) = (acc(a), acc(b));
            let k = r.gen_range(0..6);
            let names = ["mint", "mint", "transfer", "lock", "unlock", "burn"];
            let good = match k {
                0 | 1 => supply[&c].checked_add(x).is_some() && f.checked_add(x).and_then(|v| v.checked_add(res)).is_some(),
                // a transfer to oneself moves nothing
                2 => f >= x || a == b,
                3 => f >= x,
                _ => res >= x,
            };
            let Some(out) = case.total("movement", || format!("{} {x} {c:?}", names[k]), || {
                with_storage_layer(|| match k {
                    0 | 1 => am.mint_to(&pa),
                    2 => am.transfer(&pa, &pb),
                    3 => am.lock_on(&pa),
                    4 => am.unlock_on(&pa),
                    _ => am.burn_from(&pa),
                })
            }) else { return };
            case.log(|| format!("{} {x} {c:?} of {a} (to {b}) -> {}", names[k], err_name(&out)));
            if !case.check(out.is_ok() == good, if good { "a movement covered by the account was refused" } else { "a movement not covered by the account was made" }, || format!("{} {x} {c:?} of {a}: free {f} held {res} supply {}: {}", names[k], supply[&c], err_name(&out))) {
                return;
            }
            case.event(&format!("{} {}", names[k], if good { "ok" } else { "refused" }));
            if good {
                let e = m.get_mut(&(c, a)).unwrap();
                match k {
                    0 | 1 => e.0 += x,
                    2 if a != b => e.0 -= x,
                    2 => (),
                    3 => *e = (f - x, res + x),
                    4 => *e = (f + x, res - x),
                    _ => e.1 -= x,
                }
                if k == 2 && a != b {
                    m.get_mut(&(c, b)).unwrap().0 += x;
                }
                if k < 2 {
                    *supply.get_mut(&c).unwrap() += x;
                } else if k == 5 {
                    *supply.get_mut(&c).unwrap() -= x;
                }
            }
            for ((c, a), w) in &m {
                let g = (currency::get_free_balance::<Runtime>(*c, &acc(*a)), currency::get_reserved_balance::<Runtime>(*c, &acc(*a)));
                if !case.check(g.0.amount() == w.0 && g.1.amount() == w.1 && g.0.currency() == *c, "a movement did not move exactly its amount of its currency between the accounts it names", || format!("{} {x} {c:?}: account {a} has {:?} want {w:?}", names[k], g)) {
                    return;
                }
            }
            case.eval(m.len() as u64);
            for (c, s) in &supply {
                if !case.eq(issuance(*c), *s, "the currency in existence did not change by exactly what was minted or burnt", || format!("{c:?} after {}", names[k])) {
                    return;
                }
            }
        }
        case.state_dbg(&m);
    })
}

fn convert(case: &mut Case, r: &mut R) {
    let c = Cfg { accounts: 4, endowment: 1_000_000_000_000_000, collaterals: vec![RELAY, Token(KSM)], ..Default::default() };
    with_world(&c, || {
        let base = [RELAY, Token(KSM)];
        let mut price: BTreeMap<CurrencyId, u128> = BTreeMap::new();
        let mut feedv = vec![];
        for k in base {
            if r.gen_ratio(9, 10) {
                let bits = *pick(r, &[50, 60, 70, 80, 100]);
                let p = 1 + log_uniform_u128(r, bits);
                price.insert(k, p);
                feedv.push((oracle::OracleKey::ExchangeRate(k), FixedU128::from_inner(p)));
            }
        }
        if !feedv.is_empty() {
            feed(feedv);
        }
        block_at(now() + 1, MILLISECS_PER_BLOCK);
        let mut lend: BTreeMap<CurrencyId, CurrencyId> = BTreeMap::new();
        for (i, k) in base.iter().enumerate() {
            if r.gen_ratio(9, 10) {
                let l = LendToken(i as u32 + 1);
                let mk = loans::Market {
                    collateral_factor: primitives::Ratio::from_percent(50),
                    liquidation_threshold: primitives::Ratio::from_percent(55),
                    reserve_factor: primitives::Ratio::from_percent(15),
                    close_factor: primitives::Ratio::from_percent(50),
                    liquidate_incentive: Rate::saturating_from_rational(110, 100),
                    liquidate_incentive_reserved_factor: primitives::Ratio::from_percent(3),
                    rate_model: loans::InterestRateModel::new_jump_model(Rate::saturating_from_rational(2, 100), Rate::saturating_from_rational(10, 100), Rate::saturating_from_rational(32, 100), primitives::Ratio::from_percent(80)),
                    state: loans::MarketState::Pending,
                    supply_cap: u128::MAX / 2,
                    borrow_cap: u128::MAX / 2,
                    lend_token_id: l,
                };
                root(loans::Call::add_market { asset_id: *k, market: mk }).expect("market");
                if r.gen_ratio(9, 10) {
                    root(loans::Call::activate_market { asset_id: *k }).expect("active");
                    let _ = by(&acc(0), loans::Call::mint { asset_id: *k, mint_amount: 1 + log_uniform_u128(r, 45) });
                    // a better rate by a gift
                    if r.gen() {
                        mint(&<LoansAccount as sp_core::Get<AccountId>>::get(), *k, log_uniform_u128(r, 45));
                    }
                    lend.insert(l, *k);
                } else {
                    case.event("inactive market");
                }
            }
        }
        let rate = |l: CurrencyId| lend.get(&l).and_then(|u| Loans::exchange_rate_stored(*u).ok()).map(|x| x.into_inner());
        let all = [RELAY, Token(KSM), WRAPPED, LendToken(1), LendToken(2), LendToken(9), ForeignAsset(3)];
        for _ in 0..20 {
            let (a, b) = (*pick(r, &all), *pick(r, &all));
            let x = match r.gen_range(0..4) {
                0 => weird_u128(r),
                1 => r.gen_range(0..10),
                _ => log_uniform_u128(r, 80),
            };
            let dn = Rounding::Down;
            // to the underlying, over the wrapped currency, and back to a lend token: each step rounded down
            let under = |c: CurrencyId| if c.is_lend_token() { lend.get(&c).copied() } else { Some(c) };
            let want = (|| {
                let (ua, ub) = (under(a)?, under(b)?);
                let mut v = x;
                if a.is_lend_token() {
                    v = mul_div(v, rate(a)?, E18, &dn)?;
                }
                if ua != ub {
                    if ua != WRAPPED {
                        v = mul_div(v, E18, *price.get(&ua)?, &dn)?;
                    }
                    if ub != WRAPPED {
                        v = mul_div(v, *price.get(&ub)?, E18, &dn)?;
                    }
                }
                if b.is_lend_token() {
                    v = mul_div(v, E18, rate(b)?, &dn)?;
                }
                Some(v)
            })();
            let Some(got) = case.total("convert", || format!("{x} {a:?} to {b:?}"), || dry(|| <Runtime as currency::Config>::CurrencyConversion::convert(&A::new(x, a), b))) else { return };
            let g = got.as_ref().ok().map(|v| v.amount());
            let ok = g == want;
            if !case.check(ok && got.map_or(true, |v| v.currency() == b), "a conversion is not the amount at the market's and the oracle's rates, rounded down at each step", || format!("{x} {a:?} to {b:?}: got {g:?} want {want:?}; prices {price:?}, lend rates {:?} {:?}", rate(LendToken(1)), rate(LendToken(2)))) {
                return;
            }
            case.eval(2);
            case.event(match (a.is_lend_token(), b.is_lend_token(), want.is_some()) {
                (true, true, true) => "lend to lend",
                (true, false, true) => "from lend",
                (false, true, true) => "to lend",
                (_, _, true) => "plain",
                _ => "no conversion",
            });
            case.state_dbg(&(x, a, b, want));
        }
        let _ = VaultCurrencyPair { collateral: RELAY, wrapped: WRAPPED };
    })
}
pub fn run(m: &Mon) {
    m.rule("math: pairs of amounts of equal and different currencies and factors over the whole ranges, every operation compared with exact integers. moves: 10..60 mints, transfers, holds, releases and burns over five currencies and four accounts, all balances and supplies compared. convert: conversions between plain, wrapped and lend currencies with markets of various rates, missing or stale prices and unknown currencies, compared with exact steps. A state is a distinct operand tuple or ledger.");
    m.stream("math", 150_000, 20, math);
    m.stream("moves", 4000, 20, moves);
    m.stream("convert", 4000, 20, convert);
    for (e, n) in [("value", 100_000), ("no value", 50_000), ("mint ok", 500), ("transfer ok", 500), ("transfer refused", 500), ("lock ok", 500), ("unlock ok", 300), ("unlock refused", 300), ("burn ok", 300), ("burn refused", 300), ("lend to lend", 500), ("from lend", 1000), ("to lend", 1000), ("plain", 1000), ("no conversion", 500)] {
        m.require(e, n);
    }
}
