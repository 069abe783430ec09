//! O01: prices are the median of fresh values of authorized oracles, and conversions use them.
use mon::{rand::Rng, *};
use num_bigint::BigInt;
use oracle::OracleKey;
use rt::{runtime::*, world::*};
use sp_core::Get;
use sp_runtime::{FixedPointNumber, FixedU128};
use std::collections::{BTreeMap, BTreeSet};

fn key(i: u32) -> OracleKey {
    match i {
        0 => OracleKey::FeeEstimation,
        1 => OracleKey::ExchangeRate(RELAY),
        2 => OracleKey::ExchangeRate(NATIVE),
        n => OracleKey::ExchangeRate(CurrencyId::ForeignAsset(n)),
    }
}
fn curr(i: u32) -> CurrencyId {
    match i {
        0 => WRAPPED,
        1 => RELAY,
        2 => NATIVE,
        n => CurrencyId::ForeignAsset(n),
    }
}
fn median(mut v: Vec<u128>) -> Option<u128> {
    v.sort();
    let n = v.len();
    match n {
        0 => None,
        n if n % 2 == 1 => Some(v[n / 2]),
        n => Some((v[n / 2 - 1] + v[n / 2]) / 2),
    }
}
fn big(x: BigInt) -> Option<u128> {
    x.to_string().parse().ok()
}
fn history(case: &mut Case, r: &mut R) {
    let nk = r.gen_range(2..6u32);
    let no = r.gen_range(1..8u32);
    let delay = *pick(r, &[1_000u32, 60_000, 3_600_000, 0]);
    let c = Cfg { accounts: 2, oracle_max_delay: delay, ..Default::default() };
    let steps = r.gen_range(10..60);
    with_world(&c, || {
        let one = BigInt::from(10u64.pow(18));
        let mut auth: BTreeSet<u32> = BTreeSet::from([ORACLE]);
        let mut raw: BTreeMap<(u32, u32), (u64, u128)> = BTreeMap::new();
        let mut price: BTreeMap<u32, u128> = BTreeMap::new();
        // what somebody who only follows the announcements believes
        let mut told: BTreeMap<String, u128> = BTreeMap::new();
        let who = |r: &mut R| if r.gen_bool(0.3) { ORACLE } else { 3000 + r.gen_range(0..no) };
        for _ in 0..steps {
            match r.gen_range(0..10) {
                0..=1 => {
                    let o = who(r);
                    let as_root = r.gen_bool(0.8);
                    let origin = if as_root { Origin::root() } else { signed(&acc(if r.gen() { ORACLE } else { 0 })) };
                    let add = r.gen_bool(0.7);
                    let res = if add {
                        act(case, "insert_authorized_oracle", origin, oracle::Call::insert_authorized_oracle { account_id: acc(o), name: Default::default() })
                    } else {
                        act(case, "remove_authorized_oracle", origin, oracle::Call::remove_authorized_oracle { account_id: acc(o) })
                    };
                    let Some(res) = res else { return };
                    case.eq(res.is_ok(), as_root, "oracles can be appointed by anyone, or not by governance", || format!("{res:?}"));
                    if as_root {
                        if add { auth.insert(o); } else { auth.remove(&o); }
                    }
                }
                2..=6 => {
                    let o = if r.gen_bool(0.8) && !auth.is_empty() { *pick(r, &auth.iter().copied().collect::<Vec<_>>()) } else { who(r) };
                    let n = r.gen_range(1..4);
                    let vals: Vec<(u32, u128)> = (0..n).map(|_| (r.gen_range(0..nk), match r.gen_range(0..5) { 0 => 0, 1 => r.gen_range(1..1000), 2 => log_uniform_u128(r, 126), _ => r.gen_range(1..10u128.pow(22)) })).collect();
                    let Some(res) = act(case, "feed_values", signed(&acc(o)), oracle::Call::feed_values { values: vals.iter().map(|(k, v)| (key(*k), FixedU128::from_inner(*v))).collect() }) else { return };
                    if !case.eq(res.is_ok(), auth.contains(&o), "prices can be fed by others than the appointed oracles, or not by these", || format!("{o}: {res:?}, appointed {auth:?}")) { return }
                    if res.is_ok() {
                        for (k, v) in vals { raw.insert((k, o), (time_ms(), v)); }
                        case.event("feed");
                    } else {
                        case.event("feed refused");
                    }
                }
                _ => {
                    let dt = match r.gen_range(0..6) { 0 => delay as u64, 1 => delay as u64 + 1, 2 => delay as u64 / 2, 3 => 1, _ => r.gen_range(0..20_000) };
                    block_at(now() + 1, dt);
                    let t = time_ms();
                    case.log(|| format!("block at +{dt} = {t}"));
                    for k in 0..nk {
                        let fresh: Vec<u128> = raw.iter().filter(|((kk, _), (ts, _))| *kk == k && *ts + delay as u64 >= t).map(|(_, (_, v))| *v).collect();
                        let old = raw.iter().any(|((kk, _), (ts, _))| *kk == k && *ts + (delay as u64) < t);
                        case.event(match (fresh.len(), old) { (0, false) => "never fed", (0, true) => "all values expired", (_, true) => "some values expired", (n, _) if n % 2 == 0 => "even number of values", _ => "odd number of values" });
                        match median(fresh) {
                            Some(m) => { price.insert(k, m); }
                            None => { price.remove(&k); }
                        }
                    }
                    case.event("block");
                    for e in events() {
                        if let RuntimeEvent::Oracle(oracle::Event::AggregateUpdated { values }) = e {
                            for (k, v) in values {
                                match v {
                                    Some(v) => told.insert(format!("{k:?}"), v.into_inner()),
                                    None => told.remove(&format!("{k:?}")),
                                };
                                case.event("announced price");
                            }
                        }
                    }
                    let want: BTreeMap<String, u128> = price.iter().map(|(k, v)| (format!("{:?}", key(*k)), *v)).collect();
                    if !case.eq(&told, &want, "a change of prices was not announced as it was made", || format!("at {}", time_ms())) { return }
                }
            }
            for k in 0..nk {
                let g = Oracle::get_price(key(k)).ok().map(|x| x.into_inner());
                case.eval(1);
                if !case.eq(g, price.get(&k).copied(), "a price is not the median of the fresh values fed before this block", || format!("key {k} at {} delay {delay}: {:?}", time_ms(), raw.iter().filter(|x| x.0 .0 == k).collect::<Vec<_>>())) { return }
            }
            // conversions
            for _ in 0..3 {
                let (a, b) = (r.gen_range(0..nk.max(3)), r.gen_range(0..nk.max(3)));
                let x = match r.gen_range(0..4) { 0 => 0, 1 => weird_u128(r), _ => log_uniform_u128(r, 70) };
                let rate = |k: u32| price.get(&k).map(|p| BigInt::from(*p));
                let want: Option<u128> = {
                    let to_btc = |x: u128| if a == 0 { Some(x) } else {
                        let p = rate(a)?;
                        if x == 0 { return Some(0) }
                        if p == BigInt::from(0) { return None }
                        big(BigInt::from(x) * &one / p)
                    };
                    let from_btc = |x: u128| if b == 0 { Some(x) } else { big(BigInt::from(x) * rate(b)? / &one) };
                    if curr(a) == curr(b) { Some(x) } else { to_btc(x).and_then(from_btc) }
                };
                let amount = currency::Amount::<Runtime>::new(x, curr(a));
                let Some(g) = case.total("convert", || format!("{x} of {a} to {b}"), || <Oracle as traits::OracleApi<currency::Amount<Runtime>, CurrencyId>>::convert(&amount, curr(b))) else { return };
                let gv = g.as_ref().ok().map(|y| y.amount());
                if let Ok(y) = &g { case.eq(y.currency(), curr(b), "a conversion yields another currency", || format!("{a} to {b}")); }
                if !case.eq(gv, want, "a conversion is not the exact quotient of prices, rounded down", || format!("{x} of {:?} to {:?} with prices {price:?}: {:?}", curr(a), curr(b), g.as_ref().err())) { return }
                case.event(if want.is_some() { "conversion" } else { "conversion impossible" });
                case.eval(1);
            }
            case.state_dbg(&(&price, auth.len()));
        }
        case.sample(|| format!("delay {delay}, appointed {auth:?}, prices {price:?}"));
        let _ = <GetNativeCurrencyId as Get<CurrencyId>>::get();
    });
}
pub fn run(m: &Mon) {
    m.rule("histories: random appointments, feeds and blocks with time steps around the validity period; after every step every price is compared with the median of fresh values and conversions with exact arithmetic. A state is the set of prices.");
    m.stream("histories", 6000, 20, history);
    for (e, n) in [("feed", 1000), ("feed refused", 500), ("block", 1000), ("some values expired", 300), ("all values expired", 300), ("even number of values", 300), ("odd number of values", 300), ("announced price", 1000), ("conversion", 1000), ("conversion impossible", 300)] {
        m.require(e, n);
    }
}
