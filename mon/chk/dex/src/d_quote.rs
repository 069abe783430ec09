//! D03: what the exchanges quote, against the trades themselves in a trial.
use crate::{d_math::SH, d_router::pairs, d_stable::*};
use dex_general::{Call as G, Pallet as Dex, PairStatus};
use dex_stable::{traits::StableAmmApi, Call as C, Pallet as Stable};
use mon::{rand::Rng, *};
use rt::{runtime::*, world::*};
use sp_runtime::DispatchError;

type D = Dex<Runtime>;
type S = Stable<Runtime>;
const RICH: u128 = 1 << 120;

fn trader() -> AccountId {
    acc(300)
}
fn other() -> AccountId {
    acc(301)
}
/// an amount against a reserve
fn some(r: &mut R, of: u128) -> u128 {
    match r.gen_range(0..8) {
        0 => 0,
        1 => 1,
        2 => of,
        3 => of / 2,
        4 => of.saturating_mul(3),
        _ => {
            let b = (128 - of.leading_zeros()).max(1);
            log_uniform_u128(r, b)
        }
    }
}
/// lets `trader` have enough of `c`; pool shares are not made from nothing, but taken over
fn fund(c: CurrencyId) -> u128 {
    match c {
        CurrencyId::StableLpToken(_) | CurrencyId::LpToken(..) => {
            let x = free(c, &acc(0));
            <Tokens as orml_traits::MultiCurrency<AccountId>>::transfer(c, &acc(0), &trader(), x).expect("transfer");
        }
        _ => mint(&trader(), c, RICH),
    }
    free(c, &trader())
}
/// what a trial costs `trader` of `p` and gives `other` of `c`; nothing if it is refused, and
/// whether that may be for want of funds
fn trial(p: CurrencyId, c: CurrencyId, f: impl FnOnce() -> Result<(), DispatchError>) -> Result<(u128, u128), bool> {
    dry(|| {
        let had = fund(p);
        f().map(|_| (had - free(p, &trader()), free(c, &other()))).map_err(|_| had < RICH)
    })
}
fn path_of(r: &mut R, all: &[CurrencyId]) -> Vec<CurrencyId> {
    let n = if r.gen_bool(0.03) { r.gen_range(0..2) } else { r.gen_range(2..5) };
    let mut p: Vec<CurrencyId> = vec![];
    for k in 0..n {
        let mut c = *pick(r, all);
        // mostly along pairs there are
        for _ in 0..10 {
            if k == 0 || (c != p[k - 1] && trading(p[k - 1], c)) { break }
            c = *pick(r, all);
        }
        p.push(c);
    }
    p
}
fn trading(a: CurrencyId, b: CurrencyId) -> bool {
    let k = if a < b { (a, b) } else { (b, a) };
    matches!(D::pair_status(k), PairStatus::Trading(_))
}
fn pair_quotes(case: &mut Case, r: &mut R, all: &[CurrencyId], fees: bool) -> bool {
    let dl = now() + 1;
    let p = path_of(r, all);
    let hops: Vec<_> = p.windows(2).map(|w| if w[0] < w[1] { (w[0], w[1]) } else { (w[1], w[0]) }).collect();
    let twice = (0..hops.len()).any(|i| hops[..i].contains(&hops[i]));
    let res = |a: CurrencyId, b: CurrencyId| free(a, &D::pair_account_id(a, b));
    if p.len() < 2 || !twice {
        let top = if p.len() > 1 { res(p[0], p[1]) } else { 5 };
        let x = some(r, top);
        let Some(q) = case.total("a quote", || format!("out {x} {p:?}"), || D::supply_out_amount(x, p.clone())) else { return false };
        let t = if p.len() < 2 { Err(false) } else { trial(p[0], *p.last().unwrap(), || by(&trader(), G::swap_exact_assets_for_assets { amount_in: x, amount_out_min: 0, path: p.clone(), recipient: other().into(), deadline: dl })) };
        case.event(if t.is_ok() { "sale quoted" } else { "sale not possible" });
        if p.len() > 2 && t.is_ok() { case.event("path quoted") }
        if t != Err(true) && !case.eq(q, t.map(|t| t.1).unwrap_or(0), "a sale gives other than was quoted", || format!("{x} along {p:?}: trial {t:?}")) { return false }
        let top = if p.len() > 1 { res(p[p.len() - 1], p[p.len() - 2]) } else { 5 };
        let y = some(r, top);
        let Some(q) = case.total("a quote", || format!("in {y} {p:?}"), || D::desired_in_amount(y, p.clone())) else { return false };
        let t = if p.len() < 2 { Err(false) } else { trial(p[0], *p.last().unwrap(), || by(&trader(), G::swap_assets_for_exact_assets { amount_out: y, amount_in_max: RICH, path: p.clone(), recipient: other().into(), deadline: dl })) };
        case.event(if t.is_ok() { "purchase quoted" } else { "purchase not possible" });
        if q <= RICH && t != Err(true) && !case.eq(q, t.map(|t| t.0).unwrap_or(0), "a purchase costs other than was quoted", || format!("{y} along {p:?}: trial {t:?}")) { return false }
        if let Ok(t) = t {
            if !case.eq(t.1, y, "a purchase of an exact amount gives another", || format!("{y} along {p:?}")) { return false }
        }
    }
    // one pair
    let (a, b) = (*pick(r, all), *pick(r, all));
    if a == b { return true }
    let live = trading(a, b);
    let acc_ = D::pair_account_id(a, b);
    let (ra, rb) = (free(a, &acc_), free(b, &acc_));
    let info = D::get_pair_by_asset_id(a, b);
    let lp = if a < b { CurrencyId::join_lp_token(a, b) } else { CurrencyId::join_lp_token(b, a) };
    case.eval(1);
    let got = info.map(|i| (i.asset_0, i.asset_1, i.account, i.total_liquidity, i.reserve_0, i.reserve_1, Some(i.lp_asset_id), i.status));
    let want = live.then(|| (a, b, acc_.clone(), issuance(lp.unwrap()), ra, rb, lp, 0));
    if !case.eq(got, want, "a pair is described other than it is", || format!("{a:?} {b:?}")) { return false }
    let Some(lp) = lp else { return true };
    // shares for liquidity
    let (x, y) = (some(r, ra.max(1000)), some(r, rb.max(1000)));
    let (mx, my) = if r.gen_bool(0.7) { (0, 0) } else { (r.gen_range(0..=x), r.gen_range(0..=y)) };
    let ctx = || format!("{x} {a:?} and {y} {b:?} (at least {mx} {my}) to {ra} {rb}, {} shares, fees {fees}", issuance(lp));
    let Some(q) = case.total("a quote", ctx, || D::get_estimate_lptoken(a, b, x, y, mx, my)) else { return false };
    let t = dry(|| {
        let short = fund(a).min(fund(b)) < RICH;
        let t = by(&trader(), G::add_liquidity { asset_0: a, asset_1: b, amount_0_desired: x, amount_1_desired: y, amount_0_min: mx, amount_1_min: my, deadline: dl }).map(|_| free(lp, &trader()));
        if short && t.is_err() { None } else { Some(t.ok()) }
    });
    let Some(t) = t else { return true };
    case.event(if t.is_some() { "liquidity quoted" } else { "liquidity not possible" });
    // the protocol's share is minted first, which dilutes everyone alike
    let ok = if fees { t.unwrap_or(0) >= q && (t.is_some() == (q > 0) || q == 0) } else { t.unwrap_or(0) == q };
    if !case.check(ok, "liquidity gives other shares than were quoted", || format!("{}: quoted {q}, got {t:?}", ctx())) { return false }
    // amounts for shares
    let have = free(lp, &acc(0));
    let x = some(r, have);
    let Some(q) = case.total("a quote", || format!("{x} shares of {a:?} {b:?}"), || D::calculate_remove_liquidity(a, b, x)) else { return false };
    let t = dry(|| by(&acc(0), G::remove_liquidity { asset_0: a, asset_1: b, liquidity: x, amount_0_min: 0, amount_1_min: 0, recipient: other().into(), deadline: dl }).ok().map(|_| (free(a, &other()), free(b, &other()))));
    if let Some(t) = t {
        case.event("shares quoted");
        let q = q.unwrap_or((0, 0));
        let ok = if fees { t.0 <= q.0 && t.1 <= q.1 } else { t == q };
        if !case.check(ok, "shares give other amounts than were quoted", || format!("{x} of {} shares of {a:?} {b:?} ({ra}, {rb}), fees {fees}: quoted {q:?}, got {t:?}", issuance(lp))) { return false }
    }
    true
}
fn pool_quotes(case: &mut Case, r: &mut R, ps: &Pools) -> bool {
    let id = r.gen_range(0..ps.len() as u32 + 1);
    let soon = now() + 1;
    let idx = |r: &mut R, n: usize| if r.gen_bool(0.06) { r.gen_range(0..8) } else { r.gen_range(0..n.max(1) as u32) };
    // descriptions
    let p = ps.get(&id);
    let n = p.map(|p| p.n()).unwrap_or(0);
    case.eval(1);
    let want = p.map(|p| (p.i.cur.clone(), p.i.mult.clone(), p.i.bal.clone())).unwrap_or_default();
    if !case.eq((S::get_currencies(id), S::get_currency_precision_multipliers(id), S::get_currency_balances(id)), want, "a pool is described other than it is", || format!("pool {id}")) { return false }
    if !case.eq((S::get_number_of_currencies(id), S::get_lp_currency(id)), (n as u32, p.map(|p| p.i.lp)), "a pool is described other than it is", || format!("pool {id}")) { return false }
    let amp = p.map(|p| p.amp()).unwrap_or(0);
    if !case.eq((S::get_a_precise_by_id(id), S::get_a(id)), (amp, amp / 100), "a pool's amplification is answered wrongly", || format!("pool {id}")) { return false }
    let owed: Vec<u128> = p.map(|p| (0..n).map(|j| free(p.i.cur[j], &p.i.account) - p.i.bal[j]).collect()).unwrap_or_default();
    if !case.eq(S::get_admin_balances(id), owed.clone(), "fees set aside are answered wrongly", || format!("pool {id}")) { return false }
    for k in [0, r.gen_range(0..8), n as u32] {
        let want = p.and_then(|p| p.i.cur.get(k as usize).copied());
        let Some(got) = case.total("a quote", || format!("currency {k} of pool {id}"), || S::get_currency(id, k)) else { return false };
        if !case.eq(got, want, "a pool's currency is answered wrongly", || format!("{k} of pool {id}")) { return false }
    }
    let c = coin(r.gen_range(0..8));
    if !case.eq(S::get_currency_index(id, c), p.and_then(|p| p.i.cur.iter().position(|x| *x == c)).map(|x| x as u32), "a currency's index is answered wrongly", || format!("{c:?} in pool {id}")) { return false }
    let Some(p) = p else { return true };
    // all shares against the virtual price: redeeming everything must be worth about that; judged in X01
    if let Some((d, _)) = worth_now(ps, id) {
        let got = S::get_virtual_price(id);
        let want: u128 = if p.supply == 0 { 0 } else { (d * 1_000_000_000_000_000_000u128 / p.supply >> SH).to_string().parse().unwrap_or(u128::MAX) };
        if sane(ps, p) && !case.check(got.abs_diff(want) <= want / 100_000 + 10_u128.pow(20) / p.supply.max(1) + 10, "the price of pool shares is answered wrongly", || format!("pool {id}: {got}, want {want}, {p:?}")) { return false }
        case.event("price of shares");
    }
    if owed.iter().any(|x| *x > 0) {
        let t = dry(|| by(&acc(5), C::withdraw_admin_fee { pool_id: id }).map(|_| (0..n).map(|j| free(p.i.cur[j], &p.i.account) - p.i.bal[j]).sum::<u128>()));
        if !case.check(t == Ok(0), "fees set aside are not paid in full", || format!("pool {id}: {owed:?}, left {t:?}")) { return false }
        case.event("fees set aside");
    }
    let kind = |case: &mut Case, s: &str| case.event(&format!("{s}{}", if p.meta.is_some() { " over shares" } else { "" }));
    // swaps
    let (i, j) = (idx(r, n), idx(r, n));
    let top = p.i.bal.get(i as usize).copied().unwrap_or(9);
    let x = some(r, top);
    let ctx = || format!("pool {id} {i}->{j} {x}: {p:?}");
    let Some(q) = case.total("a quote", ctx, || S::stable_amm_calculate_swap_amount(id, i as usize, j as usize, x)) else { return false };
    let t = match (p.i.cur.get(i as usize), p.i.cur.get(j as usize)) {
        (Some(a), Some(b)) => trial(*a, *b, || by(&trader(), C::swap { pool_id: id, from_index: i, to_index: j, in_amount: x, min_out_amount: 0, to: other(), deadline: soon })),
        _ => Err(false),
    };
    if let Ok(t) = t {
        kind(case, "swap quoted");
        // the quote of a pool without shares of another may be two units too careful
        let g = q.unwrap_or(0);
        let ok = if p.meta.is_some() { g == t.1 } else { g <= t.1 && t.1 <= g + 2 };
        if !case.check(ok, "a swap gives other than was quoted", || format!("quoted {g}, got {t:?}: {}", ctx())) { return false }
    } else if !case.check(q.unwrap_or(0) == 0 || t == Err(true), "a swap that is not possible is quoted", || format!("{}: {q:?}", ctx())) {
        return false;
    }
    // withdrawal in proportion
    let have = free(p.i.lp, &acc(0));
    let x = some(r, have);
    let Some(q) = case.total("a quote", || format!("{x} shares of pool {id}"), || S::stable_amm_calculate_remove_liquidity(id, x)) else { return false };
    let t = dry(|| by(&acc(0), C::remove_liquidity { pool_id: id, lp_amount: x, min_amounts: vec![0; n], to: other(), deadline: soon }).ok().map(|_| (0..n).map(|j| free(p.i.cur[j], &other())).collect::<Vec<_>>()));
    if let Some(t) = t {
        kind(case, "withdrawal quoted");
        if !case.eq(q, Some(t), "a withdrawal gives other than was quoted", || format!("{x} shares of pool {id} {p:?}")) { return false }
    }
    // in one currency
    let j = idx(r, n);
    let x = some(r, have);
    let Some(q) = case.total("a quote", || format!("{x} shares of pool {id} in {j}"), || S::stable_amm_calculate_remove_liquidity_one_currency(id, x, j)) else { return false };
    let t = p.i.cur.get(j as usize).and_then(|c| dry(|| by(&acc(0), C::remove_liquidity_one_currency { pool_id: id, lp_amount: x, index: j, min_amount: 0, to: other(), deadline: soon }).ok().map(|_| free(*c, &other()))));
    if let Some(t) = t {
        kind(case, "withdrawal of one quoted");
        if !case.eq(q, Some(t), "a withdrawal of one currency gives other than was quoted", || format!("{x} shares of pool {id} in {j} {p:?}")) { return false }
    }
    // deposits and withdrawals of amounts: an estimate without fees
    let m = if r.gen_bool(0.04) { r.gen_range(0..8) } else { n };
    let am: Vec<u128> = (0..m).map(|k| { let b = p.i.bal.get(k).copied().unwrap_or(3); some(r, b / 2) }).collect();
    let ctx = |q: &dyn std::fmt::Debug, t: &dyn std::fmt::Debug| format!("pool {id} {am:?}: quoted {q:?}, trial {t:?} {p:?}");
    let Some(q) = case.total("a quote", || format!("shares for {am:?} pool {id}"), || S::stable_amm_calculate_currency_amount(id, &am, true)) else { return false };
    let t = dry(|| {
        for c in &p.i.cur { fund(*c); }
        let b = free(p.i.lp, &other());
        by(&trader(), C::add_liquidity { pool_id: id, amounts: am.clone(), min_mint_amount: 0, to: other(), deadline: soon }).ok().map(|_| free(p.i.lp, &other()) - b)
    });
    if let Some(t) = t {
        kind(case, "deposit estimated");
        let Ok(q) = q else { return case.check(false, "a possible deposit is not estimated", || ctx(&q, &t)) };
        let ok = if p.i.fee == 0 { q.abs_diff(t) <= 1 + t / 1_000_000_000 } else { t <= q.saturating_add(1 + q / 1_000_000_000) && t >= q - q / 50 };
        if sane(ps, p) && !case.check(ok, "a deposit gives shares far from the estimate", || ctx(&q, &t)) { return false }
    }
    let Some(q) = case.total("a quote", || format!("shares of {am:?} pool {id}"), || S::stable_amm_calculate_currency_amount(id, &am, false)) else { return false };
    let t = dry(|| {
        if p.supply == 0 { return None }
        by(&acc(0), C::remove_liquidity_imbalance { pool_id: id, amounts: am.clone(), max_burn_amount: u128::MAX, to: other(), deadline: soon }).ok().map(|_| have - free(p.i.lp, &acc(0)))
    });
    if let Some(t) = t {
        kind(case, "withdrawal estimated");
        let Ok(q) = q else { return case.check(false, "a possible withdrawal is not estimated", || ctx(&q, &t)) };
        let ok = if p.i.fee == 0 { q.abs_diff(t) <= 2 + t / 1_000_000_000 } else { t + 2 + t / 1_000_000_000 >= q && t <= q + q / 50 + 2 };
        if sane(ps, p) && !case.check(ok, "a withdrawal takes shares far from the estimate", || ctx(&q, &t)) { return false }
    }
    true
}
/// something happens on the exchanges
fn turn(r: &mut R, s: &Setup, ps: &Pools, all: &[CurrencyId], fees: &mut bool) {
    let who = acc(r.gen_range(0..s.nu));
    let soon = now() + 1;
    let id = r.gen_range(0..ps.len() as u32);
    let p = &ps[&id];
    let n = p.n() as u32;
    match r.gen_range(0..12) {
        0..=2 => {
            let (i, j) = (r.gen_range(0..n), r.gen_range(0..n));
            let x = p.i.bal[i as usize] / r.gen_range(3..200);
            let _ = by(&who, C::swap { pool_id: id, from_index: i, to_index: j, in_amount: x.min(free(p.i.cur[i as usize], &who)), min_out_amount: 0, to: who.clone(), deadline: soon });
        }
        3 => {
            let d = r.gen_range(3..100);
            let am = (0..n as usize).map(|k| free(p.i.cur[k], &who).min(p.i.bal[k]) / d).collect();
            let _ = by(&who, C::add_liquidity { pool_id: id, amounts: am, min_mint_amount: 0, to: who.clone(), deadline: soon });
        }
        4 => {
            let x = free(p.i.lp, &who) / r.gen_range(3..100);
            let _ = by(&who, C::remove_liquidity_one_currency { pool_id: id, lp_amount: x, index: r.gen_range(0..n), min_amount: 0, to: who.clone(), deadline: soon });
        }
        5 => {
            let a = *pick(r, &[1u128, 50, 200, 2000]);
            let t = secs() + 86_400 * r.gen_range(14..30u128);
            let _ = root(C::ramp_a { pool_id: id, future_a: a, future_a_time: t });
        }
        6 => {
            let _ = root(C::set_swap_fee { pool_id: id, new_swap_fee: *pick(r, &[0, 4_000_000, 50_000_000]) });
        }
        7..=8 => {
            let path = path_of(r, all);
            if let Some(a) = path.first() {
                let x = free(*a, &who) / r.gen_range(2..100);
                let _ = by(&who, G::swap_exact_assets_for_assets { amount_in: x, amount_out_min: 0, path: path.clone(), recipient: who.clone().into(), deadline: soon });
            }
        }
        9 => {
            let on = r.gen_bool(0.4);
            // the growth so far is settled first only by liquidity operations
            *fees |= on;
            let _ = root(G::set_fee_receiver { send_to: if on { Some(acc(90).into()) } else { None } });
        }
        _ => {
            let dt = *pick(r, &[6_000u64, 12_000_000, 40_000_000, 86_400_000]);
            block_at(now() + 1, dt);
        }
    }
}
fn history(case: &mut Case, r: &mut R) {
    let steps = r.gen_range(10..40);
    let bits = *pick(r, &[20u32, 30, 40]);
    with_world(&Cfg { accounts: 0, ..Default::default() }, || {
        let Some(s) = setup(case, r, bits) else { return };
        let gaps = *pick(r, &[0.2, 0.6]);
        pairs(case, r, &s, gaps);
        let all: Vec<CurrencyId> = (0..s.nc).map(coin).chain(pools().values().map(|p| p.i.lp)).collect();
        let mut fees = false;
        for _ in 0..steps {
            let ps = pools();
            turn(r, &s, &ps, &all, &mut fees);
            let ps = pools();
            if !pair_quotes(case, r, &all, fees) || !pool_quotes(case, r, &ps) { return }
            case.state_dbg(&ps.values().map(|p| p.i.bal.clone()).collect::<Vec<_>>());
        }
    })
}
pub fn run(m: &Mon) {
    m.rule("histories: random pairs and stable pools, users trade, governance changes fees and ramps, time passes; after every step random quotes are asked for (sales and purchases along paths, liquidity, shares, swaps in pools) and the trades are made in a trial: the trade must give exactly the quote, an estimate that leaves out fees must be within them, and descriptions must be what is stored. A state is the books of the pools.");
    m.stream("histories", 3000, 20, history);
    for (e, n) in [("sale quoted", 1000), ("path quoted", 300), ("purchase quoted", 1000), ("liquidity quoted", 1000), ("shares quoted", 1000), ("swap quoted", 1000), ("swap quoted over shares", 300), ("withdrawal quoted", 300), ("withdrawal of one quoted over shares", 100), ("deposit estimated", 300), ("withdrawal estimated over shares", 50), ("price of shares", 1000), ("fees set aside", 100)] {
        m.require(e, n);
    }
}
