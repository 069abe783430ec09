//! X02: routed swaps over pairs and stable pools, against the trades they are made of.
use crate::d_stable::*;
use dex_stable::Call as C;
use dex_swap_router::{Route, StablePath, StableSwapMode};
use mon::{rand::Rng, *};
use rt::{runtime::*, world::*};

type Rt = Route<u32, CurrencyId>;

fn any_coin(r: &mut R, nc: usize, ps: &Pools) -> CurrencyId {
    if r.gen_bool(0.15) { pick(r, &ps.values().map(|p| p.i.lp).collect::<Vec<_>>()).clone() } else { coin(r.gen_range(0..nc)) }
}
/// one trade on its own; what `to` is left with of the output, or nothing if it is refused
fn trade(who: &AccountId, to: &AccountId, x: u128, route: &Rt) -> Option<u128> {
    let soon = now() + 1;
    let (i, o) = match route {
        Route::General(p) => (*p.first()?, *p.last()?),
        Route::Stable(s) => (s.from_currency, s.to_currency),
    };
    let b0 = free(o, to);
    let idx = |pid: u32, c: CurrencyId| pool(pid).and_then(|p| p.i.cur.iter().position(|k| *k == c));
    match route {
        Route::General(p) => by(who, dex_general::Call::swap_exact_assets_for_assets { amount_in: x, amount_out_min: 0, path: p.clone(), recipient: to.clone().into(), deadline: soon }).ok()?,
        Route::Stable(s) => match s.mode {
            StableSwapMode::Single => by(who, C::swap { pool_id: s.pool_id, from_index: idx(s.pool_id, i)? as u32, to_index: idx(s.pool_id, o)? as u32, in_amount: x, min_out_amount: 0, to: to.clone(), deadline: soon }).ok()?,
            StableSwapMode::FromBase => by(who, C::swap_pool_from_base { pool_id: s.pool_id, base_pool_id: s.base_pool_id, in_index: idx(s.base_pool_id, i)? as u32, out_index: idx(s.pool_id, o)? as u32, dx: x, min_dy: 0, to: to.clone(), deadline: soon }).ok()?,
            StableSwapMode::ToBase => by(who, C::swap_pool_to_base { pool_id: s.pool_id, base_pool_id: s.base_pool_id, in_index: idx(s.pool_id, i)? as u32, out_index: idx(s.base_pool_id, o)? as u32, dx: x, min_dy: 0, to: to.clone(), deadline: soon }).ok()?,
        },
    }
    let paid_back = if who == to && i == o { x } else { 0 };
    (free(o, to) + paid_back).checked_sub(b0)
}
fn ends(r: &Rt) -> Option<(CurrencyId, CurrencyId)> {
    match r {
        Route::General(p) => Some((*p.first()?, *p.last()?)),
        Route::Stable(s) => Some((s.from_currency, s.to_currency)),
    }
}
fn route(r: &mut R, nc: usize, ps: &Pools, from: CurrencyId) -> Rt {
    if r.gen_bool(0.4) {
        let n = if r.gen_bool(0.03) { r.gen_range(0..2) } else { r.gen_range(2..4) };
        let mut p = vec![];
        for k in 0..n {
            let mut c = if k == 0 { from } else { any_coin(r, nc, ps) };
            while p.last() == Some(&c) && r.gen_bool(0.95) { c = any_coin(r, nc, ps) }
            p.push(c);
        }
        return Route::General(p);
    }
    // a pool that knows the currency, mostly
    let mode = match r.gen_range(0..4) { 0 => StableSwapMode::FromBase, 1 => StableSwapMode::ToBase, _ => StableSwapMode::Single };
    let metas: Vec<u32> = ps.iter().filter(|(_, p)| p.meta.is_some()).map(|(i, _)| *i).collect();
    let mut pool_id = r.gen_range(0..ps.len() as u32);
    if mode != StableSwapMode::Single && !metas.is_empty() { pool_id = *pick(r, &metas) }
    if mode == StableSwapMode::Single {
        let known: Vec<u32> = ps.iter().filter(|(_, p)| p.i.cur.contains(&from)).map(|(i, _)| *i).collect();
        if !known.is_empty() { pool_id = *pick(r, &known) }
    }
    let base_pool_id = match &ps[&pool_id].meta { Some(m) if r.gen_bool(0.97) => m.0, _ => r.gen_range(0..ps.len() as u32) };
    let (src, dst) = match mode { StableSwapMode::Single => (pool_id, pool_id), StableSwapMode::FromBase => (base_pool_id, pool_id), StableSwapMode::ToBase => (pool_id, base_pool_id) };
    let from_currency = if ps[&src].i.cur.contains(&from) || r.gen_bool(0.3) { from } else { *pick(r, &ps[&src].i.cur) };
    let mut to_currency = if r.gen_bool(0.97) { *pick(r, &ps[&dst].i.cur) } else { any_coin(r, nc, ps) };
    if to_currency == from_currency { to_currency = *pick(r, &ps[&dst].i.cur) }
    Route::Stable(StablePath { pool_id, base_pool_id, mode, from_currency, to_currency })
}
/// pairs of the same currencies and of pool shares
pub fn pairs(case: &mut Case, r: &mut R, s: &Setup, gaps: f64) {
    let ps = pools();
    let all: Vec<CurrencyId> = (0..s.nc).map(coin).chain(ps.values().map(|p| p.i.lp)).collect();
    for a in 0..all.len() {
        for b in 0..a {
            if r.gen_bool(gaps) { continue }
            let fee = *pick(r, &[0u128, 30]);
            if root(dex_general::Call::create_pair { asset_0: all[a], asset_1: all[b], fee_rate: fee }).is_err() { continue }
            let (x, y) = (free(all[a], &acc(0)) / 20, free(all[b], &acc(0)) / 20);
            let res = by(&acc(0), dex_general::Call::add_liquidity { asset_0: all[a], asset_1: all[b], amount_0_desired: x, amount_1_desired: y, amount_0_min: 0, amount_1_min: 0, deadline: 100 });
            case.log(|| format!("pair {:?} {:?} {x} {y}: {res:?}", all[a], all[b]));
        }
    }
}
fn history(case: &mut Case, r: &mut R) {
    let steps = r.gen_range(10..30);
    let bits = *pick(r, &[30u32, 40]);
    with_world(&Cfg { accounts: 0, ..Default::default() }, || {
        let Some(s) = setup(case, r, bits) else { return };
        pairs(case, r, &s, 0.4);
        for _ in 0..steps {
            let ps = pools();
            let (who, to) = (acc(r.gen_range(0..s.nu)), acc(r.gen_range(0..s.nu + 1)));
            let late = r.gen_bool(0.05);
            let dl = if late { now() } else { now() + r.gen_range(1..5) };
            let n = match r.gen_range(0..10) { 0..=3 => 1, 4..=6 => 2, 7..=8 => 3, _ => r.gen_range(0..5) };
            let mut routes: Vec<Rt> = vec![];
            let mut c = any_coin(r, s.nc, &ps);
            // sometimes a gap between two trades, of which the user could pay both
            let gap = if n > 1 && r.gen_bool(0.2) { r.gen_range(1..n) } else { n };
            for k in 0..n {
                if k == gap { c = any_coin(r, s.nc, &ps) }
                let mut x = route(r, s.nc, &ps, c);
                // mostly continue where the last trade ended, and only with trades that are possible
                for _ in 0..8 {
                    if ends(&x).map(|e| e.0 == c).unwrap_or(false) { break }
                    x = route(r, s.nc, &ps, c);
                }
                if let Some(e) = ends(&x) { c = e.1 }
                routes.push(x);
            }
            let first = routes.first().and_then(ends).map(|e| e.0).unwrap_or(NATIVE);
            let have = free(first, &who);
            let x = match r.gen_range(0..8) { 0 => 0, 1 => have, 2 => have.saturating_add(1), 3 => r.gen(), _ => { let b = (128 - have.leading_zeros()).max(1); log_uniform_u128(r, b) } };
            let linked = routes.windows(2).all(|w| matches!((ends(&w[0]), ends(&w[1])), (Some(a), Some(b)) if a.1 == b.0));
            // the same trades one after the other
            let trial = dry(|| {
                let mut y = x;
                for (k, t) in routes.iter().enumerate() {
                    let dest = if k + 1 == routes.len() { &to } else { &who };
                    y = trade(&who, dest, y, t)?;
                }
                Some((y, ledger(), pools()))
            });
            let out = trial.as_ref().map(|t| t.0);
            let min = match (out, r.gen_range(0..4)) { (Some(y), 0) => y, (Some(y), 1) => y + 1, (None, 0) => 1, _ => 0 };
            let what = format!("swap of {x} (of {have}) along {routes:?} min {min} by {} to {} late {late}, trades give {out:?}", acc_name(&who), acc_name(&to));
            let l0 = ledger();
            let Some(res) = act(case, "swap_exact_tokens_for_tokens", signed(&who), dex_swap_router::Call::swap_exact_tokens_for_tokens { amount_in: x, amount_out_min: min, routes: routes.clone(), to: to.clone(), deadline: dl }) else { return };
            case.eval(1);
            let (l1, p1) = (ledger(), pools());
            if res.is_err() {
                if !case.check(l0 == l1 && ps == p1, "a refused routed swap changes something", || what.clone()) { return }
                let fine = linked && !late && !routes.is_empty() && out.map(|y| y >= min).unwrap_or(false);
                if !case.check(!fine, "a routed swap is refused though every trade is possible", || format!("{what}: {res:?}")) { return }
                case.event("refused");
                if !linked && out.map(|y| y >= min).unwrap_or(false) && !late { case.event("refused for a gap only") }
                if linked && !late && out.is_some() { case.event("refused for the minimum") }
            } else if routes.is_empty() {
                if !case.check(l0 == l1 && ps == p1, "a swap along no route moves funds", || what.clone()) { return }
            } else {
                if !case.check(linked && !late, "a routed swap is accepted after its deadline or along a broken route", || what.clone()) { return }
                let Some((y, l, p)) = trial else { case.violate("a routed swap is accepted though a trade is not possible", what); return };
                if !case.check(y >= min, "a routed swap pays less than the user's minimum", || what.clone()) { return }
                // outside of the exchanges: paid by one, received by the other, and nothing else
                let last = ends(routes.last().unwrap()).unwrap().1;
                let d = diff(&l0, &l1);
                for ((c, a), v) in &d {
                    if (0..s.nu + 1).any(|u| acc(u) == *a) {
                        let want = (if *a == who && *c == first { -(x as i128) } else { 0 }) + (if *a == to && *c == last { y as i128 } else { 0 });
                        if !case.eq(*v, want, "a routed swap leaves a user with other than what was paid and bought", || format!("{what}: {} {c:?}", acc_name(a))) { return }
                    }
                }
                if !case.check(l == l1 && p == p1, "a routed swap does not do what its trades do", || format!("{what}: {:?} instead of {:?}", diff(&l0, &l1), diff(&l0, &l))) { return }
                case.event("routed swap");
                if routes.len() > 1 { case.event("several routes") }
                for t in &routes {
                    case.event(match t { Route::General(_) => "over pairs", Route::Stable(s) => match s.mode { StableSwapMode::Single => "within a pool", StableSwapMode::FromBase => "from a base pool", StableSwapMode::ToBase => "to a base pool" } });
                }
                if !keep(case, &ps, &p1, &what) { return }
                case.state_dbg(&(p1.values().map(|p| p.i.bal.clone()).collect::<Vec<_>>(), y));
            }
            if r.gen_bool(0.2) { next_block() }
        }
    })
}
pub fn run(m: &Mon) {
    m.rule("histories: random pairs and stable pools over the same currencies, then routed swaps along random routes of up to four trades (pairs, pools, from and to base pools), mostly continuous, some broken, late or short of the minimum. A routed swap must be accepted and move exactly what its trades, made one after the other in a trial, are accepted for and move. A state is the books of the pools and the output of a swap.");
    m.stream("histories", 5000, 20, history);
    for (e, n) in [("routed swap", 1000), ("several routes", 300), ("over pairs", 300), ("within a pool", 300), ("from a base pool", 50), ("to a base pool", 50), ("refused", 500), ("refused for the minimum", 100), ("refused for a gap only", 100)] {
        m.require(e, n);
    }
}
