//! M01: paying transaction fees, directly or through a swap.
use frame_support::dispatch::{DispatchInfo, Pays, PostDispatchInfo};
use mon::{rand::Rng, *};
use pallet_transaction_payment::OnChargeTransaction;
use rt::{runtime::*, world::*};
use sp_runtime::traits::Dispatchable;
use std::collections::BTreeMap;

type M = MultiTransactionPayment;
fn diff(a: &Led, b: &Led) -> BTreeMap<(CurrencyId, AccountId), i128> {
    let mut d = BTreeMap::new();
    for k in a.keys().chain(b.keys()) {
        let t = |l: &Led| l.get(k).map(|x| (x.0 + x.1) as i128).unwrap_or(0);
        if t(a) != t(b) {
            d.insert(k.clone(), t(b) - t(a));
        }
    }
    d
}
type Led = BTreeMap<(CurrencyId, AccountId), (Balance, Balance)>;
fn show(d: &BTreeMap<(CurrencyId, AccountId), i128>) -> String {
    d.iter().map(|((c, a), x)| format!("{c:?} {} {x:+}", acc_name(a))).collect::<Vec<_>>().join(", ")
}

fn inner(r: &mut R) -> RuntimeCall {
    let c: RuntimeCall = match r.gen_range(0..4) {
        0 => frame_system::Call::remark { remark: bytes(r, 9) }.into(),
        1 => orml_tokens::Call::transfer { dest: acc(5), currency_id: *pick(r, &[RELAY, Token(KSM), NATIVE]), amount: log_uniform_u128(r, 50) }.into(),
        2 => escrow::Call::create_lock { amount: log_uniform_u128(r, 40), unlock_height: WEEKS * r.gen_range(0..9) }.into(),
        _ => orml_tokens::Call::set_balance { who: acc(4), currency_id: RELAY, new_free: 77, new_reserved: 0 }.into(),
    };
    c
}
fn wrap(r: &mut R, c: RuntimeCall, path: Vec<CurrencyId>, max: u128) -> RuntimeCall {
    let _ = r;
    multi_transaction_payment::Call::with_fee_swap_path { path, amount_in_max: max, call: Box::new(c) }.into()
}

fn history(case: &mut Case, r: &mut R) {
    let c = Cfg { accounts: 6, endowment: 1_000_000_000_000_000, ..Default::default() };
    with_world(&c, || {
        let all = [NATIVE, RELAY, Token(KSM), ForeignAsset(1), WRAPPED];
        let tok = [NATIVE, RELAY, Token(KSM), ForeignAsset(1)];
        mint(&acc(0), WRAPPED, 1000);
        let mut pairs = vec![];
        for i in 0..4 {
            for j in i + 1..4 {
                if r.gen_ratio(2, 3) {
                    root(dex_general::Call::create_pair { asset_0: tok[i], asset_1: tok[j], fee_rate: *pick(r, &[0u128, 30, 300]) }).expect("pair");
                    let (x, y) = (1000 + log_uniform_u128(r, 48), 1000 + log_uniform_u128(r, 48));
                    if by(&acc(0), dex_general::Call::add_liquidity { asset_0: tok[i], asset_1: tok[j], amount_0_desired: x, amount_1_desired: y, amount_0_min: 0, amount_1_min: 0, deadline: 1000 }).is_ok() {
                        pairs.push((tok[i], tok[j]));
                    }
                }
            }
        }
        // payers with and without the native currency, some of it locked
        for a in 1..4 {
            let x = *pick(r, &[0u128, 0, 1, 10_000, 1_000_000_000_000]);
            set_balance(&acc(a), NATIVE, x);
            if x > 1_000_000_000 && r.gen() {
                by(&acc(a), escrow::Call::create_lock { amount: x - r.gen_range(0..5), unlock_height: WEEKS * 5 }).expect("lock");
            }
        }
        let pot = Author::get();
        for _ in 0..r.gen_range(3..20) {
            if r.gen_ratio(1, 5) {
                next_block();
            }
            let a = r.gen_range(1..4u32);
            let who = acc(a);
            let inn = inner(r);
            let mut path: Vec<CurrencyId> = (0..r.gen_range(0..4)).map(|_| *pick(r, &all)).collect();
            if r.gen_ratio(7, 8) {
                path.push(NATIVE);
            }
            if path.len() < 3 && !pairs.is_empty() && r.gen_ratio(3, 4) {
                let (x, y) = *pick(r, &pairs);
                path = if y == NATIVE { vec![x, y] } else if x == NATIVE { vec![y, x] } else { vec![x, y, NATIVE] };
            }
            if r.gen_ratio(1, 2) {
                path.dedup();
            }
            let fee = if r.gen_ratio(1, 10) { 0 } else { log_uniform_u128(r, 40) };
            let tip = if r.gen_ratio(1, 3) { r.gen_range(0..=fee) } else { 0 };
            let led0 = ledger();
            let get = |c: CurrencyId| led0.get(&(c, who.clone())).map(|x| x.0).unwrap_or(0);
            // what the swap would take, on a rolled-back copy
            let quote = DexGeneral::get_amount_in_by_path(fee, &path).ok().map(|v| v[0]);
            let swapped = quote.filter(|q| *q <= get(path[0])).and_then(|_| {
                dry(|| {
                    let e = by(&who, dex_general::Call::swap_assets_for_exact_assets { amount_out: fee, amount_in_max: u128::MAX, path: path.clone(), recipient: who.clone(), deadline: u32::MAX });
                    e.ok().map(|_| diff(&led0, &ledger()))
                })
            });
            let max = match (r.gen_range(0..6), quote) {
                (0, Some(q)) => q.saturating_sub(1),
                (1, _) => log_uniform_u128(r, 60),
                (2, _) => u128::MAX,
                (_, Some(q)) => q,
                _ => u128::MAX,
            };
            let mode = r.gen_range(0..4);
            let call = match mode {
                // plain, wrapped, wrapped twice with another path inside, wrapped inside a plain wrapper
                0 => inn.clone(),
                1 | 2 => wrap(r, inn.clone(), path.clone(), max),
                _ => {
                    let i = wrap(r, inn.clone(), vec![RELAY, NATIVE], u128::MAX);
                    wrap(r, i, path.clone(), max)
                }
            };
            let lock = orml_tokens::Locks::<Runtime>::get(&who, NATIVE).iter().map(|l| l.amount).max().unwrap_or(0);
            let info = DispatchInfo::default();
            let took = case.total("withdraw_fee", || format!("{call:?} {fee}"), || {
                use sp_runtime::{DispatchError, TransactionOutcome};
                // as the executive does: what fails here leaves nothing behind
                frame_support::storage::with_transaction(|| {
                    let r = <M as OnChargeTransaction<Runtime>>::withdraw_fee(&who, &call, &info, fee, tip);
                    match r {
                        Ok(x) => TransactionOutcome::Commit(Ok::<_, DispatchError>(Some(x))),
                        Err(_) => TransactionOutcome::Rollback(Ok(None)),
                    }
                })
                .unwrap()
            });
            let Some(took) = took else { return };
            let led1 = ledger();
            let plain_ok = get(NATIVE) >= lock && get(NATIVE) - lock >= fee;
            let good = fee == 0
                || if mode == 0 { plain_ok } else { path.last() == Some(&NATIVE) && swapped.is_some() && quote.map_or(false, |q| q <= max) };
            let shown = || format!("{} pays {fee} (tip {tip}) by {path:?} at most {max}, quote {quote:?}, native {} locked {lock}, mode {mode}", a, get(NATIVE));
            case.log(|| format!("[{}] {} -> {}", now(), shown(), took.is_some()));
            if !case.check(took.is_some() == good, if good { "a transaction whose fee can be paid was refused" } else { "a transaction was let through though its fee cannot be paid as asked" }, shown) {
                return;
            }
            let how = if mode == 0 { "plain" } else { "swap" };
            case.event(&format!("{how} {}", if good { "ok" } else { "refused" }));
            let Some(liq) = took else {
                if !case.check(led1 == led0, "a refused transaction took something", shown) {
                    return;
                }
                continue;
            };
            let mut want: BTreeMap<(CurrencyId, AccountId), i128> = if fee > 0 && mode > 0 { swapped.clone().unwrap() } else { Default::default() };
            let e = want.entry((NATIVE, who.clone())).or_default();
            *e -= fee as i128;
            want.retain(|_, x| *x != 0);
            let got = diff(&led0, &led1);
            if !case.check(got == want, "the fee taken is not the fee due, or the swap for it is not one for exactly the fee", || format!("{}: {} want {}", shown(), show(&got), show(&want))) {
                return;
            }
            if mode > 0 && fee > 0 {
                let paid = get(path[0]) - free(path[0], &who);
                if path[0] != NATIVE && !case.check(paid <= max, "a fee swap cost more than the payer allowed", || format!("{}: {paid}", shown())) {
                    return;
                }
                case.event("swapped for a fee");
                if path.len() > 2 {
                    case.event("swapped over several pairs");
                }
            }
            // dispatch: the wrapper adds nothing to what the call does
            let led1 = ledger();
            let as_call = if mode == 0 { wrap(r, inn.clone(), path.clone(), max) } else { call.clone() };
            let o = if r.gen_ratio(1, 6) { Origin::root() } else { signed(&who) };
            let (ra, la) = dry(|| (inn.clone().dispatch(o.clone()).map(|_| ()).map_err(|e| e.error), ledger()));
            let Some((rb, lb)) = case.total("dispatch", || format!("{as_call:?}"), || dry(|| (as_call.clone().dispatch(o.clone()).map(|_| ()).map_err(|e| e.error), ledger()))) else { return };
            if !case.check(ra == rb && la == lb, "a call paid by a swap does not do what the call alone does", || format!("{inn:?}: {} {} and {} {}", err_name(&ra), show(&diff(&led1, &la)), err_name(&rb), show(&diff(&led1, &lb)))) {
                return;
            }
            case.event(if ra.is_ok() { "inner ok" } else { "inner refused" });
            // correction
            let corrected = if fee == 0 { 0 } else { r.gen_range(tip..=fee) };
            let post = PostDispatchInfo { actual_weight: None, pays_fee: Pays::Yes };
            let iss = issuance(NATIVE);
            let Some(res) = case.total("correct", || "".into(), || <M as OnChargeTransaction<Runtime>>::correct_and_deposit_fee(&who, &info, &post, corrected, tip, liq)) else { return };
            if !case.check(res.is_ok(), "a fee taken could not be settled", shown) {
                return;
            }
            let led2 = ledger();
            let mut want: BTreeMap<(CurrencyId, AccountId), i128> = Default::default();
            *want.entry((NATIVE, who.clone())).or_default() += (fee - corrected) as i128;
            *want.entry((NATIVE, pot.clone())).or_default() += corrected as i128;
            want.retain(|_, x| *x != 0);
            let got = diff(&led1, &led2);
            if !case.check(got == want, "what was not needed of a fee is not returned in the native currency, or the rest does not go to the authors", || format!("{}, due {corrected}: {} want {}", shown(), show(&got), show(&want))) {
                return;
            }
            let _ = iss;
            if !check_issuance(case) {
                return;
            }
            case.eval(6);
            case.state_dbg(&(fee, &path, mode, quote, corrected));
        }
        case.sample(|| format!("{} pairs", pairs.len()));
    })
}
pub fn run(m: &Mon) {
    m.rule("histories: random pairs and reserves; transactions by payers with and without (or with locked) native currency, paid plainly or through a swap path of 0..4 currencies, valid or not, with limits around the quote; before dispatch the fee taken is compared with a quote and a swap on a rolled-back copy, the wrapped call's effect with that of the call alone, and the settlement with the corrected fee. A state is a distinct payment.");
    m.stream("histories", 4000, 20, history);
    for (e, n) in [("plain ok", 500), ("plain refused", 500), ("swap ok", 1000), ("swap refused", 1000), ("swapped for a fee", 1000), ("swapped over several pairs", 200), ("inner ok", 1000), ("inner refused", 500)] {
        m.require(e, n);
    }
}
