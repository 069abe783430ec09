//! A chain in use, and what happens between the questions.
use crate::{g_any::*, gen::*};
use mon::{rand::Rng, *};
use primitives::CurrencyId::*;
use rt::{btc, runtime::*, world::*};
use sp_runtime::FixedU128;

pub fn run(case: &mut Case, r: &mut R, ask: impl Fn(&mut Case, &mut R, &Pool)) {
    thread_local!(static CALLS: Calls = Calls::new());
    with_world(&cfg(), || {
        let Some(mut p) = case.total("setup", String::new, || rich(r)) else { return };
        let usable: Vec<usize> = CALLS.with(|c| (0..c.all.len()).filter(|i| { let c = &c.all[*i]; !["System", "Timestamp", "Preimage", "TxPause", "Democracy"].contains(&c.0.as_str()) && !privileged(&c.0, &c.2) }).collect());
        for _ in 0..r.gen_range(2..5) {
            for _ in 0..r.gen_range(3..14) {
                step(&mut p, r, &usable, |i, r, p| CALLS.with(|c| c.draw(i, r, p)));
            }
            refresh(&mut p, r, &acc(0));
            ask(case, r, &p);
            if case.failed() {
                return;
            }
        }
    })
}
fn step(p: &mut Pool, r: &mut R, usable: &[usize], draw: impl Fn(usize, &mut R, &Pool) -> Option<RuntimeCall>) {
    let who = acc(r.gen_range(0..10));
    match r.gen_range(0..14) {
        0 | 1 => {
            let dt = *pick(r, &[MILLISECS_PER_BLOCK, MILLISECS_PER_BLOCK, 3_600_000, 20_000_000]);
            for _ in 0..r.gen_range(1..30) {
                block_at(now() + 1, dt);
            }
            for (c, k) in [(RELAY, 10u128), (Token(KSM), 50), (NATIVE, 3), (ForeignAsset(1), 700)] {
                feed(vec![(oracle::OracleKey::ExchangeRate(c), FixedU128::from_inner(k * r.gen_range(20..1000u128) * 1_000_000_000_000_000))]);
            }
            set_fee_estimate(r.gen_range(1..5));
        }
        2 => {
            let t = time_ms() as u128 / 1000;
            let _ = root(dex_stable::Call::<Runtime>::ramp_a { pool_id: r.gen_range(0..2), future_a: r.gen_range(50..500), future_a_time: t + r.gen_range(86_400..300_000u128) });
        }
        3 => {
            let _ = by(&who, issue::Call::<Runtime>::request_issue { amount: E / r.gen_range(100_000..50_000_000), vault_id: pick(r, &p.vaults).clone(), griefing_currency: NATIVE });
        }
        4 => {
            let a = btc::any_address(r);
            let _ = by(&acc(0), redeem::Call::<Runtime>::request_redeem { amount_wrapped: E / r.gen_range(4_000_000..100_000_000), btc_address: a, vault_id: pick(r, &p.vaults).clone() });
        }
        5 => {
            let v = pick(r, &p.vaults).clone();
            let _ = by(&who, nomination::Call::<Runtime>::deposit_collateral { vault_id: v.clone(), amount: E / r.gen_range(10..1000) });
            let _ = by(&v.account_id, vault_registry::Call::<Runtime>::accept_new_issues { currency_pair: v.currencies.clone(), accept_new_issues: r.gen_ratio(3, 4) });
        }
        6 => {
            let _ = block_reward(&acc(0), log_uniform_u128(r, 45));
        }
        7 => {
            let (a, s) = (acc(r.gen_range(0..4)), now() + r.gen_range(0..3));
            let _ = match r.gen_range(0..6) {
                0 => root(escrow::Call::<Runtime>::set_account_block { who: a }),
                1 => root(escrow::Call::<Runtime>::set_account_limit { who: a, start: s, end: s + 200 }),
                _ => by(&a, escrow::Call::<Runtime>::increase_amount { amount: log_uniform_u128(r, 45) }),
            };
        }
        8 => {
            if r.gen() {
                btc::mine_n(1, r);
            }
        }
        _ => {
            refresh(p, r, &who);
            let i = *pick(r, usable);
            if let Some(c) = draw(i, r, p) {
                let _ = guard(|| call(signed(&who), c));
            }
        }
    }
}
