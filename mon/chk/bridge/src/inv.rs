//! What holds in every state of the bridge.
use crate::{sim::Sim, snap::*};
use mon::Case;
use primitives::{issue::IssueRequestStatus as IS, redeem::RedeemRequestStatus as RS, replace::ReplaceRequestStatus as PS};
use rt::{runtime::*, world::*};
use std::collections::BTreeMap;

pub fn check(x: &mut Sim, case: &mut Case) {
    match x.prop.as_str() {
        "V01" => peg(x, case),
        "V02" => pending(x, case),
        "V03" => custody(x, case),
        "V09" if !x.broken => crate::end::shares(x, case),
        _ => {}
    }
    {
        let s = &x.s;
        let shape: Vec<_> = s
            .v
            .iter()
            .map(|v| v.as_ref().map(|v| (v.status, v.banned.is_some(), v.tbi > 0, v.issued > 0, v.tbr > 0, v.tbrepl > 0, v.liq_col > 0, v.pools.len(), v.opted)))
            .collect();
        let liq: Vec<_> = s.liq.values().map(|l| (l.tbi > 0, l.issued > 0, l.tbr > 0, l.col > 0)).collect();
        case.state_dbg(&(shape, liq));
    }
}
fn peg(x: &mut Sim, case: &mut Case) {
    let sum: u128 = x.s.v.iter().flatten().map(|v| v.issued).sum::<u128>() + x.s.liq.values().map(|l| l.issued).sum::<u128>();
    case.eval(2);
    if x.s.issuance != sum {
        let d = format!("issuance {} but vaults account for {}", x.s.issuance, sum);
        x.flag(case, "V01", "wrapped issuance differs from what vaults hold as issued", || d);
    }
    let held: u128 = x.s.led.iter().filter(|k| k.0 .0 == WRAPPED).map(|k| k.1 .0 + k.1 .1).sum();
    if x.s.issuance != held {
        let d = format!("issuance {} but balances sum to {}", x.s.issuance, held);
        x.flag(case, "V01", "wrapped issuance differs from the sum of balances", || d);
    }
    if x.s.issuance as i128 > x.custody {
        let d = format!("issuance {} but only {} satoshi came in and stayed", x.s.issuance, x.custody);
        x.flag(case, "V01", "more wrapped tokens than bitcoin in custody", || d);
    }
}
fn pending(x: &mut Sim, case: &mut Case) {
    let n = x.u.ids.len();
    let (mut tbi, mut tbr, mut act) = (vec![0u128; n], vec![0u128; n], vec![0u128; n]);
    for q in x.s.iss.values().filter(|q| q.status == IS::Pending) {
        tbi[x.u.ix(&q.vault)] += q.amount + q.fee;
    }
    for q in x.s.red.values().filter(|q| q.status == RS::Pending) {
        tbr[x.u.ix(&q.vault)] += q.amount_btc + q.transfer_fee_btc;
    }
    for q in x.s.rep.values().filter(|q| q.status == PS::Pending) {
        tbr[x.u.ix(&q.old_vault)] += q.amount;
        tbi[x.u.ix(&q.new_vault)] += q.amount;
        act[x.u.ix(&q.old_vault)] += q.griefing_collateral;
    }
    let mut liq: BTreeMap<u32, (u128, u128)> = Default::default();
    let mut bad = vec![];
    for (i, id) in x.u.ids.iter().enumerate() {
        let who = format!("{}/{:?}", acc_name(&id.account_id), id.currencies.collateral);
        let v = match &x.s.v[i] {
            Some(v) => v,
            None => {
                if tbi[i] + tbr[i] > 0 {
                    bad.push(("a request points to a vault that does not exist", who));
                }
                continue;
            }
        };
        case.eval(4);
        let mut want = tbi[i];
        if v.liquidated() {
            let l = liq.entry(x.u.ci(&id.currencies.collateral)).or_default();
            l.0 += tbi[i];
            l.1 += tbr[i];
            want = 0;
        }
        if v.tbi != want {
            bad.push(("to-be-issued differs from the open issues and replacements", format!("{} {} want {}", who, v.tbi, want)));
        }
        if v.tbr != tbr[i] {
            bad.push(("to-be-redeemed differs from the open redeems and replacements", format!("{} {} want {}", who, v.tbr, tbr[i])));
        }
        if !v.liquidated() && v.tbr > v.issued {
            bad.push(("a vault owes more than it issued", format!("{} tbr {} issued {}", who, v.tbr, v.issued)));
        }
        if v.act_repl != act[i] {
            bad.push(("active replace collateral differs from the open replacements", format!("{} {} want {}", who, v.act_repl, act[i])));
        }
        if v.liquidated() && (v.issued, v.tbrepl) != (0, 0) {
            bad.push(("a liquidated vault still holds tokens", format!("{} {:?}", who, v)));
        }
        if v.tbrepl == 0 && v.repl_col != 0 || v.tbr == 0 && v.liq_col != 0 {
            bad.push(("collateral is set aside for nothing", format!("{} {:?}", who, v)));
        }
    }
    for (c, l) in &x.s.liq {
        let w = liq.get(c).copied().unwrap_or_default();
        if (l.tbi, l.tbr) != w {
            bad.push(("the liquidation vault's pending tokens differ from the open requests", format!("{:?} want {:?}", l, w)));
        }
        if l.tbr > l.issued {
            bad.push(("the liquidation vault owes more than it issued", format!("{:?}", l)));
        }
    }
    for (s, d) in bad {
        x.flag(case, "V02", s, || d);
    }
}
fn custody(x: &mut Sim, case: &mut Case) {
    let mut bad = vec![];
    // total vault collateral
    for c in &x.u.cols {
        let i = x.u.ci(c);
        let mut want = x.s.liq[&i].col as i128 * FX;
        for (k, id) in x.u.ids.iter().enumerate() {
            if id.currencies.collateral == *c {
                if let Some(v) = &x.s.v[k] {
                    want += v.cur().total + v.liq_col as i128 * FX;
                }
            }
        }
        // what is kept back below one unit when a pool is closed
        let slack: u128 = x.u.ids.iter().enumerate().filter(|y| y.1.currencies.collateral == *c).map(|y| x.dusty.get(&y.0).copied().unwrap_or(0)).sum();
        let got = x.s.tuvc[&i] as i128 * FX;
        case.eval(1);
        if (got - want).abs() > (slack as i128) * FX + FX / 1000 {
            bad.push(("total vault collateral differs from the vaults' pools", format!("{:?}: recorded {} pools {} (slack {})", c, got, want, slack)));
        }
    }
    // every reserved balance
    let mut want: BTreeMap<(CurrencyId, AccountId), i128> = Default::default();
    let mut slack: BTreeMap<(CurrencyId, AccountId), i128> = Default::default();
    for (k, id) in x.u.ids.iter().enumerate() {
        if let Some(v) = &x.s.v[k] {
            let key = (id.currencies.collateral, id.account_id.clone());
            for p in &v.pools {
                *want.entry(key.clone()).or_default() += p.total;
                if p.total < -FX / 1000 {
                    bad.push(("a staking pool is below zero", format!("{} {:?}", acc_name(&id.account_id), p)));
                }
                let sum: i128 = p.stake.values().sum();
                if (sum - p.total).abs() > FX / 100 + p.total / 1_000_000_000_000 {
                    bad.push(("a pool's stakes do not add up to its total", format!("{} {:?}", acc_name(&id.account_id), p)));
                }
            }
            *want.entry(key.clone()).or_default() += v.liq_col as i128 * FX;
            *want.entry((NATIVE, id.account_id.clone())).or_default() += (v.repl_col + v.act_repl) as i128 * FX;
            *slack.entry(key).or_default() += x.dusty.get(&k).copied().unwrap_or(0) as i128 * FX;
        }
    }
    let lv = VaultRegistry::liquidation_vault_account_id();
    for c in &x.u.cols {
        *want.entry((*c, lv.clone())).or_default() += x.s.liq[&x.u.ci(c)].col as i128 * FX;
    }
    for q in x.s.iss.values().filter(|q| q.status == IS::Pending) {
        *want.entry((q.griefing_currency, q.requester.clone())).or_default() += q.griefing_collateral as i128 * FX;
    }
    for q in x.s.red.values().filter(|q| q.status == RS::Pending) {
        *want.entry((WRAPPED, q.redeemer.clone())).or_default() += (q.amount_btc + q.transfer_fee_btc + q.fee) as i128 * FX;
    }
    let keys: std::collections::BTreeSet<_> = want.keys().chain(x.s.led.keys()).cloned().collect();
    for k in keys {
        let got = x.s.led.get(&k).map(|x| x.1).unwrap_or(0) as i128 * FX;
        let w = want.get(&k).copied().unwrap_or(0);
        let s = slack.get(&k).copied().unwrap_or(0) + FX / 1000;
        case.eval(1);
        if (got - w).abs() > s {
            bad.push((
                if got < w { "less is held in reserve than is owed" } else { "a reserved balance belongs to nobody" },
                format!("{:?} of {}: reserved {} owed {} (slack {})", k.0, acc_name(&k.1), got, w, s),
            ));
        }
    }
    for (s, d) in bad {
        x.flag(case, "V03", s, || d);
    }
    if !check_issuance(case) {
        x.broken = true;
    }
}
