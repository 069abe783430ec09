//! How histories end: all rewards are claimed, everything is unwound.
use crate::{sim::*, snap::*, spec::*};
use mon::rand::Rng;
use mon::*;
use primitives::{issue::IssueRequestStatus as IS, redeem::RedeemRequestStatus as RS, replace::ReplaceRequestStatus as PS};
use rt::{runtime::*, world::*};
use sp_runtime::FixedU128;

/// The stakes of the reward pools follow the vaults' collateral.
pub fn shares(x: &mut Sim, case: &mut Case) {
    let mut bad = vec![];
    let mut pools: std::collections::BTreeMap<u32, i128> = Default::default();
    for (k, id) in x.u.ids.clone().iter().enumerate() {
        let got = VaultRewards::stake(&id.currencies.collateral, id).into_inner();
        *pools.entry(x.u.ci(&id.currencies.collateral)).or_default() += got;
        let who = format!("{}/{:?}", acc_name(&id.account_id), id.currencies.collateral);
        let want = match &x.s.v[k] {
            Some(v) if v.status == St::Active(true) => {
                let t = v.custom.unwrap_or(x.p.secure[&x.u.ci(&id.currencies.collateral)]);
                let g = x.p.secure[&x.u.ci(&id.currencies.collateral)];
                let t = if t < g { g } else { t };
                div(v.stake(), t).unwrap()
            }
            _ => 0,
        };
        case.eval(1);
        if got != want as i128 * FX {
            bad.push(("a vault's share of rewards is not its collateral by its threshold", format!("{}: {} want {} ({:?})", who, got, want, x.s.v[k])));
        }
    }
    for c in x.u.cols.clone() {
        let t = VaultRewards::total_stake(c).into_inner();
        if t != pools.get(&x.u.ci(&c)).copied().unwrap_or(0) {
            bad.push(("a currency's total stake is not the sum over its vaults", format!("{:?}: {} {:?}", c, t, pools)));
        }
        let want = x.spec(x.s.clone()).conv((t / FX) as u128, c, WRAPPED).unwrap() as i128 * FX;
        let got = VaultCapacity::stake(&(), &c).into_inner();
        case.eval(1);
        if got != want {
            bad.push(("a currency's share of rewards is not the capacity of its vaults", format!("{:?}: {} want {}", c, got, want)));
        }
    }
    for (s, d) in bad {
        x.flag(case, "V09", s, || d);
    }
}
/// Everyone claims everything.
pub fn claims(x: &mut Sim, case: &mut Case) {
    if x.wiped {
        case.event("slashed to (nearly) nothing");
        return;
    }
    let mut bad = vec![];
    let pot: Vec<u128> = [WRAPPED, NATIVE].iter().map(|c| free(*c, &x.fee_pool)).collect();
    dry(|| {
        for id in x.u.ids.clone() {
            if x.s.v[x.u.ix(&id)].is_none() {
                continue;
            }
            let last = VaultStaking::nonce(&id);
            for k in 0..=last {
                for a in x.u.all() {
                    let before: Vec<u128> = [WRAPPED, NATIVE].iter().map(|c| free(*c, &a)).collect();
                    let commission = a == id.account_id && x.commission;
                    let due: Vec<Option<u128>> = [WRAPPED, NATIVE]
                        .iter()
                        .map(|c| (k == last).then(|| Fee::compute_vault_rewards(&id, &a, *c).map(|x| x.amount()).unwrap_or(u128::MAX)))
                        .collect();
                    match act(case, "panic in withdraw_rewards", signed(&a), fee::Call::<Runtime>::withdraw_rewards { vault_id: id.clone(), index: Some(k) }) {
                        None => return,
                        Some(Err(e)) if e == sp_runtime::ArithmeticError::Overflow.into() && x.rewards_blown(&Op::Report(id.clone())) => {
                            case.event("rewards per token at their limit");
                            return;
                        }
                        Some(Err(e)) => bad.push((
                            "rewards cannot be claimed",
                            format!("{} from {}/{:?} pool {}: {}", acc_name(&a), acc_name(&id.account_id), id.currencies.collateral, k, err_name(&Err(e))),
                        )),
                        Some(Ok(())) => {
                            for (i, c) in [WRAPPED, NATIVE].iter().enumerate() {
                                let got = free(*c, &a) - before[i];
                                if got > 0 {
                                    case.event("claimed");
                                }
                                if let Some(d) = due[i] {
                                    case.eval(1);
                                    if !commission && d != got {
                                        bad.push(("a claim pays something else than was announced", format!("{} {:?}: announced {} paid {}", acc_name(&a), c, d, got)));
                                    }
                                }
                            }
                            // nothing is left to claim
                            if k == last {
                                let again = free(WRAPPED, &a);
                                let _ = by(&a, fee::Call::<Runtime>::withdraw_rewards { vault_id: id.clone(), index: Some(k) });
                                if free(WRAPPED, &a) != again {
                                    bad.push(("a reward was paid twice", format!("{} from {:?}: {}", acc_name(&a), id, free(WRAPPED, &a) - again)));
                                }
                            }
                        }
                    }
                }
            }
        }
        for (i, c) in [WRAPPED, NATIVE].iter().enumerate() {
            let left = free(*c, &x.fee_pool);
            if pot[i] > 0 {
                case.event("rewards claimed to the end");
                case.eval(1);
                if left > x.dust_bound() + x.unshared[i] {
                    bad.push(("rewards nobody can claim", format!("{:?}: of {} in the fee pool {} are left after all claims", c, pot[i], left)));
                }
            }
        }
    });
    for (s, d) in bad {
        x.flag(case, "V09", s, || d);
    }
}
/// Every open request is closed, every token redeemed, every collateral withdrawn.
pub fn unwind(x: &mut Sim, case: &mut Case, r: &mut R) {
    x.expire(case, r);
    x.close(case, None, r);
    if x.broken {
        return;
    }
    let mut bad: Vec<(&str, String)> = vec![];
    for q in x.s.iss.iter().filter(|q| q.1.status == IS::Pending) {
        bad.push(("an expired issue request cannot be cancelled", format!("{:?}", q)));
    }
    for q in x.s.rep.iter().filter(|q| q.1.status == PS::Pending) {
        bad.push(("an expired replace request cannot be cancelled", format!("{:?}", q)));
    }
    let stuck: Vec<_> = x.s.red.iter().filter(|q| q.1.status == RS::Pending).map(|q| (*q.0, q.1.redeemer.clone())).collect();
    for (i, w) in stuck {
        if !x.step(case, Op::CancelRedeem(w, i, false), None) && !x.broken {
            bad.push(("an expired redeem request cannot be cancelled", format!("{:?}", x.s.red[&i])));
        }
    }
    for (k, v) in x.s.v.iter().enumerate() {
        if let Some(v) = v {
            if (v.tbi, v.tbr, v.act_repl) != (0, 0, 0) {
                bad.push(("tokens stay reserved after all requests were closed", format!("{:?}: {:?}", x.u.ids[k], v)));
            }
        }
    }
    for (c, l) in &x.s.liq {
        if (l.tbi, l.tbr) != (0, 0) {
            bad.push(("tokens stay reserved after all requests were closed", format!("liquidation vault {}: {:?}", c, l)));
        }
    }
    // the rest needs all tokens in one hand
    if bad.is_empty() && !x.broken {
        let z = FixedU128::from(0);
        root(fee::Call::<Runtime>::set_redeem_fee { fee: z }).unwrap();
        x.p.redeem_fee = z;
        for c in x.u.cols.clone() {
            root(vault_registry::Call::<Runtime>::set_minimum_collateral { currency_id: c, minimum: 0 }).unwrap();
            x.p.min_col.insert(x.u.ci(&c), 0);
        }
        root(nomination::Call::<Runtime>::set_nomination_enabled { enabled: true }).unwrap();
        x.p.nomination = true;
        let w = x.u.users[0].clone();
        let ban = x.p.ban + 1;
        x.advance(ban);
        use orml_traits::MultiCurrency;
        for ((c, a), (f, _)) in x.s.led.clone() {
            if c == WRAPPED && a != w && f > 0 {
                <Tokens as MultiCurrency<AccountId>>::transfer(WRAPPED, &a, &w, f).expect("moving tokens");
            }
        }
        x.s = x.take();
        if free(WRAPPED, &w) != x.s.issuance {
            bad.push(("tokens stay locked after all requests were closed", format!("{} of {} are free", free(WRAPPED, &w), x.s.issuance)));
        }
        for c in x.u.cols.clone() {
            let n = x.s.liq[&x.u.ci(&c)].issued;
            if n > 0 && !x.broken && !x.step(case, Op::LiqRedeem(w.clone(), c, n), None) && !x.broken {
                bad.push(("the liquidation vault cannot be emptied", format!("{:?} {}: {:?}", c, n, x.s.liq)));
            }
        }
        for id in x.u.ids.clone() {
            let k = x.u.ix(&id);
            if x.broken || x.s.v[k].is_none() {
                continue;
            }
            let n = x.s.v[k].as_ref().unwrap().issued;
            if n > 0 {
                case.event("vault emptied");
                x.step(case, Op::Send(w.clone(), id.account_id.clone(), WRAPPED, n), None);
                if !x.broken && !x.step(case, Op::SelfRedeem(id.clone(), n), None) && !x.broken {
                    bad.push(("a vault cannot redeem all it issued", format!("{:?} {}", x.s.v[k], n)));
                }
            }
            let v = x.s.v[k].clone().unwrap();
            for (j, p) in v.pools.iter().enumerate() {
                for (a, s) in &p.stake {
                    if *s < FX || x.broken {
                        continue;
                    }
                    let cur = j + 1 == v.pools.len();
                    // a nominator of the current pool can leave; all others, too
                    if cur && *a != id.account_id && !v.opted {
                        bad.push(("a nominator is left behind with a vault that opted out", format!("{:?}", v)));
                        continue;
                    }
                    case.event("stake withdrawn");
                    if !x.step(case, Op::Denominate(id.clone(), a.clone(), None, Some(j as u32)), None) && !x.broken {
                        bad.push(("stake cannot be withdrawn though nothing is owed", format!("{} pool {} of {:?}", acc_name(a), j, v)));
                    }
                }
            }
        }
        if bad.is_empty() && !x.broken {
            case.event("unwound");
            if x.s.issuance != 0 {
                bad.push(("tokens are left that no vault stands for", format!("{}", x.s.issuance)));
            }
            // a unit may stay behind whenever a pool was emptied
            let dust: u128 = x.dusty.values().sum::<u128>() + 2 * x.s.v.iter().flatten().map(|v| v.pools.iter().map(|p| p.stake.len()).sum::<usize>()).sum::<usize>() as u128;
            let lv = VaultRegistry::liquidation_vault_account_id();
            let repl: u128 = x.s.v.iter().flatten().map(|v| v.repl_col).sum();
            for ((c, a), (_, res)) in &x.s.led {
                // what was seized for issues that never came stays with the liquidation vault
                let seized = if *a == lv { x.s.liq.get(&x.u.ci(c)).map(|l| l.col).unwrap_or(0) } else { 0 };
                let allow = seized + if x.u.cols.contains(c) { dust } else { 0 } + if *c == NATIVE { repl } else { 0 };
                case.eval(1);
                if *res > allow {
                    bad.push(("collateral is left in reserve after everyone left", format!("{:?} of {}: {} (dust {})", c, acc_name(a), res, allow)));
                }
            }
        }
    }
    let _ = r.gen::<u8>();
    for (s, d) in bad {
        x.flag(case, "V10", s, || d);
    }
}
