//! The workloads.
use crate::{sim::*, snap::*, spec::*};
use mon::rand::Rng;
use mon::*;
use rt::{btc, runtime::*, world::*};


pub fn cfg(r: &mut R) -> Cfg {
    Cfg {
        btc_confirmations: CONF,
        para_confirmations: 0,
        endowment: 1_000_000_000_000_000,
        ceiling: u64::MAX as u128,
        redeem_tx_size: *pick(r, &[0u32, 1, 400]),
        punishment_delay: *pick(r, &[0u32, 1, 8, 30]),
        issue_period: *pick(r, &[1u32, 10, 10, 60]),
        redeem_period: *pick(r, &[1u32, 10, 10, 60]),
        replace_period: *pick(r, &[1u32, 10, 10, 60]),
        issue_griefing: *pick(r, &[ratio(5, 100000), ratio(1, 10), ratio(5, 100000)]),
        collaterals: vec![Token(DOT), Token(KSM), Token(INTR), ForeignAsset(1)],
        ..Default::default()
    }
}
pub fn collaterals(r: &mut R) -> Vec<CurrencyId> {
    let all = [Token(DOT), Token(KSM), Token(INTR), ForeignAsset(1)];
    let mut v: Vec<CurrencyId> = all.iter().filter(|_| r.gen_bool(0.4)).copied().collect();
    if v.is_empty() {
        v.push(*pick(r, &all));
    }
    v.truncate(2);
    v
}
pub fn start(prop: &str, c: &Cfg, case: &mut Case, r: &mut R) -> Sim {
    let cols = collaterals(r);
    let (o, u) = (r.gen_range(2..4), r.gen_range(2..4));
    let mut x = Sim::new(prop, c, o, u, cols, r);
    // a few vaults to begin with
    for id in x.u.ids.clone() {
        if r.gen_ratio(2, 3) {
            let n = r.gen_range(1u128 << 30..1 << 42);
            x.step(case, crate::spec::Op::Register(id, n), None);
        }
    }
    x
}
pub fn histories(m: &Mon) {
    m.rule("after every call of a random history of issues, redeems, replacements, nominations, liquidations, price moves and parameter changes, the chain's whole bridge state is compared with a specification");
    for e in ["ReqIssue", "ExecIssue", "CancelIssue", "ReqRedeem", "ExecRedeem", "CancelRedeem", "Report", "ReqReplace", "AcceptReplace", "ExecReplace", "CancelReplace", "LiqRedeem", "MintReimb", "SelfRedeem", "Recover", "OptIn", "OptOut", "Nominate", "Denominate"] {
        m.require(e, 3);
    }
    if m.prop == "V11" {
        for e in ["announced RequestIssue", "announced IssueAmountChange", "announced ExecuteRedeem", "announced RedeemTokensPremium", "announced RedeemTokensLiquidatedVault", "announced LiquidateVault", "announced BanVault", "announced WithdrawReplace", "announced locked collateral"] {
            m.require(e, 3);
        }
    }
    if m.prop == "V12" {
        for e in ["lists of requests", "collateralization", "2 vaults can issue", "2 vaults can redeem", "highest premium", "due for liquidation", "no premium on offer"] {
            m.require(e, 20);
        }
    }
    m.stream("histories", 320, 12, |case, r| {
        let c = cfg(r);
        with_world(&c, || {
            let mut x = start(&m.prop, &c, case, r);
            let n = r.gen_range(100..350);
            for _ in 0..n {
                if x.broken {
                    break;
                }
                x.turn(case, r);
            }
            if !x.broken && m.prop == "V09" {
                crate::end::claims(&mut x, case);
            }
            if !x.broken && m.prop == "V10" {
                crate::end::unwind(&mut x, case, r);
            }
        });
    });
}

/// A vault that recovers while issues of its old life are open (a known defect: see
/// known-findings.txt): these can neither be executed nor cancelled any more.
pub fn reborn(m: &Mon) {
    m.stream("recover with open issues", 24, 1, |case, r| {
        let c = Cfg { issue_period: 10, ..cfg(r) };
        with_world(&c, || {
            let mut x = Sim::new(&m.prop, &c, 2, 2, vec![Token(DOT)], r);
            let (id, w) = (x.u.ids[case.index as usize % 2].clone(), x.u.users[0].clone());
            if VaultRegistry::get_bitcoin_public_key(&id.account_id).is_err() {
                return;
            }
            x.set_rate(case, Token(DOT), ONE);
            x.step(case, Op::Register(id.clone(), 1 << 40), None);
            x.step(case, Op::ReqIssue(w.clone(), 1 << 30, id.clone(), NATIVE), None);
            if x.broken || x.iss.is_empty() {
                return;
            }
            let q = x.s.iss[&x.iss[0]].clone();
            let sat = q.amount + q.fee;
            let t = x.pay(x.iss[0], vec![btc::pay(sat as i64, &q.btc_address)], Some(sat), r);
            x.mine(CONF, r);
            let p = x.paid(t);
            x.step(case, Op::ExecIssue(w.clone(), x.iss[0], p), Some(t));
            x.step(case, Op::ReqIssue(w.clone(), 1 << 29, id.clone(), NATIVE), None);
            if x.broken || x.iss.len() < 2 {
                return;
            }
            let i = x.iss[1];
            x.set_rate(case, Token(DOT), 2000 * ONE);
            x.step(case, Op::Report(id.clone()), None);
            x.step(case, Op::Recover(id.clone()), None);
            if x.broken {
                return;
            }
            case.event("recovered with an open issue");
            x.expire(case, r);
            let e = act(case, "panic in CancelIssue", signed(&w), issue::Call::<Runtime>::cancel_issue { issue_id: i });
            case.eval(1);
            case.check(e == Some(Ok(())), "an issue of before the recovery cannot be closed", || format!("{:?}", e.map(|e| err_name(&e))));
        });
    });
}
