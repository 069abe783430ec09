//! V11: what the bridge announces is what happened.  Vault software acts on announcements only, so
//! each accepted call is compared, announcement by announcement, with what it changed.
use crate::{sim::*, snap::*, spec::Op};
use mon::Case;
use primitives::{issue::IssueRequestStatus as IS, replace::ReplaceRequestStatus as PS};
use rt::{runtime::*, world::*};
use std::collections::BTreeMap;

type IE = issue::Event<Runtime>;
type RE = redeem::Event<Runtime>;
type PE = replace::Event<Runtime>;
type NE = nomination::Event<Runtime>;
type VE = vault_registry::Event<Runtime>;

/// The announcements this monitor accounts for.
fn relevant(e: &RuntimeEvent) -> bool {
    match e {
        RuntimeEvent::Issue(_) | RuntimeEvent::Redeem(_) | RuntimeEvent::Replace(_) | RuntimeEvent::Nomination(_) => true,
        RuntimeEvent::VaultRegistry(v) => matches!(
            v,
            VE::RegisterVault { .. }
                | VE::RegisterAddress { .. }
                | VE::DecreaseTokens { .. }
                | VE::RedeemTokens { .. }
                | VE::RedeemTokensPremium { .. }
                | VE::RedeemTokensLiquidatedVault { .. }
                | VE::RedeemTokensLiquidation { .. }
                | VE::ReplaceTokens { .. }
                | VE::LiquidateVault { .. }
                | VE::BanVault { .. }
                | VE::SetAcceptNewIssues { .. }
                | VE::SetCustomSecureThreshold { .. }
                | VE::UpdatePublicKey { .. }
        ),
        _ => false,
    }
}
pub fn check(x: &mut Sim, case: &mut Case, op: &Op, pre: &Snap, post: &Snap, evs: &[RuntimeEvent]) {
    let free = |s: &Snap, c: CurrencyId, a: &AccountId| s.led.get(&(c, a.clone())).map(|l| l.0).unwrap_or(0);
    let gain = |c: CurrencyId, a: &AccountId| free(post, c, a).saturating_sub(free(pre, c, a));
    let vs = |s: &Snap, id: &VaultId| s.v[x.u.ix(id)].clone();
    let released = |c: &CurrencyId| pre.tuvc[&x.u.ci(c)].saturating_sub(post.tuvc[&x.u.ci(c)]);
    let burned = pre.issuance.saturating_sub(post.issuance);
    let minted = post.issuance.saturating_sub(pre.issuance);
    let mut want: Vec<RuntimeEvent> = vec![];
    match op {
        Op::Register(id, n) => {
            want.push(VE::RegisterVault { vault_id: id.clone(), collateral: *n }.into());
            want.push(NE::DepositCollateral { vault_id: id.clone(), nominator_id: id.account_id.clone(), amount: *n }.into());
        }
        Op::AcceptNew(id, b) => want.push(VE::SetAcceptNewIssues { vault_id: id.clone(), accept_new_issues: *b }.into()),
        Op::Custom(id, t) => want.push(VE::SetCustomSecureThreshold { vault_id: id.clone(), custom_threshold: *t }.into()),
        Op::Report(id) => {
            if let Some(v) = vs(pre, id) {
                want.push(
                    VE::LiquidateVault {
                        vault_id: id.clone(),
                        issued_tokens: v.issued,
                        to_be_issued_tokens: v.tbi,
                        to_be_redeemed_tokens: v.tbr,
                        to_be_replaced_tokens: v.tbrepl,
                        backing_collateral: v.stake(),
                        status: vault_registry::types::VaultStatus::Liquidated,
                        replace_collateral: v.repl_col,
                    }
                    .into(),
                );
            }
        }
        Op::ReqIssue(who, _, id, _) => {
            for (i, q) in post.iss.iter().filter(|(i, _)| !pre.iss.contains_key(i)) {
                want.push(VE::RegisterAddress { vault_id: id.clone(), address: q.btc_address }.into());
                want.push(
                    IE::RequestIssue {
                        issue_id: *i,
                        requester: who.clone(),
                        amount: q.amount,
                        fee: q.fee,
                        griefing_collateral: q.griefing_collateral,
                        griefing_currency: q.griefing_currency,
                        vault_id: id.clone(),
                        vault_address: q.btc_address,
                        vault_public_key: VaultRegistry::get_bitcoin_public_key(&id.account_id).unwrap(),
                    }
                    .into(),
                );
            }
        }
        Op::ExecIssue(_, i, _) => {
            let (a, b) = (&pre.iss[i], &post.iss[i]);
            let change = IE::IssueAmountChange {
                issue_id: *i,
                amount: b.amount,
                fee: b.fee,
                confiscated_griefing_collateral: if a.status == IS::Pending { gain(a.griefing_currency, &x.treasury) } else { 0 },
            };
            // an execution may restate an unchanged amount
            if (a.amount, a.fee) != (b.amount, b.fee) || evs.contains(&change.clone().into()) {
                want.push(change.into());
            }
            want.push(
                IE::ExecuteIssue { issue_id: *i, requester: b.requester.clone(), vault_id: b.vault.clone(), amount: minted, fee: b.fee }.into(),
            );
        }
        Op::CancelIssue(_, i) => {
            let a = &pre.iss[i];
            let slashed = if vs(pre, &a.vault).map(|v| v.liquidated()) == Some(true) {
                // given back as well: only what it would have been is announced
                evs.iter()
                    .find_map(|e| match e {
                        RuntimeEvent::Issue(IE::CancelIssue { griefing_collateral: g, .. }) if *g <= a.griefing_collateral => Some(*g),
                        _ => None,
                    })
                    .unwrap_or(0)
            } else {
                gain(a.griefing_currency, &x.treasury)
            };
            want.push(IE::CancelIssue { issue_id: *i, requester: a.requester.clone(), griefing_collateral: slashed }.into());
        }
        Op::ReqRedeem(who, _, id, _) => {
            for (i, q) in post.red.iter().filter(|(i, _)| !pre.red.contains_key(i)) {
                want.push(
                    RE::RequestRedeem {
                        redeem_id: *i,
                        redeemer: who.clone(),
                        vault_id: id.clone(),
                        amount: q.amount_btc,
                        fee: q.fee,
                        premium: q.premium,
                        btc_address: q.btc_address,
                        transfer_fee: q.transfer_fee_btc,
                    }
                    .into(),
                );
            }
        }
        Op::LiqRedeem(who, c, n) => {
            want.push(RE::LiquidationRedeem { redeemer: who.clone(), amount: burned }.into());
            want.push(VE::RedeemTokensLiquidation { redeemer_id: who.clone(), burned_tokens: *n, transferred_collateral: gain(*c, who) }.into());
        }
        Op::ExecRedeem(_, i, _) => {
            let q = &pre.red[i];
            let v = vs(pre, &q.vault).unwrap();
            want.push(if v.liquidated() {
                let w = vs(post, &q.vault).unwrap();
                VE::RedeemTokensLiquidatedVault { vault_id: q.vault.clone(), tokens: burned, collateral: v.liq_col - w.liq_col }.into()
            } else if q.premium == 0 {
                VE::RedeemTokens { vault_id: q.vault.clone(), redeemed_amount: burned }.into()
            } else {
                VE::RedeemTokensPremium {
                    vault_id: q.vault.clone(),
                    redeemed_amount: burned,
                    collateral: released(&q.vault.currencies.collateral),
                    user_id: q.redeemer.clone(),
                }
                .into()
            });
            want.push(
                RE::ExecuteRedeem {
                    redeem_id: *i,
                    redeemer: q.redeemer.clone(),
                    vault_id: q.vault.clone(),
                    amount: q.amount_btc,
                    fee: q.fee,
                    transfer_fee: q.transfer_fee_btc,
                }
                .into(),
            );
        }
        Op::CancelRedeem(_, i, _) => {
            let q = &pre.red[i];
            let (v, w) = (vs(pre, &q.vault).unwrap(), vs(post, &q.vault).unwrap());
            if !v.liquidated() {
                want.push(VE::BanVault { vault_id: q.vault.clone(), banned_until: w.banned.unwrap_or(0) }.into());
            }
            if burned > 0 {
                want.push(VE::DecreaseTokens { vault_id: q.vault.clone(), user_id: q.redeemer.clone(), decrease: burned }.into());
            }
            want.push(
                RE::CancelRedeem {
                    redeem_id: *i,
                    redeemer: q.redeemer.clone(),
                    vault_id: q.vault.clone(),
                    slashed_amount: if v.liquidated() { v.liq_col - w.liq_col } else { released(&q.vault.currencies.collateral) },
                    status: post.red[i].status.clone(),
                }
                .into(),
            );
        }
        Op::MintReimb(id, i) => want.push(RE::MintTokensForReimbursedRedeem { redeem_id: *i, vault_id: id.clone(), amount: minted }.into()),
        Op::SelfRedeem(id, _) => {
            want.push(VE::RedeemTokens { vault_id: id.clone(), redeemed_amount: burned }.into());
            want.push(RE::SelfRedeem { vault_id: id.clone(), amount: burned, fee: gain(WRAPPED, &x.fee_pool) }.into())
        }
        Op::ReqReplace(id, _) => {
            let (v, w) = (vs(pre, id).unwrap(), vs(post, id).unwrap());
            want.push(
                PE::RequestReplace { old_vault_id: id.clone(), amount: w.tbrepl - v.tbrepl, griefing_collateral: w.repl_col - v.repl_col }.into(),
            );
        }
        Op::WithdrawReplace(id, _) => {
            let (v, w) = (vs(pre, id).unwrap(), vs(post, id).unwrap());
            want.push(
                PE::WithdrawReplace {
                    old_vault_id: id.clone(),
                    withdrawn_tokens: v.tbrepl - w.tbrepl,
                    withdrawn_griefing_collateral: v.repl_col - w.repl_col,
                }
                .into(),
            );
        }
        Op::AcceptReplace(new, old, _, _) => {
            for (i, q) in post.rep.iter().filter(|(i, _)| !pre.rep.contains_key(i)) {
                want.push(
                    PE::AcceptReplace {
                        replace_id: *i,
                        old_vault_id: old.clone(),
                        new_vault_id: new.clone(),
                        amount: q.amount,
                        collateral: q.collateral,
                        btc_address: q.btc_address,
                    }
                    .into(),
                );
                want.push(
                    NE::DepositCollateral { vault_id: new.clone(), nominator_id: new.account_id.clone(), amount: q.collateral }.into(),
                );
            }
        }
        Op::ExecReplace(_, i, _) => {
            let q = &pre.rep[i];
            want.push(
                VE::ReplaceTokens {
                    old_vault_id: q.old_vault.clone(),
                    new_vault_id: q.new_vault.clone(),
                    amount: q.amount,
                    additional_collateral: if q.status == PS::Pending { q.collateral } else { 0 },
                }
                .into(),
            );
            want.push(PE::ExecuteReplace { replace_id: *i, old_vault_id: q.old_vault.clone(), new_vault_id: q.new_vault.clone() }.into());
        }
        Op::CancelReplace(_, i) => {
            let q = &pre.rep[i];
            want.push(
                PE::CancelReplace {
                    replace_id: *i,
                    new_vault_id: q.new_vault.clone(),
                    old_vault_id: q.old_vault.clone(),
                    griefing_collateral: q.griefing_collateral,
                }
                .into(),
            );
        }
        Op::OptIn(id) => want.push(NE::NominationOptIn { vault_id: id.clone() }.into()),
        Op::OptOut(id) => want.push(NE::NominationOptOut { vault_id: id.clone() }.into()),
        Op::Nominate(id, who, n) => {
            want.push(NE::DepositCollateral { vault_id: id.clone(), nominator_id: who.clone(), amount: *n }.into())
        }
        Op::Denominate(id, who, _, _) => want.push(
            NE::WithdrawCollateral { vault_id: id.clone(), nominator_id: who.clone(), amount: gain(id.currencies.collateral, who) }.into(),
        ),
        Op::Recover(_) | Op::Limit(..) | Op::Send(..) => {}
    }
    let show = |v: Vec<&RuntimeEvent>| {
        let mut v: Vec<String> = v.into_iter().map(|e| format!("{e:?}")).collect();
        v.sort();
        v
    };
    let (g, w) = (show(evs.iter().filter(|e| relevant(e)).collect()), show(want.iter().collect()));
    case.eval(1);
    for e in &g {
        case.event(&format!("announced {}", e.split('(').nth(1).unwrap_or("").split([' ', '{']).next().unwrap_or("")));
    }
    if g != w {
        let d: Vec<String> = w.iter().filter(|e| !g.contains(e)).map(|e| format!("expected  {e}")).chain(g.iter().filter(|e| !w.contains(e)).map(|e| format!("announced {e}"))).collect();
        x.flag(case, "V11", &format!("{} was announced otherwise than it happened", name(op)), || {
            format!("{op:?}\n{}", if d.is_empty() { format!("{g:#?}") } else { d.join("\n") })
        });
        return;
    }
    // the running total of locked collateral
    let mut t: BTreeMap<u32, u128> = pre.tuvc.clone();
    let mut bad = None;
    for e in evs {
        let (c, delta, total, up) = match e {
            RuntimeEvent::VaultRegistry(VE::IncreaseLockedCollateral { currency_pair: c, delta, total }) => (c, delta, total, true),
            RuntimeEvent::VaultRegistry(VE::DecreaseLockedCollateral { currency_pair: c, delta, total }) => (c, delta, total, false),
            _ => continue,
        };
        case.event("announced locked collateral");
        let k = t.entry(x.u.ci(&c.collateral)).or_default();
        *k = if up { *k + delta } else { k.saturating_sub(*delta) };
        if *k != *total {
            bad = Some(format!("{e:?}, but the total is {k}"));
        }
    }
    if bad.is_none() && t != post.tuvc {
        bad = Some(format!("announced {t:?}, locked {:?}", post.tuvc));
    }
    if let Some(b) = bad {
        x.flag(case, "V11", "locked collateral was announced otherwise than it changed", || format!("{op:?}\n{b}"));
    }
}
