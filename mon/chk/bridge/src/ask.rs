//! V12: what the chain answers about vaults and requests, against its state and what it then does.
use crate::{sim::*, snap::*, spec::*};
use mon::*;
use primitives::{issue::IssueRequestStatus as IS, redeem::RedeemRequestStatus as RS, replace::ReplaceRequestStatus as PS};
use rt::{runtime::*, world::*};
use sp_core::{H160, H256};
use sp_runtime::{
    traits::ValidateUnsigned,
    transaction_validity::{TransactionSource as Src, TransactionValidityError},
    FixedU128,
};
use std::collections::{BTreeMap, BTreeSet};

type Bad = Vec<(&'static str, String)>;
fn set(mut v: Vec<H256>) -> Vec<H256> {
    v.sort();
    v
}
fn show<T: std::fmt::Debug, E: std::fmt::Debug>(x: &Result<T, E>) -> String {
    format!("{x:?}")
}
/// The premium a redeem of `n` would be promised, if it were accepted.
fn premium(who: &AccountId, id: &VaultId, n: u128) -> Option<u128> {
    dry(|| {
        mint(who, WRAPPED, n);
        by(who, redeem::Call::<Runtime>::request_redeem { amount_wrapped: n, btc_address: bitcoin::Address::P2SH(H160::repeat_byte(9)), vault_id: id.clone() }).ok()?;
        events().into_iter().rev().find_map(|e| match e {
            RuntimeEvent::Redeem(redeem::Event::RequestRedeem { premium, .. }) => Some(premium),
            _ => None,
        })
    })
}
pub fn check(x: &mut Sim, case: &mut Case) {
    // not at every step, to go through more steps
    if x.steps % 3 != 0 {
        return;
    }
    let mut bad: Bad = vec![];
    who_has_what(x, case, &mut bad);
    amounts(x, case, &mut bad);
    if x.steps % 12 == 0 {
        premiums(x, case, &mut bad);
        reports(x, case, &mut bad);
    }
    for (s, d) in bad {
        x.flag(case, "V12", s, || d);
        if x.broken {
            return;
        }
    }
}
fn who_has_what(x: &Sim, case: &mut Case, bad: &mut Bad) {
    let s = &x.s;
    for a in x.u.all() {
        let mut want: Vec<VaultId> = x.u.ids.iter().enumerate().filter(|(k, i)| s.v[*k].is_some() && i.account_id == a).map(|(_, i)| i.clone()).collect();
        let mut got = VaultRegistry::get_vaults_by_account_id(a.clone()).unwrap_or_default();
        want.sort();
        got.sort();
        case.eval(1);
        if want != got {
            bad.push(("an account's vaults are answered wrongly", format!("{}: {got:?}, want {want:?}", acc_name(&a))));
        }
        let lists: [(&'static str, Vec<H256>, Vec<H256>); 6] = [
            ("a user's issues are answered wrongly", Issue::get_issue_requests_for_account(a.clone()), s.iss.iter().filter(|q| q.1.requester == a).map(|q| *q.0).collect()),
            ("a vault's issues are answered wrongly", Issue::get_issue_requests_for_vault(a.clone()), s.iss.iter().filter(|q| q.1.vault.account_id == a).map(|q| *q.0).collect()),
            ("a user's redeems are answered wrongly", Redeem::get_redeem_requests_for_account(a.clone()), s.red.iter().filter(|q| q.1.redeemer == a).map(|q| *q.0).collect()),
            ("a vault's redeems are answered wrongly", Redeem::get_redeem_requests_for_vault(a.clone()), s.red.iter().filter(|q| q.1.vault.account_id == a).map(|q| *q.0).collect()),
            ("a vault's replacements are answered wrongly", Replace::get_replace_requests_for_old_vault(a.clone()), s.rep.iter().filter(|q| q.1.old_vault.account_id == a).map(|q| *q.0).collect()),
            ("a vault's taken replacements are answered wrongly", Replace::get_replace_requests_for_new_vault(a.clone()), s.rep.iter().filter(|q| q.1.new_vault.account_id == a).map(|q| *q.0).collect()),
        ];
        for (sig, g, w) in lists {
            case.eval(1);
            if !g.is_empty() {
                case.event("lists of requests");
            }
            let (g, w) = (set(g), set(w));
            if g != w {
                bad.push((sig, format!("{}: {g:?}, want {w:?}", acc_name(&a))));
            }
        }
    }
    // one request, by the state it is in
    for (i, q) in &s.iss {
        let open = Issue::get_pending_issue(i).map(|g| g == *q).ok();
        if open != (q.status == IS::Pending).then_some(true) {
            bad.push(("an issue is answered wrongly", format!("{i:?} {q:?}: {open:?}")));
        }
    }
    for (i, q) in &s.red {
        let open = Redeem::get_open_redeem_request_from_id(i).map(|g| g == *q).ok();
        let kept = Redeem::get_open_or_completed_redeem_request_from_id(i).map(|g| g == *q).ok();
        if open != (q.status == RS::Pending).then_some(true) || kept != (matches!(q.status, RS::Pending | RS::Completed)).then_some(true) {
            bad.push(("a redeem is answered wrongly", format!("{i:?} {q:?}: {open:?} {kept:?}")));
        }
    }
    for (i, q) in &s.rep {
        let open = Replace::get_open_replace_request(i).map(|g| g == *q).ok();
        let kept = Replace::get_open_or_completed_replace_request(i).map(|g| g == *q).ok();
        let left = Replace::get_open_or_cancelled_replace_request(i).map(|g| g == *q).ok();
        let w = |b: bool| b.then_some(true);
        if open != w(q.status == PS::Pending) || kept != w(q.status != PS::Cancelled) || left != w(q.status != PS::Completed) {
            bad.push(("a replacement is answered wrongly", format!("{i:?} {q:?}: {open:?} {kept:?} {left:?}")));
        }
    }
}
fn ranked(what: &'static str, got: Vec<(VaultId, currency::Amount<Runtime>)>, want: BTreeMap<VaultId, u128>, bad: &mut Bad) {
    let sorted = got.windows(2).all(|w| w[0].1.amount() >= w[1].1.amount());
    let m: BTreeMap<VaultId, u128> = got.iter().map(|(i, n)| (i.clone(), n.amount())).collect();
    let right = got.iter().all(|(i, n)| n.currency() == i.currencies.wrapped);
    if !sorted || m != want || m.len() != got.len() || !right {
        bad.push((what, format!("got {got:?}\nwant {want:?}")));
    }
}
fn amounts(x: &Sim, case: &mut Case, bad: &mut Bad) {
    let mut sp = x.spec(x.s.clone());
    let (mut issuable, mut redeemable) = (BTreeMap::new(), BTreeMap::new());
    for (k, id) in x.u.ids.iter().enumerate() {
        let c = id.currencies.collateral;
        let Some(v) = x.s.v[k].clone() else {
            case.eval(1);
            let b = VaultRegistry::get_collateralization_from_vault(id.clone(), true).is_ok()
                || VaultRegistry::get_required_collateral_for_vault(id.clone()).is_ok()
                || VaultRegistry::get_to_be_issued_tokens_from_vault(id.clone()).is_ok();
            if b {
                bad.push(("a vault that does not exist is answered for", format!("{id:?}")));
            }
            continue;
        };
        if v.status == St::Active(true) {
            if let Ok(n) = sp.issuable(id) {
                if n > 0 {
                    issuable.insert(id.clone(), n);
                }
            }
        }
        if !sp.banned(id).unwrap() && v.issued > v.tbr {
            redeemable.insert(id.clone(), v.issued - v.tbr);
        }
        let live = !v.liquidated();
        case.eval(5);
        let tbi = VaultRegistry::get_to_be_issued_tokens_from_vault(id.clone()).map(|a| (a.amount(), a.currency()));
        if tbi.as_ref().ok() != live.then_some(&(v.tbi, WRAPPED)) {
            bad.push(("tokens being issued are answered wrongly", format!("{id:?} {v:?}: {tbi:?}")));
        }
        // ratios: collateral at today's price per token
        for only in [true, false] {
            let n = v.issued + if only { 0 } else { v.tbi };
            let extra = v.stake() / 3 + 7;
            for (col, got) in [
                (v.stake(), VaultRegistry::get_collateralization_from_vault(id.clone(), only)),
                (extra, VaultRegistry::get_collateralization_from_vault_and_collateral(id.clone(), &currency::Amount::new(extra, c), only)),
            ] {
                let want = (live && n > 0).then(|| sp.conv(col, c, WRAPPED).ok().and_then(|b| muldiv(b, ONE, n).ok())).flatten();
                if want.is_some() {
                    case.event("collateralization");
                }
                if got.as_ref().ok().map(|g| g.into_inner()) != want {
                    bad.push(("collateralization is answered wrongly", format!("{id:?} only issued {only}: {}, want {want:?}\n{v:?}", show(&got))));
                }
            }
        }
        // what covers its tokens at its threshold
        let thr = sp.secure(id).unwrap();
        let got = VaultRegistry::get_required_collateral_for_vault(id.clone()).map(|a| (a.amount(), a.currency()));
        let want = live.then(|| sp.conv(mul_up(v.issued + v.tbi, thr), WRAPPED, c).ok().map(|n| (n, c))).flatten();
        if got.clone().ok() != want {
            bad.push(("required collateral is answered wrongly", format!("{id:?}: {}, want {want:?}\n{v:?}", show(&got))));
        }
        let n = v.issued * 2 + 12345;
        let got = VaultRegistry::get_required_collateral_for_wrapped(&currency::Amount::new(n, WRAPPED), c).map(|a| (a.amount(), a.currency()));
        let want = sp.conv(mul_up(n, x.p.secure[&x.u.ci(&c)]), WRAPPED, c).ok().map(|n| (n, c));
        if got.clone().ok() != want {
            bad.push(("required collateral for an amount is answered wrongly", format!("{id:?}: {}, want {want:?}\n{v:?}", show(&got))));
        }
        // nominations
        let mut sum = 0;
        for a in x.u.all() {
            let want = (v.cur().stake.get(&a).copied().unwrap_or(0) / FX) as u128;
            let got = Nomination::get_nominator_collateral(id, &a).map(|g| (g.amount(), g.currency()));
            sum += want;
            if got.clone().ok() != Some((want, c)) {
                bad.push(("a stake is answered wrongly", format!("{id:?} {}: {}, want {want}", acc_name(&a), show(&got))));
            }
        }
        let got = Nomination::get_total_nominated_collateral(id).map(|a| a.amount());
        let own = v.own(&id.account_id);
        if got.clone().ok() != v.stake().checked_sub(own) || got.clone().unwrap_or(0) + 10 < sum - own {
            bad.push(("the nominated total is answered wrongly", format!("{id:?}: {}, want {} - {own}", show(&got), v.stake())));
        }
    }
    case.eval(2);
    case.event(&format!("{} vaults can issue", issuable.len()));
    ranked("vaults that can issue are answered wrongly", VaultRegistry::get_vaults_with_issuable_tokens().unwrap(), issuable, bad);
    case.event(&format!("{} vaults can redeem", redeemable.len()));
    ranked("vaults that can redeem are answered wrongly", VaultRegistry::get_vaults_with_redeemable_tokens().unwrap(), redeemable, bad);
}
fn mul_up(a: u128, f: FixedU128) -> u128 {
    let down = mul(a, f).unwrap();
    if mul(a, f).is_ok() && muldiv(a, f.into_inner(), 1).map(|p| p % ONE != 0).unwrap_or(true) {
        down + 1
    } else {
        down
    }
}
/// The list of vaults that pay a premium, against the redeems they would be asked for.
fn premiums(x: &Sim, case: &mut Case, bad: &mut Bad) {
    let who = x.u.users[0].clone();
    let list = match Redeem::get_premium_redeem_vaults() {
        Ok(l) => l,
        Err(_) => vec![],
    };
    if !list.windows(2).all(|w| w[0].1.amount() >= w[1].1.amount()) {
        bad.push(("vaults paying a premium are not sorted", format!("{list:?}")));
    }
    for (k, id) in x.u.ids.iter().enumerate() {
        let Some(v) = &x.s.v[k] else { continue };
        let most = v.issued.saturating_sub(v.tbr);
        // a redeem of nearly everything
        let all = premium(&who, id, most);
        case.eval(1);
        match list.iter().filter(|l| l.0 == *id).collect::<Vec<_>>()[..] {
            [] => {
                case.event(if all.is_some() { "no premium on offer" } else { "cannot redeem" });
                if all.unwrap_or(0) > 100 * x.prec(id) {
                    bad.push(("a vault that would pay a premium is not listed", format!("{id:?}: {all:?} for {most}\n{v:?}\nlist {list:?}")));
                }
            }
            [(_, q)] => {
                let q = q.amount();
                let p = premium(&who, id, q);
                case.event(if p.is_some() { "premium for the amount named" } else { "amount named not available" });
                let (Some(p), Some(all)) = (p, all) else { continue };
                if all <= 100 * x.prec(id) {
                    continue;
                }
                if p == 0 {
                    bad.push(("the amount named for a premium yields none", format!("{id:?}: {q} gives {p}, {most} gives {all}")));
                }
                // it is enough for the highest premium, and not much less is
                case.event("highest premium");
                if p + 10 * x.prec(id) + all / 1000 < all {
                    bad.push(("the amount named does not yield the highest premium", format!("{id:?}: {q} gives {p}, {most} gives {all}\n{v:?}")));
                }
                if let Some(l) = premium(&who, id, q - q / 20) {
                    if l >= all.max(p) {
                        bad.push(("the amount named for a premium is more than needed", format!("{id:?}: {q} gives {p}, {} gives {l}, {most} gives {all}\n{v:?}", q - q / 20)));
                    }
                }
            }
            _ => bad.push(("a vault is listed twice", format!("{list:?}"))),
        }
    }
}
/// The node's worker reports exactly the vaults that can be liquidated; such reports are valid
/// only from the node itself.
fn reports(x: &Sim, case: &mut Case, bad: &mut Bad) {
    type VC = vault_registry::Call<Runtime>;
    let mut got = BTreeSet::new();
    for xt in worker_submits() {
        let RuntimeCall::VaultRegistry(c) = &xt.call else {
            bad.push(("a node submits something else than reports", format!("{:?}", xt.call)));
            continue;
        };
        for s in [Src::Local, Src::InBlock, Src::External] {
            let ok = VaultRegistry::validate_unsigned(s, c);
            if ok.is_ok() != (s != Src::External) {
                bad.push(("a node's report is taken from the network, or not from itself", format!("{s:?} {c:?}: {ok:?}")));
            }
        }
        match c {
            VC::report_undercollateralized_vault { vault_id } if xt.signature.is_none() => {
                if !got.insert(vault_id.clone()) {
                    bad.push(("a vault is reported twice", format!("{vault_id:?}")));
                }
            }
            c => bad.push(("a node submits something else than reports", format!("{c:?}"))),
        }
    }
    for (k, id) in x.u.ids.iter().enumerate() {
        if x.s.v[k].is_none() {
            continue;
        }
        let due = dry(|| act_none(VC::report_undercollateralized_vault { vault_id: id.clone() }.into()));
        case.eval(1);
        case.event(if due { "due for liquidation" } else { "healthy" });
        if due != got.contains(id) {
            bad.push(("a node reports other vaults than can be liquidated", format!("{id:?} due {due}: {got:?}\n{:?}", x.s.v[k])));
        }
    }
    // nothing else gets in without a signature
    let id = x.u.ids[0].clone();
    let calls = [
        VC::recover_vault_id { currency_pair: id.currencies.clone() },
        VC::accept_new_issues { currency_pair: id.currencies.clone(), accept_new_issues: false },
        VC::register_vault { currency_pair: id.currencies.clone(), collateral: 1 },
        VC::register_public_key { public_key: key(0) },
        VC::set_minimum_collateral { currency_id: id.currencies.collateral, minimum: 1 },
        VC::set_custom_secure_threshold { currency_pair: id.currencies.clone(), custom_threshold: None },
    ];
    for c in calls {
        for s in [Src::Local, Src::InBlock, Src::External] {
            let ok: Result<_, TransactionValidityError> = VaultRegistry::validate_unsigned(s, &c);
            if ok.is_ok() {
                bad.push(("a call is taken without a signature", format!("{s:?} {c:?}")));
            }
        }
    }
}
fn act_none(c: RuntimeCall) -> bool {
    use frame_support::traits::UnfilteredDispatchable;
    c.dispatch_bypass_filter(Origin::none()).is_ok()
}
impl Sim {
    /// the premium on one satoshi, at least one unit of collateral
    fn prec(&self, id: &VaultId) -> u128 {
        self.spec(self.s.clone()).conv(1, WRAPPED, id.currencies.collateral).unwrap_or(0) + 1
    }
}
