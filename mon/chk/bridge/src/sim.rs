//! A random history of the bridge, every step compared with the specification.
use crate::{inv, snap::*, spec::*};
use bitcoin::Address;
use mon::rand::Rng;
use mon::*;
use primitives::{issue::IssueRequestStatus as IS, redeem::RedeemRequestStatus as RS, replace::ReplaceRequestStatus as PS, VaultId as Vid};
use rt::{btc, runtime::*, world::*};
use sp_core::{H160, H256, U256};
use sp_runtime::{FixedI128, FixedPointNumber, FixedU128};
use std::collections::BTreeMap;

pub const CONF: u32 = 2;
pub const KEYS: [&str; 5] = [
    "0279be667ef9dcbbac55a06295ce870b07029bfcdb2dce28d959f2815b16f81798",
    "02c6047f9441ed7d6d3045406e95c07cd85c778e4b8cef3ca7abac09b95c709ee5",
    "02f9308a019258c31049344f85f89d5229b531c845836f99b08601f113bce036f9",
    "02e493dbf1c10d80f3581e4904930b1404cc6c13900ee0758474fa94abe8c4cd13",
    "022f8bde4d1a07209355b4a7250a5c5128e88b84bddc619ab7cba8d569b240efe4",
];
pub fn unhex(s: &str) -> Vec<u8> {
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect()
}
pub fn key(i: usize) -> bitcoin::PublicKey {
    let mut k = [0u8; 33];
    k.copy_from_slice(&unhex(KEYS[i]));
    bitcoin::PublicKey(k)
}
/// A bitcoin transaction of the history.
pub struct Tx {
    pub req: H256,
    pub blk: btc::Blk,
    pub height: u32,
    pub sat: Option<u128>,
}
pub struct Sim {
    pub p: Par,
    pub u: Uni,
    pub prop: String,
    pub iss: Vec<H256>,
    pub red: Vec<H256>,
    pub rep: Vec<H256>,
    pub txs: Vec<Tx>,
    pub s: Snap,
    /// satoshi in custody: paid into executed issues less paid out by executed redeems
    pub custody: i128,
    /// stake left behind below one unit: how often per vault
    pub dusty: BTreeMap<usize, u128>,
    pub fee_pool: AccountId,
    pub treasury: AccountId,
    pub commission: bool,
    pub broken: bool,
    /// some pool lost (nearly) everything to slashes: rewards in it are gone, or rounding in
    /// rewards per token is magnified beyond bounds (see DESIGN)
    pub kept: BTreeMap<usize, f64>,
    pub wiped: bool,
    /// fees nobody had a share in
    pub unshared: [u128; 2],
    pub steps: u128,
}
pub fn class(op: &Op) -> &'static str {
    match op {
        Op::Register(..) | Op::AcceptNew(..) | Op::Custom(..) => "V04",
        Op::Nominate(id, who, _) | Op::Denominate(id, who, _, _) if *who == id.account_id => "V04",
        Op::Report(..) | Op::Recover(..) | Op::LiqRedeem(..) => "V08",
        Op::ReqIssue(..) | Op::ExecIssue(..) | Op::CancelIssue(..) => "V05",
        Op::ReqRedeem(..) | Op::ExecRedeem(..) | Op::CancelRedeem(..) | Op::MintReimb(..) | Op::SelfRedeem(..) => "V06",
        Op::ReqReplace(..) | Op::WithdrawReplace(..) | Op::AcceptReplace(..) | Op::ExecReplace(..) | Op::CancelReplace(..) => "V07",
        Op::OptIn(..) | Op::OptOut(..) | Op::Nominate(..) | Op::Denominate(..) | Op::Limit(..) => "N01",
        Op::Send(..) => "V01",
    }
}
pub fn name(op: &Op) -> String {
    let s = format!("{:?}", op);
    s.split('(').next().unwrap().to_string()
}
fn fx(n: u128, d: u128) -> FixedU128 {
    ratio(n, d)
}
impl Sim {
    pub fn flag(&mut self, case: &mut Case, class: &str, sig: &str, detail: impl FnOnce() -> String) {
        // what other properties' monitors report does not end this one's history
        if class == self.prop {
            self.broken = true;
            case.violate(sig, detail());
        } else if std::env::var("BRIDGE_ALL").is_ok() {
            self.broken = true;
            case.violate(&format!("[{}] {}", class, sig), detail());
        }
    }
    pub fn take(&self) -> Snap {
        take(&self.u, &self.iss, &self.red, &self.rep)
    }
    /// Starts a chain's history. Runs inside `with_world`.
    pub fn new(prop: &str, c: &Cfg, n_ops: usize, n_users: usize, cols: Vec<CurrencyId>, r: &mut R) -> Sim {
        let ops: Vec<AccountId> = (4..4 + n_ops as u32).map(acc).collect();
        let users: Vec<AccountId> = (0..n_users as u32).map(acc).collect();
        let mut all_cols = cols.clone();
        if !all_cols.contains(&NATIVE) {
            all_cols.push(NATIVE);
        }
        let mut ids = vec![];
        for o in &ops {
            for k in &cols {
                ids.push(Vid::new(o.clone(), *k, WRAPPED));
            }
        }
        let u = Uni { ops, users, cols: all_cols.clone(), ids };
        let m = |x: FixedU128| -> BTreeMap<u32, FixedU128> { (0..all_cols.len() as u32).map(|i| (i, x)).collect() };
        let p = Par {
            secure: m(c.secure),
            premium: m(c.premium),
            liq: m(c.liquidation),
            ceiling: (0..all_cols.len() as u32).map(|i| (i, c.ceiling)).collect(),
            min_col: (0..all_cols.len() as u32).map(|i| (i, c.min_collateral)).collect(),
            rate: Default::default(),
            sat_per_byte: 1,
            issue_fee: c.issue_fee,
            issue_grief: c.issue_griefing,
            redeem_fee: c.redeem_fee,
            premium_fee: c.premium_redeem_fee,
            punish: c.punishment_fee,
            repl_grief: c.replace_griefing,
            issue_period: c.issue_period,
            redeem_period: c.redeem_period,
            replace_period: c.replace_period,
            issue_dust: c.issue_dust,
            redeem_dust: c.redeem_dust,
            replace_dust: c.replace_dust,
            redeem_size: c.redeem_tx_size,
            ban: c.punishment_delay,
            nomination: true,
        };
        btc::init(100, r);
        btc::mine_n(CONF, r);
        let s = take(&u, &[], &[], &[]);
        let mut x = Sim {
            p,
            u,
            prop: prop.into(),
            iss: vec![],
            red: vec![],
            rep: vec![],
            txs: vec![],
            s,
            custody: 0,
            dusty: Default::default(),
            fee_pool: Fee::fee_pool_account_id(),
            treasury: Issue::treasury_account_id(),
            commission: false,
            broken: false,
            wiped: false,
            kept: Default::default(),
            unshared: [0; 2],
            steps: 0,
        };
        for (i, k) in all_cols.iter().enumerate() {
            let rate = FixedU128::from_inner(r.gen_range(1..2000u128) * ONE / *pick(r, &[1u128, 1, 10, 1000]));
            x.p.rate.insert(i as u32, rate);
            let _ = k;
        }
        x.p.sat_per_byte = *pick(r, &[0u128, 1, 1, 2, 10]);
        x.refresh();
        for (i, o) in x.u.ops.clone().iter().enumerate() {
            if r.gen_ratio(14, 15) {
                let _ = by(o, vault_registry::Call::<Runtime>::register_public_key { public_key: key(i) });
            }
        }
        x.commission = prop == "V09" && r.gen();
        x.s = x.take();
        x
    }
    /// Feeds every price again.
    pub fn refresh(&mut self) {
        let mut v: Vec<_> = self
            .u
            .cols
            .iter()
            .map(|c| (oracle::OracleKey::ExchangeRate(*c), self.p.rate[&self.u.ci(c)]))
            .collect();
        v.push((oracle::OracleKey::FeeEstimation, FixedU128::saturating_from_integer(self.p.sat_per_byte)));
        feed(v);
        use frame_support::traits::Hooks;
        Oracle::on_initialize(now());
    }
    pub fn advance(&mut self, n: u32) {
        blocks(n);
        self.refresh();
        if self.prop == "V09" {
            // block rewards of the native currency
            let (from, amount) = (acc(FAUCET), 1_000 * n as u128 + (now() as u128 * 7919) % 100_000);
            mint(&from, NATIVE, amount);
            let _ = block_reward(&from, amount);
        }
        self.s = self.take();
    }
    pub fn spec(&self, s: Snap) -> Sp<'_> {
        Sp { s, p: &self.p, u: &self.u, fee_pool: self.fee_pool.clone(), treasury: self.treasury.clone(), new_id: None }
    }
    pub fn rate_of(&self, c: CurrencyId) -> FixedU128 {
        self.p.rate[&self.u.ci(&c)]
    }
    // ---- dispatch
    fn dispatch(&self, case: &mut Case, op: &Op, tx: Option<usize>) -> Option<Result<(), sp_runtime::DispatchError>> {
        let pf = |i: Option<usize>| btc::proof(&self.txs[i.unwrap()].blk, 1);
        let sig = format!("panic in {}", name(op));
        let sig = sig.as_str();
        match op.clone() {
            Op::Register(id, n) => {
                let o = id.account_id.clone();
                act(case, sig, signed(&o), vault_registry::Call::<Runtime>::register_vault { currency_pair: id.currencies, collateral: n })
            }
            Op::AcceptNew(id, b) => act(
                case,
                sig,
                signed(&id.account_id),
                vault_registry::Call::<Runtime>::accept_new_issues { currency_pair: id.currencies, accept_new_issues: b },
            ),
            Op::Custom(id, t) => act(
                case,
                sig,
                signed(&id.account_id),
                vault_registry::Call::<Runtime>::set_custom_secure_threshold { currency_pair: id.currencies, custom_threshold: t },
            ),
            Op::Report(id) => act(
                case,
                sig,
                signed(&acc(RELAYER)),
                vault_registry::Call::<Runtime>::report_undercollateralized_vault { vault_id: id },
            ),
            Op::Recover(id) => {
                act(case, sig, signed(&id.account_id), vault_registry::Call::<Runtime>::recover_vault_id { currency_pair: id.currencies })
            }
            Op::ReqIssue(w, n, id, g) => {
                act(case, sig, signed(&w), issue::Call::<Runtime>::request_issue { amount: n, vault_id: id, griefing_currency: g })
            }
            Op::ExecIssue(w, i, _) => {
                act(case, sig, signed(&w), issue::Call::<Runtime>::execute_issue { issue_id: i, unchecked_transaction: pf(tx) })
            }
            Op::CancelIssue(w, i) => act(case, sig, signed(&w), issue::Call::<Runtime>::cancel_issue { issue_id: i }),
            Op::ReqRedeem(w, n, id, ok) => {
                let b = if ok { H160::repeat_byte(1 + (n % 250) as u8) } else { H160::zero() };
                let a = if n % 2 == 0 { Address::P2WPKHv0(b) } else { Address::P2SH(b) };
                act(case, sig, signed(&w), redeem::Call::<Runtime>::request_redeem { amount_wrapped: n, btc_address: a, vault_id: id })
            }
            Op::LiqRedeem(w, c, n) => {
                act(case, sig, signed(&w), redeem::Call::<Runtime>::liquidation_redeem { currencies: pair(c), amount_wrapped: n })
            }
            Op::ExecRedeem(w, i, _) => {
                act(case, sig, signed(&w), redeem::Call::<Runtime>::execute_redeem { redeem_id: i, unchecked_transaction: pf(tx) })
            }
            Op::CancelRedeem(w, i, b) => act(case, sig, signed(&w), redeem::Call::<Runtime>::cancel_redeem { redeem_id: i, reimburse: b }),
            Op::MintReimb(id, i) => act(
                case,
                sig,
                signed(&id.account_id),
                redeem::Call::<Runtime>::mint_tokens_for_reimbursed_redeem { currency_pair: id.currencies, redeem_id: i },
            ),
            Op::SelfRedeem(id, n) => act(
                case,
                sig,
                signed(&id.account_id),
                redeem::Call::<Runtime>::self_redeem { currency_pair: id.currencies, amount_wrapped: n },
            ),
            Op::ReqReplace(id, n) => {
                act(case, sig, signed(&id.account_id), replace::Call::<Runtime>::request_replace { currency_pair: id.currencies, amount: n })
            }
            Op::WithdrawReplace(id, n) => {
                act(case, sig, signed(&id.account_id), replace::Call::<Runtime>::withdraw_replace { currency_pair: id.currencies, amount: n })
            }
            Op::AcceptReplace(new, old, n, c) => act(
                case,
                sig,
                signed(&new.account_id),
                replace::Call::<Runtime>::accept_replace {
                    currency_pair: new.currencies,
                    old_vault: old,
                    amount_btc: n,
                    collateral: c,
                    btc_address: Address::P2WPKHv0(H160::repeat_byte(7 + (n % 200) as u8)),
                },
            ),
            Op::ExecReplace(w, i, _) => {
                act(case, sig, signed(&w), replace::Call::<Runtime>::execute_replace { replace_id: i, unchecked_transaction: pf(tx) })
            }
            Op::CancelReplace(w, i) => act(case, sig, signed(&w), replace::Call::<Runtime>::cancel_replace { replace_id: i }),
            Op::OptIn(id) => {
                act(case, sig, signed(&id.account_id), nomination::Call::<Runtime>::opt_in_to_nomination { currency_pair: id.currencies })
            }
            Op::OptOut(id) => {
                act(case, sig, signed(&id.account_id), nomination::Call::<Runtime>::opt_out_of_nomination { currency_pair: id.currencies })
            }
            Op::Nominate(id, w, n) => {
                act(case, sig, signed(&w), nomination::Call::<Runtime>::deposit_collateral { vault_id: id, amount: n })
            }
            Op::Denominate(id, w, n, i) => {
                act(case, sig, signed(&w), nomination::Call::<Runtime>::withdraw_collateral { vault_id: id, amount: n, index: i })
            }
            Op::Limit(id, n) => act(
                case,
                sig,
                signed(&id.account_id),
                nomination::Call::<Runtime>::set_nomination_limit { currency_pair: id.currencies, limit: n },
            ),
            Op::Send(a, b, c, n) => {
                act(case, sig, signed(&a), orml_tokens::Call::<Runtime>::transfer { dest: b, currency_id: c, amount: n })
            }
        }
    }
    /// Runs one call against chain and specification. Returns whether it was accepted.
    pub fn step(&mut self, case: &mut Case, op: Op, tx: Option<usize>) -> bool {
        let cls = class(&op);
        let nm = name(&op);
        let pre = self.s.clone();
        let idle = VaultCapacity::total_stake(()).into_inner() == 0;
        System::reset_events();
        let got = match self.dispatch(case, &op, tx) {
            Some(g) => g,
            None => {
                self.broken = true;
                return false;
            }
        };
        let mut new_id = None;
        let evs = events();
        if got.is_ok() {
            for e in evs.clone() {
                match e {
                    RuntimeEvent::Issue(issue::Event::RequestIssue { issue_id, .. }) => {
                        self.iss.push(issue_id);
                        new_id = Some(issue_id)
                    }
                    RuntimeEvent::Redeem(redeem::Event::RequestRedeem { redeem_id, .. }) => {
                        self.red.push(redeem_id);
                        new_id = Some(redeem_id)
                    }
                    RuntimeEvent::Replace(replace::Event::AcceptReplace { replace_id, .. }) => {
                        self.rep.push(replace_id);
                        new_id = Some(replace_id)
                    }
                    _ => {}
                }
            }
            if matches!(op, Op::Report(..) | Op::CancelRedeem(..) | Op::ExecRedeem(..)) {
                self.poke();
            }
        }
        let post = self.take();
        let mut sp = self.spec(pre.clone());
        if let Some(i) = new_id {
            sp.new_id = Some(i);
            if let Some(x) = post.iss.get(&i) {
                sp.s.iss.insert(i, x.clone());
            }
            if let Some(x) = post.red.get(&i) {
                sp.s.red.insert(i, x.clone());
            }
            if let Some(x) = post.rep.get(&i) {
                sp.s.rep.insert(i, x.clone());
            }
        }
        let want = sp.step(&op);
        let pred = sp.s;
        case.eval(1);
        let want_ok = match want {
            Ok(()) => true,
            Err("no request was created") => true,
            Err(_) => false,
        };
        let ctx = |extra: String| format!("{:?}\nchain: {}\nspec: {:?}\n{}", op, err_name(&got), want, extra);
        if want_ok && got == Err(sp_runtime::ArithmeticError::Overflow.into()) && self.rewards_blown(&op) {
            case.event("rewards per token at their limit");
            self.broken = true;
        } else if want_ok != got.is_ok() {
            let sig = if want_ok {
                format!("{} refused though the rules allow it", nm)
            } else {
                format!("{} accepted though the rules forbid it", nm)
            };
            self.flag(case, cls, &sig, || ctx(String::new()));
        } else if got.is_err() {
            let d = diff(&pre, &post, self, false);
            if !d.is_empty() {
                self.flag(case, cls, &format!("refused {} changed the state", nm), || ctx(d.join("\n")));
            }
        } else {
            let d = diff(&pred, &post, self, true);
            if !d.is_empty() {
                self.flag(case, cls, &format!("{} had another effect than the rules say", nm), || ctx(d.join("\n")));
            }
        }
        if got.is_ok() {
            case.event(&nm);
            if idle || VaultCapacity::total_stake(()).into_inner() == 0 {
                // nobody has capacity: the fee stays in the pool
                for (i, c) in [WRAPPED, NATIVE].into_iter().enumerate() {
                    let of = |s: &Snap| s.led.get(&(c, self.fee_pool.clone())).map(|x| x.0).unwrap_or(0);
                    self.unshared[i] += of(&post).saturating_sub(of(&pre));
                }
            }
            self.after(&op, &pre, &post);
            if self.prop == "V11" && !self.broken {
                crate::news::check(self, case, &op, &pre, &post, &evs);
            }
        } else {
            if self.prop == "V11" && !evs.is_empty() {
                self.flag(case, "V11", &format!("a refused {nm} was announced"), || format!("{op:?}\n{evs:?}"));
            }
            case.event("refused");
        }
        self.s = post;
        self.steps += 1;
        inv::check(self, case);
        if self.prop == "V12" && !self.broken {
            crate::ask::check(self, case);
        }
        got.is_ok()
    }
    /// Whether rewards per token times stake leave the range of FixedI128 in a pool the call
    /// touches: a known limit of the reward pools (see RW01), which ends this history.
    pub fn rewards_blown(&self, op: &Op) -> bool {
        let (id, n) = match op {
            Op::Register(id, n) | Op::Nominate(id, _, n) => (id, *n),
            Op::AcceptReplace(new, _, _, c) => (new, *c),
            Op::AcceptNew(id, _) | Op::Custom(id, _) | Op::Recover(id) | Op::Denominate(id, ..) | Op::OptOut(id) | Op::Report(id) => (id, 0),
            Op::ExecRedeem(_, i, _) | Op::CancelRedeem(_, i, _) => (&self.s.red[i].vault, 0),
            Op::ExecReplace(_, i, _) => (&self.s.rep[i].old_vault, 0),
            Op::CancelReplace(_, i) => (&self.s.rep[i].new_vault, 0),
            _ => return false,
        };
        let k = VaultStaking::nonce(id);
        let col = id.currencies.collateral;
        let n = n + self.s.v[self.u.ix(id)].as_ref().map(|v| v.stake() + v.liq_col).unwrap_or(0);
        let all = n + (VaultRewards::total_stake(col).into_inner() / FX) as u128;
        let worth = self.spec(self.s.clone()).conv(all, col, WRAPPED).unwrap_or(0);
        [NATIVE, WRAPPED].iter().any(|c| {
            let over = |rpt: FixedI128, n: u128| U256::from(rpt.into_inner().unsigned_abs()) * U256::from(n) > U256::from(i128::MAX as u128 / 8);
            over(VaultStaking::reward_per_token(*c, (k, id)), n)
                || over(VaultRewards::reward_per_token(*c, col), n)
                || over(VaultCapacity::reward_per_token(*c, ()), worth)
        })
    }
    /// Rounding: every step splits rewards among a few vaults and their stakers.
    pub fn dust_bound(&self) -> u128 {
        20 + self.steps * self.u.ids.len() as u128
    }
    fn after(&mut self, op: &Op, pre: &Snap, post: &Snap) {
        if matches!(op, Op::Report(..) | Op::CancelRedeem(..) | Op::ExecRedeem(..)) {
            for (k, (a, b)) in pre.v.iter().zip(&post.v).enumerate() {
                if let (Some(a), Some(b)) = (a, b) {
                    if b.cur().total < a.cur().total {
                        let f = self.kept.entry(k).or_insert(1.0);
                        *f *= b.cur().total as f64 / a.cur().total as f64;
                        self.wiped |= b.cur().total < FX || *f < 1e-6;
                    }
                }
            }
        }
        match op {
            Op::ExecIssue(_, i, p) => {
                let _ = (pre, i);
                self.custody += p.sat.unwrap_or(0) as i128
            }
            Op::ExecRedeem(_, i, _) => self.custody -= post.red[i].amount_btc as i128,
            Op::Denominate(id, _, None, _) | Op::OptOut(id) => *self.dusty.entry(self.u.ix(id)).or_default() += 2,
            _ => {}
        }
    }
    /// Applies pending slashes of every staker (a deposit of nothing). How slashes add up when
    /// they are not applied in between is ST01's business.
    fn poke(&mut self) {
        for id in self.u.ids.clone() {
            for (a, x) in self.holders(&id) {
                if x {
                    VaultStaking::deposit_stake(&id, &a, Default::default()).expect("poke");
                }
            }
        }
    }
    fn holders(&self, id: &VaultId) -> Vec<(AccountId, bool)> {
        self.u.all().into_iter().map(|a| (a.clone(), VaultStaking::stake(id, &a).into_inner() != 0)).collect()
    }
    // ---- bitcoin
    pub fn mine(&mut self, n: u32, r: &mut R) {
        btc::mine_n(n, r);
        self.s.tip = BTCRelay::get_best_block_height();
    }
    pub fn pay(&mut self, req: H256, outs: Vec<bitcoin::types::TransactionOutput>, sat: Option<u128>, r: &mut R) -> usize {
        let t = btc::tx(outs, r);
        let blk = btc::mine(vec![t], r);
        let height = BTCRelay::get_best_block_height();
        self.s.tip = height;
        self.txs.push(Tx { req, blk, height, sat });
        self.txs.len() - 1
    }
    pub fn paid(&self, i: usize) -> Paid {
        Paid { sat: self.txs[i].sat, confirmed: self.s.tip + 1 >= self.txs[i].height + CONF }
    }
    fn settle(&mut self, r: &mut R) {
        if r.gen_ratio(9, 10) {
            self.mine(CONF - 1, r);
        }
    }
    // ---- choices
    fn id(&self, r: &mut R) -> VaultId {
        pick(r, &self.u.ids).clone()
    }
    /// mostly an existing vault
    fn vid(&self, r: &mut R) -> VaultId {
        let live: Vec<_> = self.u.ids.iter().enumerate().filter(|x| self.s.v[x.0].is_some()).map(|x| x.1.clone()).collect();
        if live.is_empty() || r.gen_ratio(1, 40) {
            self.id(r)
        } else {
            pick(r, &live).clone()
        }
    }
    fn who(&self, r: &mut R) -> AccountId {
        pick(r, &self.u.all()).clone()
    }
    fn near(&self, n: u128, r: &mut R) -> u128 {
        match r.gen_range(0..8) {
            0 => n,
            1 => n.saturating_add(1),
            2 => n.saturating_sub(1),
            3 => r.gen_range(0..4),
            4 => n / 2,
            _ if n > 0 => r.gen_range(1..=n),
            _ => 0,
        }
    }
    fn amount(&self, r: &mut R) -> u128 {
        match r.gen_range(0..10) {
            0 => r.gen_range(0..5),
            1 => r.gen_range(0..5000),
            2 => log_uniform_u128(r, 40),
            _ => r.gen_range(1000..3_000_000),
        }
    }
    pub fn pick_issue(&self, r: &mut R, s: &[IS]) -> Option<H256> {
        let v: Vec<_> = self.s.iss.iter().filter(|x| s.contains(&x.1.status)).map(|x| *x.0).collect();
        (!v.is_empty()).then(|| *pick(r, &v))
    }
    pub fn pick_redeem(&self, r: &mut R, f: impl Fn(&Red) -> bool) -> Option<H256> {
        let v: Vec<_> = self.s.red.iter().filter(|x| f(x.1)).map(|x| *x.0).collect();
        (!v.is_empty()).then(|| *pick(r, &v))
    }
    pub fn pick_replace(&self, r: &mut R, s: &[PS]) -> Option<H256> {
        let v: Vec<_> = self.s.rep.iter().filter(|x| s.contains(&x.1.status)).map(|x| *x.0).collect();
        (!v.is_empty()).then(|| *pick(r, &v))
    }
    fn some_id(&self, r: &mut R) -> H256 {
        let v: Vec<H256> = self.iss.iter().chain(&self.red).chain(&self.rep).copied().collect();
        if v.is_empty() || r.gen_ratio(1, 4) {
            H256::repeat_byte(9)
        } else {
            *pick(r, &v)
        }
    }
    /// an earlier transaction, or a new one
    fn old_tx(&self, req: H256, r: &mut R) -> Option<usize> {
        if !r.gen_ratio(1, 5) {
            return None;
        }
        let v: Vec<_> = (0..self.txs.len()).filter(|i| self.txs[*i].req == req || r.gen_ratio(1, 30)).collect();
        (!v.is_empty()).then(|| *pick(r, &v))
    }
    fn tx_for(&self, i: usize, req: H256) -> Paid {
        let mut p = self.paid(i);
        if self.txs[i].req != req {
            p.sat = None;
        }
        p
    }
    fn open_in(&self, id: &VaultId) -> bool {
        self.s.iss.values().any(|x| x.vault == *id && x.status == IS::Pending) || self.s.rep.values().any(|x| x.new_vault == *id && x.status == PS::Pending)
    }
    /// One random thing happens.
    pub fn turn(&mut self, case: &mut Case, r: &mut R) {
        let w: u32 = r.gen_range(0..1000);
        match w {
            0..=59 => {
                let n = *pick(r, &[1u32, 1, 2, 5, 11, 12]);
                case.log(|| format!("-- {} blocks", n));
                self.advance(n);
                inv::check(self, case);
            }
            60..=89 => {
                self.mine(1, r);
                case.log(|| "-- bitcoin block".into());
            }
            90..=124 => {
                let c = *pick(r, &self.u.cols);
                let i = self.u.ci(&c);
                let old = self.p.rate[&i].into_inner();
                let x = match r.gen_range(0..6) {
                    0 => old / 2,
                    1 => old * 2,
                    2 => old * r.gen_range(100..400) / 100,
                    3 => old * r.gen_range(100..120) / 100,
                    4 => old * r.gen_range(30..100) / 100,
                    _ => old * r.gen_range(85..100) / 100,
                }
                .clamp(ONE / 1000, 100_000 * ONE);
                self.p.rate.insert(i, FixedU128::from_inner(x));
                case.log(|| format!("-- rate {:?} {}", c, x));
                self.refresh();
                self.s = self.take();
                case.event("rate change");
            }
            125..=127 if self.commission => {
                let id = self.vid(r);
                let c = FixedU128::from_inner(r.gen_range(0..=10u128) * ONE / 10);
                let _ = by(&id.account_id.clone(), fee::Call::<Runtime>::set_commission { currencies: id.currencies, commission: c });
                self.s = self.take();
            }
            125..=139 => self.govern(case, r),
            140..=164 => self.plot(case, r),
            _ => {
                let (op, tx) = self.choose(r);
                if let Some(op) = op {
                    self.step(case, op, tx);
                }
            }
        }
    }
    fn govern(&mut self, case: &mut Case, r: &mut R) {
        type VR = vault_registry::Call<Runtime>;
        type FC = fee::Call<Runtime>;
        let c = *pick(r, &self.u.cols);
        let i = self.u.ci(&c);
        let cp = pair(c);
        let f = |r: &mut R, lo: u128, hi: u128| FixedU128::from_inner(r.gen_range(lo..=hi) * ONE / 10000);
        let res = match r.gen_range(0..13) {
            0 => {
                let m = *pick(r, &[0u128, 1, 1000, 100_000]);
                self.p.min_col.insert(i, m);
                root(VR::set_minimum_collateral { currency_id: c, minimum: m })
            }
            1 => {
                let t = self.s.tuvc.get(&i).copied().unwrap_or(0);
                let m = *pick(r, &[t / 2, t, t + 1000, t * 2, u64::MAX as u128, u64::MAX as u128]);
                self.p.ceiling.insert(i, m);
                root(VR::set_system_collateral_ceiling { currency_pair: cp, ceiling: m })
            }
            2 => {
                let l = f(r, 10100, 15000);
                let s = FixedU128::from_inner(l.into_inner() + r.gen_range(0..6000) * ONE / 10000);
                self.p.liq.insert(i, l);
                self.p.secure.insert(i, s);
                root(VR::set_liquidation_collateral_threshold { currency_pair: cp.clone(), threshold: l })
                    .and_then(|_| root(VR::set_secure_collateral_threshold { currency_pair: cp, threshold: s }))
            }
            3 => {
                self.p.issue_fee = f(r, 0, 1000);
                root(FC::set_issue_fee { fee: self.p.issue_fee })
            }
            4 => {
                self.p.issue_grief = f(r, 0, 1000);
                root(FC::set_issue_griefing_collateral { griefing_collateral: self.p.issue_grief })
            }
            5 => {
                self.p.redeem_fee = f(r, 0, 1000);
                root(FC::set_redeem_fee { fee: self.p.redeem_fee })
            }
            6 => {
                self.p.premium_fee = f(r, 0, 1000);
                root(FC::set_premium_redeem_fee { fee: self.p.premium_fee })
            }
            7 => {
                self.p.punish = f(r, 0, 3000);
                root(FC::set_punishment_fee { fee: self.p.punish })
            }
            8 => {
                self.p.repl_grief = f(r, 0, 3000);
                root(FC::set_replace_griefing_collateral { griefing_collateral: self.p.repl_grief })
            }
            9 => {
                self.p.issue_period = r.gen_range(1..120);
                root(issue::Call::<Runtime>::set_issue_period { period: self.p.issue_period })
            }
            10 => {
                self.p.redeem_period = r.gen_range(1..120);
                root(redeem::Call::<Runtime>::set_redeem_period { period: self.p.redeem_period })
            }
            11 => {
                self.p.replace_period = r.gen_range(1..120);
                root(replace::Call::<Runtime>::set_replace_period { period: self.p.replace_period })
            }
            _ => {
                self.p.nomination = r.gen_ratio(4, 5);
                root(nomination::Call::<Runtime>::set_nomination_enabled { enabled: self.p.nomination })
            }
        };
        res.expect("governance");
        if self.prop == "V09" {
            // thresholds count from a vault's next change on
            for id in self.u.ids.clone() {
                if self.s.v[self.u.ix(&id)].is_some() && vault_registry::PoolManager::<Runtime>::on_vault_settings_change(&id).is_err() {
                    case.event("rewards per token at their limit");
                    self.broken = true;
                }
            }
        }
        case.log(|| format!("-- governance {:?}", self.p));
        self.s = self.take();
    }
    pub fn set_rate(&mut self, case: &mut Case, c: CurrencyId, x: u128) {
        let x = x.clamp(ONE / 1000, 100_000 * ONE);
        self.p.rate.insert(self.u.ci(&c), FixedU128::from_inner(x));
        case.log(|| format!("-- rate {:?} {}", c, x));
        self.refresh();
        self.s = self.take();
        case.event("rate change");
    }
    /// Moves the price so that what the vault issued is covered `num`/`den` times.
    fn cover(&mut self, case: &mut Case, id: &VaultId, num: u128, den: u128) {
        if let Some(v) = self.s.v[self.u.ix(id)].as_ref() {
            if v.issued > 0 {
                if let Ok(x) = muldiv(v.stake(), ONE, v.issued).and_then(|x| muldiv(x, den, num)) {
                    self.set_rate(case, id.currencies.collateral, x);
                }
            }
        }
    }
    fn do_(&mut self, case: &mut Case, op: Op, r: &mut R) -> bool {
        if self.broken {
            return false;
        }
        let ok = self.step(case, op, None);
        for _ in 0..*pick(r, &[0u32, 0, 0, 1, 2]) {
            if self.broken {
                return false;
            }
            let (op, tx) = self.choose(r);
            if let Some(op) = op {
                self.step(case, op, tx);
            }
        }
        ok && !self.broken
    }
    /// Everything open now is overdue afterwards.
    pub fn expire(&mut self, case: &mut Case, r: &mut R) {
        let m = self.s.iss.values().map(|q| q.period).chain(self.s.red.values().map(|q| q.period)).chain(self.s.rep.values().map(|q| q.period)).max().unwrap_or(0);
        let n = m.max(self.p.issue_period).max(self.p.redeem_period).max(self.p.replace_period) + 1;
        self.mine((n + EXPIRY_RATIO - 1) / EXPIRY_RATIO + 1, r);
        self.advance(n);
        case.log(|| format!("-- {} blocks", n));
    }
    /// Several things happen with one end in mind.
    fn plot(&mut self, case: &mut Case, r: &mut R) {
        let live: Vec<_> = self.u.ids.iter().enumerate().filter(|x| self.s.v[x.0].is_some()).map(|x| x.1.clone()).collect();
        if live.is_empty() {
            return;
        }
        let holding: Vec<_> = live.iter().filter(|i| self.s.v[self.u.ix(i)].as_ref().unwrap().issued > 0).cloned().collect();
        match r.gen_range(0..8) {
            // a failed redeem reimbursed by a weak vault, which mints the tokens back later
            0 | 1 => {
                let i = match self.pick_redeem(r, |x| x.status == RS::Pending) {
                    Some(i) => i,
                    None => return,
                };
                let q = self.s.red[&i].clone();
                let (a, b) = (r.gen_range(90..160), 100);
                self.cover(case, &q.vault, a, b);
                self.expire(case, r);
                if !self.do_(case, Op::CancelRedeem(q.redeemer.clone(), i, true), r) {
                    return;
                }
                if r.gen_ratio(3, 4) {
                    self.set_rate(case, q.vault.currencies.collateral, ONE / 100);
                }
                if r.gen_ratio(1, 3) {
                    self.do_(case, Op::MintReimb(q.vault.clone(), i), r);
                }
                let n = self.p.ban + 1;
                self.advance(n);
                self.do_(case, Op::MintReimb(q.vault.clone(), i), r);
                self.do_(case, Op::MintReimb(q.vault, i), r);
            }
            2 => {
                if let Some(id) = (!holding.is_empty()).then(|| pick(r, &holding).clone()) {
                    if r.gen() {
                        let i = self.spec(self.s.clone()).issuable(&id).unwrap_or(0);
                        let (w, k) = (self.who(r), r.gen_range(1..5));
                        self.step(case, Op::ReqIssue(w, i / k, id.clone(), NATIVE), None);
                        if self.broken {
                            return;
                        }
                    }
                    let a = *pick(r, &[20, 60, 95, 100, 101, 105, 109, 110]);
                    self.cover(case, &id, a, 100);
                    self.do_(case, Op::Report(id), r);
                }
            }
            // the end of a liquidated vault's requests, then a new start
            3 => {
                let dead: Vec<_> = live.iter().filter(|i| self.s.v[self.u.ix(i)].as_ref().unwrap().liquidated()).cloned().collect();
                if dead.is_empty() {
                    return;
                }
                let id = pick(r, &dead).clone();
                self.expire(case, r);
                self.close(case, Some(&id), r);
                if self.broken || self.open_in(&id) {
                    return;
                }
                if self.do_(case, Op::Recover(id.clone()), r) {
                    let n = log_uniform_u128(r, 41);
                    self.do_(case, Op::Nominate(id.clone(), id.account_id.clone(), n), r);
                }
            }
            4 => {
                self.expire(case, r);
                self.close(case, None, r);
            }
            // the end of the liquidated tokens of one currency
            7 => {
                let c = *pick(r, &self.u.cols);
                for a in self.u.all() {
                    let l = &self.s.liq[&self.u.ci(&c)];
                    let n = l.issued.saturating_sub(l.tbr).min(free(WRAPPED, &a));
                    if n > 0 && !self.broken {
                        self.do_(case, Op::LiqRedeem(a, c, n), r);
                    }
                }
                let gone: Vec<_> = live.iter().filter(|i| self.s.v[self.u.ix(i)].as_ref().unwrap().liquidated()).cloned().collect();
                if r.gen() && !self.broken {
                    self.expire(case, r);
                    for id in gone {
                        self.close(case, Some(&id), r);
                    }
                }
                if !self.broken {
                    let w = self.who(r);
                    let n = r.gen_range(0..2);
                    self.step(case, Op::LiqRedeem(w, c, n), None);
                }
            }
            5 => {
                let id = pick(r, &live).clone();
                self.do_(case, Op::OptIn(id.clone()), r);
                self.do_(case, Op::Limit(id.clone(), 1 << 44), r);
                for _ in 0..r.gen_range(1..4) {
                    let (w, n) = (self.who(r), log_uniform_u128(r, 41));
                    self.do_(case, Op::Nominate(id.clone(), w, n), r);
                }
                if r.gen() {
                    self.do_(case, Op::OptOut(id.clone()), r);
                }
                if r.gen() {
                    let w = self.who(r);
                    self.do_(case, Op::Denominate(id, w, None, None), r);
                }
            }
            _ => {
                if let Some(old) = (!holding.is_empty()).then(|| pick(r, &holding).clone()) {
                    let new = pick(r, &live).clone();
                    let n = self.s.v[self.u.ix(&old)].as_ref().unwrap().issued / r.gen_range(1..4);
                    if r.gen_ratio(1, 3) {
                        self.set_rate(case, new.currencies.collateral, ONE / 10);
                    }
                    self.do_(case, Op::ReqReplace(old.clone(), n), r);
                    let n = self.near(n, r);
                    let c = self.spec(self.s.clone()).conv(n * 2, WRAPPED, new.currencies.collateral).unwrap_or(0);
                    self.do_(case, Op::AcceptReplace(new, old, n, c), r);
                }
            }
        }
    }
    /// Cancels what is open (of one vault).
    pub fn close(&mut self, case: &mut Case, id: Option<&VaultId>, r: &mut R) {
        let of = |v: &VaultId| id.map(|i| i == v).unwrap_or(true);
        let a: Vec<_> = self.s.iss.iter().filter(|q| q.1.status == IS::Pending && of(&q.1.vault)).map(|q| Op::CancelIssue(q.1.requester.clone(), *q.0)).collect();
        let b: Vec<_> = self
            .s
            .red
            .iter()
            .filter(|q| q.1.status == RS::Pending && of(&q.1.vault))
            .map(|q| (q.1.redeemer.clone(), *q.0))
            .collect();
        let c: Vec<_> = self
            .s
            .rep
            .iter()
            .filter(|q| q.1.status == PS::Pending && (of(&q.1.old_vault) || of(&q.1.new_vault)))
            .map(|q| Op::CancelReplace(q.1.new_vault.account_id.clone(), *q.0))
            .collect();
        let b: Vec<_> = b.into_iter().map(|(w, i)| Op::CancelRedeem(w, i, r.gen())).collect();
        for op in c.into_iter().chain(b).chain(a) {
            if self.broken {
                return;
            }
            self.step(case, op, None);
        }
    }
    pub fn choose(&mut self, r: &mut R) -> (Option<Op>, Option<usize>) {
        let none = (None, None);
        let rare = r.gen_ratio(1, 6);
        let op = match r.gen_range(0..100) {
            0..=5 => {
                let id = self.id(r);
                let c = id.currencies.collateral;
                let m = self.p.min_col[&self.u.ci(&c)];
                let n = match r.gen_range(0..6) {
                    0 => self.near(m, r),
                    1 => self.near(self.p.ceiling[&self.u.ci(&c)].saturating_sub(self.s.tuvc[&self.u.ci(&c)]), r).min(1 << 50),
                    _ => log_uniform_u128(r, 43),
                };
                Op::Register(id, n)
            }
            6..=7 => Op::AcceptNew(self.vid(r), r.gen_ratio(2, 3)),
            8 => {
                let id = self.vid(r);
                let g = self.p.secure[&self.u.ci(&id.currencies.collateral)].into_inner();
                let t = match r.gen_range(0..4) {
                    0 => None,
                    1 => Some(g),
                    2 => Some(g + 1),
                    _ => Some(g + r.gen_range(0..ONE)),
                };
                Op::Custom(id, t.map(FixedU128::from_inner))
            }
            9..=13 => Op::Report(self.vid(r)),
            14 => {
                let id = self.vid(r);
                if self.open_in(&id) {
                    return none; // scenario of its own (see `recover`)
                }
                Op::Recover(id)
            }
            15..=27 => {
                let id = self.vid(r);
                let i = self.spec(self.s.clone()).issuable(&id).unwrap_or(0);
                let n = match r.gen_range(0..5) {
                    0 => self.near(i, r),
                    1 => self.near(self.p.issue_dust, r),
                    2 => i / r.gen_range(1..6),
                    _ => self.amount(r).min(i.max(1)),
                };
                let g = if r.gen_bool(0.5) { NATIVE } else { *pick(r, &self.u.cols) };
                Op::ReqIssue(self.who(r), n, id, g)
            }
            28..=40 => {
                let i = match self.pick_issue(r, &[&[IS::Pending][..], &[IS::Cancelled, IS::Completed]][rare as usize]) {
                    Some(i) => i,
                    None => return none,
                };
                let q = self.s.iss[&i].clone();
                let t = match self.old_tx(i, r) {
                    Some(t) => t,
                    None => {
                        let want = q.amount + q.fee;
                        let sat = match r.gen_range(0..10) {
                            0 => self.near(want, r),
                            1 => want + self.amount(r),
                            2 => want / 2,
                            3 => want + 1 + r.gen_range(0..1000),
                            _ => want,
                        };
                        let (to, sat2) = if r.gen_ratio(1, 25) { (btc::any_address(r), None) } else { (q.btc_address, Some(sat)) };
                        let t = self.pay(i, vec![btc::pay(sat as i64, &to)], sat2, r);
                        self.settle(r);
                        t
                    }
                };
                let p = self.tx_for(t, i);
                let who = if r.gen_bool(0.6) { q.requester } else { self.who(r) };
                return (Some(Op::ExecIssue(who, i, p)), Some(t));
            }
            41..=44 => {
                let i = self.pick_issue(r, &[&[IS::Pending][..], &[IS::Cancelled, IS::Completed]][rare as usize]).unwrap_or_else(|| self.some_id(r));
                let who = match self.s.iss.get(&i) {
                    Some(q) if r.gen_bool(0.5) => q.requester.clone(),
                    _ => self.who(r),
                };
                Op::CancelIssue(who, i)
            }
            45..=54 => {
                let holders: Vec<_> = self.u.all().into_iter().filter(|a| free(WRAPPED, a) > 0).collect();
                let who = if holders.is_empty() { self.who(r) } else { pick(r, &holders).clone() };
                let id = self.vid(r);
                let have = free(WRAPPED, &who);
                let v = self.s.v[self.u.ix(&id)].as_ref();
                let room = v.map(|v| v.issued.saturating_sub(v.tbr)).unwrap_or(0);
                let n = match r.gen_range(0..6) {
                    0 => self.near(have, r),
                    1 => self.near(room, r).min(have + 1),
                    2 => self.near(self.p.redeem_dust + self.p.sat_per_byte * self.p.redeem_size as u128, r),
                    _ => have.min(room) / r.gen_range(1..4),
                };
                Op::ReqRedeem(who, n, id, r.gen_ratio(40, 41))
            }
            55..=61 => {
                let i = match self.pick_redeem(r, |x| x.status == RS::Pending || x.amount_btc % 7 == 0) {
                    Some(i) => i,
                    None => return none,
                };
                let q = self.s.red[&i].clone();
                let t = match self.old_tx(i, r) {
                    Some(t) => t,
                    None => {
                        let (v, a, d, sat) = match r.gen_range(0..14) {
                            0 => (q.amount_btc + 1, q.btc_address, i, Some(q.amount_btc + 1)),
                            1 => (q.amount_btc.saturating_sub(1), q.btc_address, i, Some(q.amount_btc.saturating_sub(1))),
                            2 => (q.amount_btc, btc::any_address(r), i, None),
                            3 => (q.amount_btc, q.btc_address, H256::repeat_byte(3), None),
                            _ => (q.amount_btc, q.btc_address, i, Some(q.amount_btc)),
                        };
                        let t = self.pay(i, vec![btc::pay(v as i64, &a), btc::op_ret(0, &d[..])], sat, r);
                        self.settle(r);
                        t
                    }
                };
                let p = self.tx_for(t, i);
                return (Some(Op::ExecRedeem(self.who(r), i, p)), Some(t));
            }
            62..=67 => {
                let i = self.pick_redeem(r, |x| x.status == RS::Pending || x.amount_btc % 7 == 0).unwrap_or_else(|| self.some_id(r));
                let who = match self.s.red.get(&i) {
                    Some(q) if r.gen_ratio(9, 10) => q.redeemer.clone(),
                    _ => self.who(r),
                };
                Op::CancelRedeem(who, i, r.gen())
            }
            68 => {
                let i = match self.pick_redeem(r, |x| matches!(x.status, RS::Reimbursed(_)) || x.amount_btc % 7 == 0) {
                    Some(i) => i,
                    None => return none,
                };
                let id = if r.gen_ratio(5, 6) { self.s.red[&i].vault.clone() } else { self.vid(r) };
                Op::MintReimb(id, i)
            }
            69..=70 => {
                let id = self.vid(r);
                let v = self.s.v[self.u.ix(&id)].as_ref();
                let n = v.map(|v| v.issued.saturating_sub(v.tbr)).unwrap_or(0).min(free(WRAPPED, &id.account_id).max(1));
                Op::SelfRedeem(id, self.near(n, r))
            }
            71..=72 => {
                let holders: Vec<_> = self.u.all().into_iter().filter(|a| free(WRAPPED, a) > 0).collect();
                let who = if holders.is_empty() { self.who(r) } else { pick(r, &holders).clone() };
                let c = *pick(r, &self.u.cols);
                let l = &self.s.liq[&self.u.ci(&c)];
                let n = l.issued.saturating_sub(l.tbr).min(free(WRAPPED, &who));
                Op::LiqRedeem(who, c, self.near(n, r))
            }
            73..=76 => {
                let id = self.vid(r);
                let v = self.s.v[self.u.ix(&id)].as_ref();
                let n = v.map(|v| v.issued.saturating_sub(v.tbr).saturating_sub(v.tbrepl)).unwrap_or(0);
                Op::ReqReplace(id, self.near(n, r))
            }
            77 => {
                let id = self.vid(r);
                let n = self.s.v[self.u.ix(&id)].as_ref().map(|v| v.tbrepl).unwrap_or(0);
                Op::WithdrawReplace(id, self.near(n, r))
            }
            78..=82 => {
                let old: Vec<_> = self.u.ids.iter().filter(|i| self.s.v[self.u.ix(i)].as_ref().map(|v| v.tbrepl > 0).unwrap_or(false)).cloned().collect();
                let old = if old.is_empty() { self.vid(r) } else { pick(r, &old).clone() };
                let new = self.vid(r);
                let n = self.s.v[self.u.ix(&old)].as_ref().map(|v| v.tbrepl).unwrap_or(0);
                let n = self.near(n, r);
                let c = self.spec(self.s.clone()).conv(n * 2, WRAPPED, new.currencies.collateral).unwrap_or(0);
                let c = if r.gen_ratio(1, 3) { self.near(c, r) } else { c };
                Op::AcceptReplace(new, old, n, c)
            }
            83..=85 => {
                let i = match self.pick_replace(r, &[&[PS::Pending][..], &[PS::Cancelled, PS::Completed]][rare as usize]) {
                    Some(i) => i,
                    None => return none,
                };
                let q = self.s.rep[&i].clone();
                let t = match self.old_tx(i, r) {
                    Some(t) => t,
                    None => {
                        let (v, d, sat) = match r.gen_range(0..12) {
                            0 => (q.amount + 1, i, Some(q.amount + 1)),
                            1 => (q.amount, H256::repeat_byte(3), None),
                            _ => (q.amount, i, Some(q.amount)),
                        };
                        let t = self.pay(i, vec![btc::pay(v as i64, &q.btc_address), btc::op_ret(0, &d[..])], sat, r);
                        self.settle(r);
                        t
                    }
                };
                let p = self.tx_for(t, i);
                return (Some(Op::ExecReplace(self.who(r), i, p)), Some(t));
            }
            86..=87 => {
                let i = self.pick_replace(r, &[&[PS::Pending][..], &[PS::Cancelled, PS::Completed]][rare as usize]).unwrap_or_else(|| self.some_id(r));
                Op::CancelReplace(self.who(r), i)
            }
            88 => Op::OptIn(self.vid(r)),
            89 => {
                if r.gen_ratio(1, 2) {
                    return none;
                }
                Op::OptOut(self.vid(r))
            }
            90..=91 => {
                let id = self.vid(r);
                if self.s.v[self.u.ix(&id)].is_none() {
                    return none;
                }
                let n = match r.gen_range(0..3) {
                    0 => self.s.v[self.u.ix(&id)].as_ref().map(|v| v.stake() - v.own(&id.account_id).min(v.stake())).unwrap_or(0),
                    _ => log_uniform_u128(r, 42),
                };
                Op::Limit(id, n)
            }
            92..=94 => {
                let id = self.vid(r);
                let who = if r.gen_bool(0.4) { id.account_id.clone() } else { self.who(r) };
                let n = if r.gen_ratio(1, 4) {
                    let v = self.s.v[self.u.ix(&id)].as_ref();
                    let room = v.map(|v| v.limit.saturating_sub(v.stake() - v.own(&id.account_id).min(v.stake()))).unwrap_or(0);
                    self.near(room, r)
                } else {
                    log_uniform_u128(r, 41)
                };
                Op::Nominate(id, who, n)
            }
            95..=98 => {
                let id = self.vid(r);
                let v = self.s.v[self.u.ix(&id)].clone();
                let nonce = v.as_ref().map(|v| v.pools.len() as u32 - 1).unwrap_or(0);
                let ix = match r.gen_range(0..6) {
                    0 => None,
                    1 => Some(u32::MAX),
                    2 => Some(r.gen_range(0..=nonce)),
                    _ => Some(nonce),
                };
                let eff = ix.unwrap_or(0).min(nonce) as usize;
                let st: Vec<_> = v.as_ref().map(|v| v.pools[eff].stake.keys().cloned().collect()).unwrap_or_default();
                let who = if st.is_empty() || r.gen_ratio(1, 8) { self.who(r) } else { pick(r, &st).clone() };
                let have = v.as_ref().map(|v| (v.pools[eff].stake.get(&who).copied().unwrap_or(0) / FX) as u128).unwrap_or(0);
                // what the vault can spare
                let spare = v
                    .as_ref()
                    .map(|v| {
                        let mut s = self.spec(self.s.clone());
                        let need = s
                            .secure(&id)
                            .and_then(|t| s.conv(v.issued + v.tbi, WRAPPED, id.currencies.collateral).and_then(|x| mul(x, t)))
                            .unwrap_or(0);
                        v.stake().saturating_sub(need)
                    })
                    .unwrap_or(0);
                let n = match r.gen_range(0..6) {
                    0 => None,
                    1 => Some(self.near(have, r)),
                    2 => Some(self.near(spare, r)),
                    _ => Some(have.min(spare) / r.gen_range(1..5)),
                };
                Op::Denominate(id, who, n, ix)
            }
            _ => {
                let a = self.who(r);
                let b = self.who(r);
                let n = free(WRAPPED, &a);
                Op::Send(a, b, WRAPPED, self.near(n, r))
            }
        };
        (Some(op), None)
    }
}

/// Differences between the predicted and the actual state. `loose`: rewards may have moved.
pub fn diff(want: &Snap, got: &Snap, x: &Sim, loose: bool) -> Vec<String> {
    let mut d = vec![];
    for (i, (a, b)) in want.v.iter().zip(&got.v).enumerate() {
        let id = &x.u.ids[i];
        let n = format!("vault {}/{:?}", acc_name(&id.account_id), id.currencies.collateral);
        match (a, b) {
            (None, None) => {}
            (Some(a), Some(b)) => {
                let (mut a2, mut b2) = (a.clone(), b.clone());
                a2.pools.clear();
                b2.pools.clear();
                if a2 != b2 {
                    d.push(format!("{}: want {:?}\n got {:?}", n, a2, b2));
                }
                if a.pools.len() != b.pools.len() {
                    d.push(format!("{}: want {} pools, got {}", n, a.pools.len(), b.pools.len()));
                    continue;
                }
                for (k, (p, q)) in a.pools.iter().zip(&b.pools).enumerate() {
                    // a pool that everyone left is cleared
                    if p.total != q.total && !(q.total == 0 && p.total.abs() < FX / 1000) {
                        d.push(format!("{}: pool {} total want {} got {}", n, k, p.total, q.total));
                    }
                    let tol = p.total / 1_000_000_000_000_000 + FX / 1000;
                    for w in p.stake.keys().chain(q.stake.keys()) {
                        let (s, t) = (p.stake.get(w).copied().unwrap_or(0), q.stake.get(w).copied().unwrap_or(0));
                        if (s - t).abs() > tol {
                            d.push(format!("{}: pool {} stake of {} want {} got {}", n, k, acc_name(w), s, t));
                        }
                    }
                }
            }
            _ => d.push(format!("{}: want {:?} got {:?}", n, a, b)),
        }
    }
    if want.liq != got.liq {
        d.push(format!("liquidation vaults: want {:?} got {:?}", want.liq, got.liq));
    }
    if want.tuvc != got.tuvc {
        d.push(format!("total vault collateral: want {:?} got {:?}", want.tuvc, got.tuvc));
    }
    if want.issuance != got.issuance {
        d.push(format!("issuance: want {} got {}", want.issuance, got.issuance));
    }
    let mut group = (0i128, (), 0i128);
    let keys: std::collections::BTreeSet<_> = want.led.keys().chain(got.led.keys()).cloned().collect();
    for k in keys {
        let a = want.led.get(&k).copied().unwrap_or_default();
        let b = got.led.get(&k).copied().unwrap_or_default();
        if a == b {
            continue;
        }
        let m = &k.1;
        if loose && k.0 == WRAPPED && a.1 == b.1 && (*m == x.fee_pool || *m == x.treasury || (x.commission && x.u.ops.contains(m) && b.0 >= a.0)) {
            group.0 += b.0 as i128 - a.0 as i128;
            continue;
        }
        if loose && x.commission && k.0 == NATIVE && a.1 == b.1 && (*m == x.fee_pool || x.u.ops.contains(m) && b.0 >= a.0) {
            group.2 += b.0 as i128 - a.0 as i128;
            continue;
        }
        d.push(format!("balance {:?} of {}: want {:?} got {:?}", k.0, acc_name(m), a, b));
    }
    if group.0 != 0 {
        d.push(format!("fees: {} appeared or vanished", group.0));
    }
    if group.2 != 0 {
        d.push(format!("native rewards: {} appeared or vanished", group.2));
    }
    for (i, a) in &want.iss {
        if got.iss.get(i) != Some(a) {
            d.push(format!("issue {:?}: want {:?} got {:?}", i, a, got.iss.get(i)));
        }
    }
    for (i, a) in &want.red {
        if got.red.get(i) != Some(a) {
            d.push(format!("redeem {:?}: want {:?} got {:?}", i, a, got.red.get(i)));
        }
    }
    for (i, a) in &want.rep {
        if got.rep.get(i) != Some(a) {
            d.push(format!("replace {:?}: want {:?} got {:?}", i, a, got.rep.get(i)));
        }
    }
    if want.keys != got.keys {
        d.push("public keys differ".into());
    }
    d
}
