//! What every bridge call must do, on plain numbers.
use crate::snap::*;
use primitives::{issue::IssueRequestStatus as IS, redeem::RedeemRequestStatus as RS, replace::ReplaceRequestStatus as PS};
use rt::runtime::*;
use sp_core::{H256, U256};
use sp_runtime::FixedU128;

pub type Res<T> = Result<T, &'static str>;
pub const ONE: u128 = 1_000_000_000_000_000_000;
pub const EXPIRY_RATIO: u32 = 50;

#[derive(Clone, Debug)]
pub enum Op {
    Register(VaultId, u128),
    AcceptNew(VaultId, bool),
    Custom(VaultId, Option<FixedU128>),
    Report(VaultId),
    Recover(VaultId),
    ReqIssue(AccountId, u128, VaultId, CurrencyId),
    ExecIssue(AccountId, H256, Paid),
    CancelIssue(AccountId, H256),
    ReqRedeem(AccountId, u128, VaultId, bool),
    LiqRedeem(AccountId, CurrencyId, u128),
    ExecRedeem(AccountId, H256, Paid),
    CancelRedeem(AccountId, H256, bool),
    MintReimb(VaultId, H256),
    SelfRedeem(VaultId, u128),
    ReqReplace(VaultId, u128),
    WithdrawReplace(VaultId, u128),
    AcceptReplace(VaultId, VaultId, u128, u128),
    ExecReplace(AccountId, H256, Paid),
    CancelReplace(AccountId, H256),
    OptIn(VaultId),
    OptOut(VaultId),
    Nominate(VaultId, AccountId, u128),
    Denominate(VaultId, AccountId, Option<u128>, Option<u32>),
    Limit(VaultId, u128),
    Send(AccountId, AccountId, CurrencyId, u128),
}
/// The relevant bitcoin transaction: what it pays to the request's address (None: not a valid
/// payment of this request at all) and whether it is buried deep enough.
#[derive(Clone, Copy, Debug)]
pub struct Paid {
    pub sat: Option<u128>,
    pub confirmed: bool,
}

pub fn muldiv(a: u128, b: u128, c: u128) -> Res<u128> {
    if c == 0 {
        return Err("division by zero");
    }
    let x = U256::from(a) * U256::from(b) / U256::from(c);
    u128::try_from(x).map_err(|_| "overflow")
}
fn muldiv_up(a: u128, b: u128, c: u128) -> Res<u128> {
    let x = (U256::from(a) * U256::from(b) + U256::from(c) - 1) / U256::from(c);
    u128::try_from(x).map_err(|_| "overflow")
}
pub fn nearest(a: u128, f: FixedU128) -> Res<u128> {
    let p = U256::from(a) * U256::from(f.into_inner());
    let q = p / U256::from(ONE);
    let up = p % U256::from(ONE) * 2 >= U256::from(ONE);
    u128::try_from(q + if up { U256::one() } else { U256::zero() }).map_err(|_| "overflow")
}
pub fn mul(a: u128, f: FixedU128) -> Res<u128> {
    muldiv(a, f.into_inner(), ONE)
}
pub fn div(a: u128, f: FixedU128) -> Res<u128> {
    muldiv(a, ONE, f.into_inner())
}
/// Share `n/d` of `c`.
pub fn share(c: u128, n: u128, d: u128) -> Res<u128> {
    if n == 0 && d == 0 {
        return Ok(c);
    }
    muldiv(c, n, d)
}
fn need(b: bool, e: &'static str) -> Res<()> {
    b.then_some(()).ok_or(e)
}
fn sub(a: &mut u128, b: u128) -> Res<()> {
    *a = a.checked_sub(b).ok_or("underflow")?;
    Ok(())
}

pub struct Sp<'a> {
    pub s: Snap,
    pub p: &'a Par,
    pub u: &'a Uni,
    pub fee_pool: AccountId,
    pub treasury: AccountId,
    /// the id the call's new request got
    pub new_id: Option<H256>,
}
impl<'a> Sp<'a> {
    // ---- money
    fn led(&mut self, c: CurrencyId, a: &AccountId) -> &mut (u128, u128) {
        self.s.led.entry((c, a.clone())).or_default()
    }
    pub fn free(&mut self, c: CurrencyId, a: &AccountId) -> u128 {
        self.led(c, a).0
    }
    fn lock(&mut self, c: CurrencyId, a: &AccountId, n: u128) -> Res<()> {
        let l = self.led(c, a);
        sub(&mut l.0, n)?;
        l.1 += n;
        Ok(())
    }
    fn unlock(&mut self, c: CurrencyId, a: &AccountId, n: u128) -> Res<()> {
        let l = self.led(c, a);
        sub(&mut l.1, n)?;
        l.0 += n;
        Ok(())
    }
    fn send(&mut self, c: CurrencyId, a: &AccountId, b: &AccountId, n: u128) -> Res<()> {
        sub(&mut self.led(c, a).0, n)?;
        self.led(c, b).0 += n;
        Ok(())
    }
    fn mint(&mut self, a: &AccountId, n: u128) {
        self.led(WRAPPED, a).0 += n;
        self.s.issuance += n;
    }
    /// burns locked tokens
    fn burn(&mut self, a: &AccountId, n: u128) -> Res<()> {
        sub(&mut self.led(WRAPPED, a).1, n)?;
        sub(&mut self.s.issuance, n)
    }
    // ---- prices
    fn rate(&self, c: CurrencyId) -> Res<u128> {
        self.p.rate.get(&self.u.ci(&c)).map(|x| x.into_inner()).ok_or("no price")
    }
    pub fn conv(&self, n: u128, from: CurrencyId, to: CurrencyId) -> Res<u128> {
        if from == to {
            Ok(n)
        } else if from == WRAPPED {
            muldiv(n, self.rate(to)?, ONE)
        } else if to == WRAPPED {
            muldiv(n, ONE, self.rate(from)?)
        } else {
            self.conv(self.conv(n, from, WRAPPED)?, WRAPPED, to)
        }
    }
    fn par(&self, m: &std::collections::BTreeMap<u32, FixedU128>, c: CurrencyId) -> Res<FixedU128> {
        m.get(&self.u.ci(&c)).copied().ok_or("threshold not set")
    }
    // ---- vaults
    pub fn v(&mut self, id: &VaultId) -> Res<&mut V> {
        if !self.u.ids.contains(id) {
            return Err("vault not found");
        }
        let i = self.u.ix(id);
        self.s.v[i].as_mut().ok_or("vault not found")
    }
    pub fn act(&mut self, id: &VaultId) -> Res<&mut V> {
        let v = self.v(id)?;
        need(!v.liquidated(), "vault liquidated")?;
        Ok(v)
    }
    pub fn banned(&mut self, id: &VaultId) -> Res<bool> {
        let now = self.s.active;
        Ok(matches!(self.v(id)?.banned, Some(b) if now <= b))
    }
    fn not_banned(&mut self, id: &VaultId) -> Res<()> {
        let b = self.banned(id)?;
        need(!b, "banned")
    }
    pub fn secure(&mut self, id: &VaultId) -> Res<FixedU128> {
        let g = self.par(&self.p.secure, id.currencies.collateral)?;
        Ok(self.v(id)?.custom.map(|x| x.max(g)).unwrap_or(g))
    }
    /// whether `col` is too little to back `tokens` at `thr`
    fn below(&self, col: u128, tokens: u128, c: CurrencyId, thr: FixedU128) -> Res<bool> {
        Ok(div(self.conv(col, c, WRAPPED)?, thr)? < tokens)
    }
    fn used(&mut self, id: &VaultId, thr: FixedU128) -> Res<u128> {
        let v = self.v(id)?;
        let (t, n) = (v.stake(), v.issued + v.tbi);
        Ok(t.min(mul(self.conv(n, WRAPPED, id.currencies.collateral)?, thr)?))
    }
    pub fn issuable(&mut self, id: &VaultId) -> Res<u128> {
        if self.banned(id)? {
            return Ok(0);
        }
        let thr = self.secure(id)?;
        let used = self.used(id, thr)?;
        let free = self.v(id)?.stake().saturating_sub(used);
        div(self.conv(free, id.currencies.collateral, WRAPPED)?, thr)
    }
    fn tuvc_add(&mut self, c: CurrencyId, n: u128) -> Res<()> {
        let i = self.u.ci(&c);
        let t = self.s.tuvc.entry(i).or_default();
        *t += n;
        need(*t <= self.p.ceiling[&i], "ceiling")
    }
    fn tuvc_sub(&mut self, c: CurrencyId, n: u128) -> Res<()> {
        let i = self.u.ci(&c);
        sub(self.s.tuvc.entry(i).or_default(), n)
    }
    fn pool_add(&mut self, id: &VaultId, who: &AccountId, n: u128) -> Res<()> {
        let p = self.v(id)?.pools.last_mut().unwrap();
        p.total += n as i128 * FX;
        *p.stake.entry(who.clone()).or_default() += n as i128 * FX;
        Ok(())
    }
    fn pool_sub(&mut self, id: &VaultId, who: &AccountId, n: u128, ix: usize) -> Res<()> {
        let p = &mut self.v(id)?.pools[ix];
        let mine = p.stake.get(who).copied().unwrap_or(0);
        need(n as i128 <= mine / FX, "more than staked")?;
        p.stake.insert(who.clone(), mine - n as i128 * FX);
        p.total -= n as i128 * FX;
        Ok(())
    }
    /// Everyone loses in proportion.
    fn pool_slash(&mut self, id: &VaultId, n: u128) -> Res<()> {
        if n == 0 {
            return Ok(());
        }
        let p = self.v(id)?.pools.last_mut().unwrap();
        need(p.total > 0 && n as i128 <= p.total / FX, "slash more than staked")?;
        let total = p.total as u128;
        for s in p.stake.values_mut() {
            *s -= muldiv(*s as u128, n * FX as u128, total)? as i128;
        }
        p.total -= n as i128 * FX;
        Ok(())
    }
    fn deposit(&mut self, id: &VaultId, who: &AccountId, n: u128) -> Res<()> {
        let c = id.currencies.collateral;
        self.send(c, who, &id.account_id, n)?;
        self.lock(c, &id.account_id, n)?;
        self.tuvc_add(c, n)?;
        self.pool_add(id, who, n)
    }
    fn slash_to(&mut self, id: &VaultId, to: &AccountId, n: u128) -> Res<()> {
        let c = id.currencies.collateral;
        self.pool_slash(id, n)?;
        self.tuvc_sub(c, n)?;
        self.unlock(c, &id.account_id, n)?;
        self.send(c, &id.account_id, to, n)
    }
    /// would taking `n` (None: all) leave a vault that is safe?
    fn may_withdraw(&mut self, id: &VaultId, n: Option<u128>) -> Res<bool> {
        let c = id.currencies.collateral;
        let v = self.v(id)?;
        let backed = v.issued + v.tbi;
        let left = match n {
            None => 0,
            Some(n) => match v.stake().checked_sub(n) {
                Some(x) => x,
                None => return Ok(false),
            },
        };
        need(left == 0 || left >= self.p.min_col[&self.u.ci(&c)], "below minimum collateral")?;
        let thr = self.secure(id)?;
        Ok(!self.below(left, backed, c, thr)?)
    }
    fn liqv(&mut self, c: CurrencyId) -> &mut L {
        let i = self.u.ci(&c);
        self.s.liq.get_mut(&i).unwrap()
    }
    /// LiquidatedCollateral -> LiquidationVault
    fn confiscate(&mut self, id: &VaultId, n: u128) -> Res<()> {
        let c = id.currencies.collateral;
        let lv = VaultRegistry::liquidation_vault_account_id();
        self.unlock(c, &id.account_id, n)?;
        self.send(c, &id.account_id, &lv, n)?;
        self.lock(c, &lv, n)?;
        self.liqv(c).col += n;
        Ok(())
    }
    fn tbi_sub(&mut self, id: &VaultId, n: u128) -> Res<()> {
        if self.v(id)?.liquidated() {
            sub(&mut self.liqv(id.currencies.collateral).tbi, n)
        } else {
            sub(&mut self.v(id)?.tbi, n)
        }
    }
    fn issued_add(&mut self, id: &VaultId, n: u128) -> Res<()> {
        if self.v(id)?.liquidated() {
            self.liqv(id.currencies.collateral).issued += n
        } else {
            self.v(id)?.issued += n
        }
        Ok(())
    }
    fn issued_sub(&mut self, id: &VaultId, n: u128) -> Res<()> {
        if self.v(id)?.liquidated() {
            sub(&mut self.liqv(id.currencies.collateral).issued, n)
        } else {
            sub(&mut self.v(id)?.issued, n)
        }
    }
    fn tbr_sub(&mut self, id: &VaultId, n: u128) -> Res<()> {
        if self.v(id)?.liquidated() {
            sub(&mut self.liqv(id.currencies.collateral).tbr, n)?;
        }
        sub(&mut self.v(id)?.tbr, n)
    }
    fn try_tbi(&mut self, id: &VaultId, n: u128) -> Res<()> {
        self.act(id)?;
        let i = self.issuable(id)?;
        need(i >= n, "exceeds vault limit")?;
        self.v(id)?.tbi += n;
        Ok(())
    }
    fn try_tbr(&mut self, id: &VaultId, n: u128) -> Res<()> {
        let v = self.act(id)?;
        need(v.issued.checked_sub(v.tbr).ok_or("underflow")? >= n, "insufficient tokens committed")?;
        v.tbr += n;
        Ok(())
    }
    fn take_replace(&mut self, id: &VaultId, n: u128) -> Res<(u128, u128)> {
        let v = self.v(id)?;
        let used = n.min(v.tbrepl);
        let col = share(v.repl_col, used, v.tbrepl)?.min(v.repl_col);
        v.tbrepl -= used;
        Ok((used, col))
    }
    fn release_replace(&mut self, id: &VaultId, n: u128) -> Res<u128> {
        let (used, col) = self.take_replace(id, n)?;
        sub(&mut self.v(id)?.repl_col, col)?;
        self.unlock(NATIVE, &id.account_id, col)?;
        Ok(used)
    }
    pub fn expired(&self, open: u32, height: u32, period: u32) -> bool {
        self.s.active > open + period && self.s.tip > height + (period + EXPIRY_RATIO - 1) / EXPIRY_RATIO
    }
    fn paid(&self, p: &Paid) -> Res<u128> {
        need(p.confirmed, "not confirmed")?;
        p.sat.ok_or("not a payment of this request")
    }
    fn fresh(&self) -> Res<H256> {
        self.new_id.ok_or("no request was created")
    }
    pub fn key(&self, a: &AccountId) -> bool {
        self.u.ops.iter().position(|x| x == a).map(|i| self.s.keys[i]).unwrap_or(false)
    }

    // ---- the calls
    pub fn step(&mut self, op: &Op) -> Res<()> {
        match op {
            Op::Register(id, n) => {
                let c = id.currencies.collateral;
                need(self.key(&id.account_id), "no key")?;
                need(*n >= self.p.min_col[&self.u.ci(&c)], "below minimum collateral")?;
                let i = self.u.ix(id);
                need(self.s.v[i].is_none(), "exists")?;
                self.s.v[i] = Some(V {
                    status: St::Active(true),
                    banned: None,
                    custom: None,
                    tbi: 0,
                    issued: 0,
                    tbr: 0,
                    tbrepl: 0,
                    repl_col: 0,
                    act_repl: 0,
                    liq_col: 0,
                    pools: vec![Pool::default()],
                    opted: false,
                    limit: 0,
                });
                self.deposit(id, &id.account_id, *n)
            }
            Op::AcceptNew(id, b) => {
                self.act(id)?.status = St::Active(*b);
                Ok(())
            }
            Op::Custom(id, t) => {
                let g = self.par(&self.p.secure, id.currencies.collateral)?;
                let v = self.v(id)?;
                if let Some(t) = t {
                    need(*t > g, "not above the global threshold")?;
                }
                v.custom = *t;
                Ok(())
            }
            Op::Report(id) => self.report(id),
            Op::Recover(id) => {
                let v = self.v(id)?;
                need(v.liquidated() && v.tbr == 0, "not recoverable")?;
                v.status = St::Active(true);
                Ok(())
            }
            Op::ReqIssue(who, n, id, g) => {
                need(self.act(id)?.status == St::Active(true), "not accepting")?;
                self.not_banned(id)?;
                let grief = nearest(self.conv(*n, WRAPPED, *g)?, self.p.issue_grief)?;
                self.lock(*g, who, grief)?;
                need(*n >= self.p.issue_dust, "dust")?;
                self.try_tbi(id, *n)?;
                let fee = nearest(*n, self.p.issue_fee)?;
                let nid = self.fresh()?;
                let got = self.s.iss.get(&nid);
                let r = Iss {
                    vault: id.clone(),
                    opentime: self.s.active,
                    period: self.p.issue_period,
                    requester: who.clone(),
                    griefing_collateral: grief,
                    griefing_currency: *g,
                    amount: n.checked_sub(fee).ok_or("underflow")?,
                    fee,
                    btc_height: self.s.tip,
                    status: IS::Pending,
                    // the address is checked against the tweaked key by its own monitor (B06)
                    btc_address: got.map(|x| x.btc_address).unwrap_or_default(),
                    btc_public_key: got.map(|x| x.btc_public_key.clone()).unwrap_or_default(),
                };
                self.s.iss.insert(nid, r);
                Ok(())
            }
            Op::ExecIssue(who, i, p) => self.exec_issue(who, i, p),
            Op::CancelIssue(who, i) => {
                let r = self.s.iss.get(i).cloned().ok_or("no such issue")?;
                need(r.status == IS::Pending, "not pending")?;
                let g = r.griefing_collateral;
                let period = self.p.issue_period.max(r.period);
                let slash = if self.expired(r.opentime, r.btc_height, period) {
                    g
                } else {
                    need(*who == r.requester, "not expired")?;
                    share(g, (self.s.active - r.opentime) as u128, period as u128)?.min(g)
                };
                self.unlock(r.griefing_currency, &r.requester, g)?;
                if !self.v(&r.vault)?.liquidated() {
                    let t = self.treasury.clone();
                    self.send(r.griefing_currency, &r.requester, &t, slash)?;
                }
                self.tbi_sub(&r.vault, r.amount + r.fee)?;
                self.s.iss.get_mut(i).unwrap().status = IS::Cancelled;
                Ok(())
            }
            Op::ReqRedeem(who, n, id, addr_ok) => self.req_redeem(who, *n, id, *addr_ok),
            Op::LiqRedeem(who, c, n) => {
                need(self.free(WRAPPED, who) >= *n, "balance")?;
                self.lock(WRAPPED, who, *n)?;
                self.burn(who, *n)?;
                let l = self.liqv(*c).clone();
                need(l.issued.checked_sub(l.tbr).ok_or("underflow")? >= *n, "insufficient tokens committed")?;
                need(*n > 0, "nothing is burned")?;
                let out = muldiv(l.col, *n, l.issued + l.tbi - l.tbr)?;
                let lv = VaultRegistry::liquidation_vault_account_id();
                let l = self.liqv(*c);
                sub(&mut l.col, out)?;
                sub(&mut l.issued, *n)?;
                self.tuvc_sub(*c, out)?;
                self.unlock(*c, &lv, out)?;
                self.send(*c, &lv, who, out)
            }
            Op::ExecRedeem(_, i, p) => {
                let r = self.s.red.get(i).cloned().ok_or("no such redeem")?;
                need(r.status == RS::Pending, "not pending")?;
                let sat = self.paid(p)?;
                need(sat == r.amount_btc, "wrong amount")?;
                let burn = r.amount_btc + r.transfer_fee_btc;
                self.burn(&r.redeemer, burn)?;
                self.fee_in(&r.redeemer, r.fee)?;
                let c = r.vault.currencies.collateral;
                let tbr = self.v(&r.vault)?.tbr;
                self.tbr_sub(&r.vault, burn)?;
                self.issued_sub(&r.vault, burn)?;
                if self.v(&r.vault)?.liquidated() {
                    let out = share(self.v(&r.vault)?.liq_col, burn, tbr)?;
                    sub(&mut self.v(&r.vault)?.liq_col, out)?;
                    self.tuvc_sub(c, out)?;
                    self.unlock(c, &r.vault.account_id, out)?;
                } else {
                    // whatever is left of the promised premium
                    let n = r.premium.min(self.v(&r.vault)?.stake());
                    self.slash_to(&r.vault, &r.redeemer, n)?;
                }
                self.s.red.get_mut(i).unwrap().status = RS::Completed;
                Ok(())
            }
            Op::CancelRedeem(who, i, reimburse) => self.cancel_redeem(who, i, *reimburse),
            Op::MintReimb(id, i) => {
                let r = self.s.red.get(i).cloned().ok_or("no such redeem")?;
                need(r.status == RS::Reimbursed(false), "not mintable")?;
                need(r.vault == *id, "other vault")?;
                let n = r.amount_btc + r.transfer_fee_btc;
                self.try_tbi(id, n)?;
                self.tbi_sub(id, n)?;
                self.issued_add(id, n)?;
                self.mint(&id.account_id, n);
                self.s.red.get_mut(i).unwrap().status = RS::Reimbursed(true);
                Ok(())
            }
            Op::SelfRedeem(id, n) => {
                self.not_banned(id)?;
                need(*n > 0, "zero")?;
                let v = self.v(id)?;
                let free = v.issued.checked_sub(v.tbr).ok_or("underflow")?;
                let fee = if free == *n { 0 } else { nearest(*n, self.p.redeem_fee)? };
                let burn = n.checked_sub(fee).ok_or("underflow")?;
                let who = id.account_id.clone();
                self.lock(WRAPPED, &who, burn)?;
                self.burn(&who, burn)?;
                let pool = self.fee_pool.clone();
                self.send(WRAPPED, &who, &pool, fee)?;
                self.try_tbr(id, burn)?;
                self.tbr_sub(id, burn)?;
                self.issued_sub(id, burn)?;
                self.release_replace(id, burn)?;
                Ok(())
            }
            Op::ReqReplace(id, n) => {
                self.not_banned(id)?;
                let v = self.act(id)?;
                need(!v.opted, "nomination enabled")?;
                let inc = (*n).min(v.issued.checked_sub(v.tbrepl).and_then(|x| x.checked_sub(v.tbr)).ok_or("underflow")?);
                need(inc > 0, "zero")?;
                v.tbrepl += inc;
                need(v.tbrepl + v.tbr <= v.issued, "insufficient tokens")?;
                let tot = v.tbrepl;
                need(tot >= self.p.replace_dust, "dust")?;
                let g = nearest(self.conv(inc, WRAPPED, NATIVE)?, self.p.repl_grief)?;
                self.lock(NATIVE, &id.account_id, g)?;
                self.v(id)?.repl_col += g;
                Ok(())
            }
            Op::WithdrawReplace(id, n) => {
                self.act(id)?;
                let used = self.release_replace(id, *n)?;
                need(used > 0, "no pending request")
            }
            Op::AcceptReplace(new, old, n, col) => {
                need(new != old, "self")?;
                self.not_banned(new)?;
                let (used, grief) = self.take_replace(old, *n)?;
                need(used >= self.p.replace_dust, "dust")?;
                let c = share(*col, used, *n)?;
                self.v(new)?;
                self.deposit(new, &new.account_id.clone(), c)?;
                self.try_tbr(old, used)?;
                self.try_tbi(new, used)?;
                let o = self.v(old)?;
                sub(&mut o.repl_col, grief)?;
                o.act_repl += grief;
                let nid = self.fresh()?;
                let addr = self.s.rep.get(&nid).map(|x| x.btc_address).unwrap_or_default();
                let r = Rep {
                    old_vault: old.clone(),
                    new_vault: new.clone(),
                    amount: used,
                    griefing_collateral: grief,
                    collateral: c,
                    accept_time: self.s.active,
                    period: self.p.replace_period,
                    btc_address: addr,
                    btc_height: self.s.tip,
                    status: PS::Pending,
                };
                self.s.rep.insert(nid, r);
                Ok(())
            }
            Op::ExecReplace(_, i, p) => {
                let r = self.s.rep.get(i).cloned().ok_or("no such replace")?;
                need(r.status != PS::Completed, "completed")?;
                let sat = self.paid(p)?;
                need(sat == r.amount, "wrong amount")?;
                if r.status == PS::Pending {
                    sub(&mut self.v(&r.old_vault)?.act_repl, r.griefing_collateral)?;
                    self.unlock(NATIVE, &r.old_vault.account_id, r.griefing_collateral)?;
                } else {
                    self.try_tbr(&r.old_vault, r.amount)?;
                    self.try_tbi(&r.new_vault, r.amount)?;
                }
                let o = self.v(&r.old_vault)?;
                if o.liquidated() {
                    let back = share(o.liq_col, r.amount, o.tbr)?;
                    sub(&mut o.liq_col, back)?;
                    self.pool_add(&r.old_vault, &r.old_vault.account_id, back)?;
                }
                self.tbr_sub(&r.old_vault, r.amount)?;
                self.issued_sub(&r.old_vault, r.amount)?;
                self.tbi_sub(&r.new_vault, r.amount)?;
                self.issued_add(&r.new_vault, r.amount)?;
                self.s.rep.get_mut(i).unwrap().status = PS::Completed;
                Ok(())
            }
            Op::CancelReplace(_, i) => {
                let r = self.s.rep.get(i).cloned().ok_or("no such replace")?;
                need(r.status == PS::Pending, "not pending")?;
                need(self.expired(r.accept_time, r.btc_height, self.p.replace_period.max(r.period)), "not expired")?;
                let o = self.v(&r.old_vault)?;
                if o.liquidated() {
                    let n = share(o.liq_col, r.amount, o.tbr)?;
                    sub(&mut o.liq_col, n)?;
                    self.confiscate(&r.old_vault, n)?;
                }
                self.tbr_sub(&r.old_vault, r.amount)?;
                self.tbi_sub(&r.new_vault, r.amount)?;
                sub(&mut self.v(&r.old_vault)?.act_repl, r.griefing_collateral)?;
                self.unlock(NATIVE, &r.old_vault.account_id, r.griefing_collateral)?;
                self.send(NATIVE, &r.old_vault.account_id, &r.new_vault.account_id, r.griefing_collateral)?;
                let new = r.new_vault.clone();
                let op = new.account_id.clone();
                // the extra collateral goes back only where that leaves a safe vault
                let n = r.collateral.min(self.v(&new)?.own(&op));
                if !self.v(&new)?.liquidated() && self.may_withdraw(&new, Some(n)).unwrap_or(false) {
                    let c = new.currencies.collateral;
                    let ix = self.v(&new)?.pools.len() - 1;
                    self.pool_sub(&new, &op, n, ix)?;
                    self.tuvc_sub(c, n)?;
                    self.unlock(c, &op, n)?;
                }
                self.s.rep.get_mut(i).unwrap().status = PS::Cancelled;
                Ok(())
            }
            Op::OptIn(id) => {
                need(self.p.nomination, "disabled")?;
                let v = self.v(id)?;
                need(!v.opted, "already")?;
                v.opted = true;
                Ok(())
            }
            Op::OptOut(id) => {
                let op = id.account_id.clone();
                let v = self.v(id)?;
                need(v.opted, "not opted in")?;
                let nominated = v.stake().checked_sub(v.own(&op)).ok_or("underflow")?;
                let ok = self.may_withdraw(id, Some(nominated))?;
                need(ok, "collateralization too low")?;
                let v = self.v(id)?;
                v.opted = false;
                let p = v.pools.last_mut().unwrap();
                // whole units move to the new pool
                let mine = p.stake.entry(op.clone()).or_default();
                let own = *mine / FX * FX;
                *mine -= own;
                p.total -= own;
                let out = (p.total / FX) as u128;
                v.pools.push(Pool { total: own, stake: [(op, own)].into() });
                self.tuvc_sub(id.currencies.collateral, out)
            }
            Op::Nominate(id, who, n) => {
                if *who != id.account_id {
                    let op = id.account_id.clone();
                    let v = self.v(id)?;
                    let nominated = v.stake().checked_sub(v.own(&op)).ok_or("underflow")?;
                    need(v.opted, "not opted in")?;
                    need(nominated + n <= v.limit, "limit")?;
                    need(self.p.nomination, "disabled")?;
                }
                self.v(id)?;
                self.deposit(id, who, *n)
            }
            Op::Denominate(id, who, n, ix) => {
                let c = id.currencies.collateral;
                let nonce = self.v(id)?.pools.len() as u32 - 1;
                let ix = ix.unwrap_or(0).min(nonce);
                if ix == nonce {
                    let ok = self.may_withdraw(id, *n)?;
                    need(ok, "collateralization too low")?;
                    if *who != id.account_id {
                        need(self.p.nomination, "disabled")?;
                        need(self.v(id)?.opted, "not opted in")?;
                    }
                }
                let have = (self.v(id)?.pools[ix as usize].stake.get(who).copied().unwrap_or(0) / FX) as u128;
                let all = n.is_none();
                let n = n.unwrap_or(have);
                need(n <= have, "more than staked")?;
                self.pool_sub(id, who, n, ix as usize)?;
                if all {
                    // whatever is left is less than one unit
                    let p = &mut self.v(id)?.pools[ix as usize];
                    p.total -= p.stake.remove(who).unwrap_or(0);
                }
                self.unlock(c, &id.account_id, n)?;
                self.send(c, &id.account_id, who, n)?;
                if ix == nonce {
                    self.tuvc_sub(c, n)?;
                }
                Ok(())
            }
            Op::Limit(id, n) => {
                if let Ok(v) = self.v(id) {
                    v.limit = *n;
                }
                Ok(())
            }
            // sending to oneself is a no-op, whatever the amount
            Op::Send(a, b, _, _) if a == b => Ok(()),
            Op::Send(a, b, c, n) => self.send(*c, a, b, *n),
        }
    }
    fn fee_in(&mut self, who: &AccountId, fee: u128) -> Res<()> {
        self.unlock(WRAPPED, who, fee)?;
        let pool = self.fee_pool.clone();
        self.send(WRAPPED, who, &pool, fee)
    }
    fn report(&mut self, id: &VaultId) -> Res<()> {
        let c = id.currencies.collateral;
        let thr = self.par(&self.p.liq, c)?;
        let v = self.v(id)?;
        let (stake, issued) = (v.stake(), v.issued);
        need(self.below(stake, issued, c, thr)?, "not below")?;
        self.act(id)?;
        let used = self.used(id, thr)?;
        self.release_replace(id, self.s.v[self.u.ix(id)].as_ref().unwrap().tbrepl)?;
        let v = self.v(id)?;
        let backed = v.issued + v.tbi;
        let excl = share(used, backed.checked_sub(v.tbr).ok_or("underflow")?, backed)?;
        let for_tbr = (used - excl).min(v.own(&id.account_id));
        v.liq_col += for_tbr;
        let ix = v.pools.len() - 1;
        let op = id.account_id.clone();
        self.pool_sub(id, &op, for_tbr, ix)?;
        let own = self.v(id)?.own(&op).min(excl);
        self.pool_sub(id, &op, own, ix)?;
        self.pool_slash(id, excl - own)?;
        self.confiscate(id, excl)?;
        let v = self.v(id)?;
        let (i, b, r) = (v.issued, v.tbi, v.tbr);
        v.issued = 0;
        v.tbi = 0;
        v.status = St::Liquidated;
        let l = self.liqv(c);
        l.issued += i;
        l.tbi += b;
        l.tbr += r;
        Ok(())
    }
    fn exec_issue(&mut self, who: &AccountId, i: &H256, p: &Paid) -> Res<()> {
        let r = self.s.iss.get(i).cloned().ok_or("no such issue")?;
        let got = self.paid(p)?;
        let want = r.amount + r.fee;
        let mut total = want;
        match r.status {
            IS::Completed => return Err("completed"),
            IS::Cancelled => {
                need(self.v(&r.vault)?.status == St::Active(true), "not accepting")?;
                self.try_tbi(&r.vault, got)?;
                need(got >= want || *who == r.requester, "executor")?;
                total = got;
            }
            IS::Pending => {
                let mut slash = 0;
                if got < want {
                    need(*who == r.requester, "executor")?;
                    self.tbi_sub(&r.vault, want - got)?;
                    slash = r.griefing_collateral - share(r.griefing_collateral, got, want)?;
                    total = got;
                } else if got > want && !self.v(&r.vault)?.liquidated() {
                    let room = if self.v(&r.vault)?.status == St::Active(true) { self.issuable(&r.vault)? } else { 0 };
                    let extra = (got - want).min(room);
                    self.v(&r.vault)?.tbi += extra;
                    total = want + extra;
                }
                self.unlock(r.griefing_currency, &r.requester, r.griefing_collateral)?;
                let t = self.treasury.clone();
                self.send(r.griefing_currency, &r.requester, &t, slash)?;
            }
        }
        let (amount, fee) = if total == want && !(r.status == IS::Pending && got > want && !self.v(&r.vault)?.liquidated()) {
            (r.amount, r.fee)
        } else {
            let fee = nearest(total, self.p.issue_fee)?;
            (total.checked_sub(fee).ok_or("underflow")?, fee)
        };
        self.tbi_sub(&r.vault, total)?;
        self.issued_add(&r.vault, total)?;
        self.mint(&r.requester, amount);
        let pool = self.fee_pool.clone();
        self.mint(&pool, fee);
        let q = self.s.iss.get_mut(i).unwrap();
        q.amount = amount;
        q.fee = fee;
        q.status = IS::Completed;
        Ok(())
    }
    pub fn inclusion(&self) -> u128 {
        self.p.sat_per_byte * self.p.redeem_size as u128
    }
    fn req_redeem(&mut self, who: &AccountId, n: u128, id: &VaultId, addr_ok: bool) -> Res<()> {
        let c = id.currencies.collateral;
        need(self.free(WRAPPED, who) >= n, "balance")?;
        need(addr_ok, "zero address")?;
        let fee = if *who == id.account_id { 0 } else { nearest(n, self.p.redeem_fee)? };
        let burn = n.checked_sub(fee).ok_or("underflow")?;
        let recv = burn.checked_sub(self.inclusion()).ok_or("dust")?;
        self.not_banned(id)?;
        need(recv >= self.p.redeem_dust, "dust")?;
        // premium: enough to lead the vault back to its secure threshold, no more than the rate
        let for_amount = mul(self.conv(recv, WRAPPED, c)?, self.p.premium_fee)?;
        let v = self.v(id)?;
        let backed = (v.issued + v.tbi).checked_sub(v.tbr).ok_or("underflow")?;
        let stake = v.stake();
        let g = self.par(&self.p.secure, c)?;
        let required = self.conv(muldiv_up(backed, g.into_inner(), ONE)?, WRAPPED, c)?;
        let missing = required.saturating_sub(stake);
        let f = self.p.premium_fee.into_inner();
        let factor = muldiv(f, ONE, g.into_inner().checked_sub(f).ok_or("underflow")?)?;
        // and only from a vault below the premium threshold
        let low = self.below(stake, backed, c, self.par(&self.p.premium, c)?)?;
        let premium = if low { muldiv(missing, factor, ONE)?.min(for_amount) } else { 0 };
        self.try_tbr(id, burn)?;
        self.lock(WRAPPED, who, n)?;
        self.release_replace(id, burn)?;
        let nid = self.fresh()?;
        let addr = self.s.red.get(&nid).map(|x| x.btc_address).unwrap_or_default();
        let r = Red {
            vault: id.clone(),
            opentime: self.s.active,
            period: self.p.redeem_period,
            fee,
            transfer_fee_btc: self.inclusion(),
            amount_btc: recv,
            premium,
            redeemer: who.clone(),
            btc_address: addr,
            btc_height: self.s.tip,
            status: RS::Pending,
        };
        self.s.red.insert(nid, r);
        Ok(())
    }
    fn cancel_redeem(&mut self, who: &AccountId, i: &H256, reimburse: bool) -> Res<()> {
        let r = self.s.red.get(i).cloned().ok_or("no such redeem")?;
        need(r.status == RS::Pending, "not pending")?;
        need(*who == r.redeemer, "not the redeemer")?;
        need(self.expired(r.opentime, r.btc_height, self.p.redeem_period.max(r.period)), "not expired")?;
        let id = r.vault.clone();
        let c = id.currencies.collateral;
        let burn = r.amount_btc + r.transfer_fee_btc;
        let v = self.v(&id)?;
        let (liquidated, tbr, liq_col) = (v.liquidated(), v.tbr, v.liq_col);
        if liquidated {
            let n = share(liq_col, burn, tbr)?;
            sub(&mut self.v(&id)?.liq_col, n)?;
            if reimburse {
                self.tuvc_sub(c, n)?;
                self.unlock(c, &id.account_id, n)?;
                self.send(c, &id.account_id, who, n)?;
            } else {
                self.confiscate(&id, n)?;
            }
        } else {
            let value = self.conv(burn, WRAPPED, c)?;
            let punish = nearest(value, self.p.punish)?;
            let n = if reimburse { value + punish } else { punish }.min(self.v(&id)?.stake());
            self.slash_to(&id, who, n)?;
            self.v(&id)?.banned = Some(self.s.active + self.p.ban);
        }
        let q;
        if reimburse {
            self.fee_in(who, r.fee)?;
            let thr = self.secure(&id)?;
            let v = self.v(&id)?;
            let (stake, issued) = (v.stake(), v.issued);
            if liquidated || self.below(stake, issued, c, thr)? {
                self.burn(who, burn)?;
                self.tbr_sub(&id, burn)?;
                self.issued_sub(&id, burn)?;
                q = RS::Reimbursed(liquidated);
            } else {
                self.unlock(WRAPPED, who, burn)?;
                self.send(WRAPPED, who, &id.account_id, burn)?;
                self.tbr_sub(&id, burn)?;
                q = RS::Reimbursed(true);
            }
        } else {
            self.unlock(WRAPPED, who, burn + r.fee)?;
            self.tbr_sub(&id, burn)?;
            q = RS::Retried;
        }
        self.s.red.get_mut(i).unwrap().status = q;
        Ok(())
    }
}
