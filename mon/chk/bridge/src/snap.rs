//! Plain-data snapshot of the bridge, read from the chain's storage.
use codec::{Decode, Encode};
use primitives::{issue::IssueRequest, redeem::RedeemRequest, replace::ReplaceRequest, VaultCurrencyPair};
use rt::{runtime::*, world::*};
use sp_core::H256;
use sp_runtime::FixedU128;
use std::collections::BTreeMap;

pub type Iss = IssueRequest<AccountId, BlockNumber, Balance, CurrencyId>;
pub type Red = RedeemRequest<AccountId, BlockNumber, Balance, CurrencyId>;
pub type Rep = ReplaceRequest<AccountId, BlockNumber, Balance, CurrencyId>;
pub type Pair = VaultCurrencyPair<CurrencyId>;
pub const FX: i128 = 1_000_000_000_000_000_000;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum St {
    Active(bool),
    Liquidated,
}
/// One staking pool (one nonce of a vault): fixed point, 18 digits.
#[derive(Clone, Debug, Default, PartialEq)]
pub struct Pool {
    pub total: i128,
    pub stake: BTreeMap<AccountId, i128>,
}
#[derive(Clone, Debug, PartialEq)]
pub struct V {
    pub status: St,
    pub banned: Option<BlockNumber>,
    pub custom: Option<FixedU128>,
    pub tbi: u128,
    pub issued: u128,
    pub tbr: u128,
    pub tbrepl: u128,
    pub repl_col: u128,
    pub act_repl: u128,
    pub liq_col: u128,
    pub pools: Vec<Pool>,
    pub opted: bool,
    pub limit: u128,
}
impl V {
    pub fn cur(&self) -> &Pool {
        self.pools.last().unwrap()
    }
    pub fn stake(&self) -> u128 {
        (self.cur().total / FX) as u128
    }
    pub fn own(&self, op: &AccountId) -> u128 {
        (self.cur().stake.get(op).copied().unwrap_or(0) / FX) as u128
    }
    pub fn liquidated(&self) -> bool {
        self.status == St::Liquidated
    }
}
#[derive(Clone, Debug, PartialEq, Default)]
pub struct L {
    pub tbi: u128,
    pub issued: u128,
    pub tbr: u128,
    pub col: u128,
}
/// Parameters, as the history set them.
#[derive(Clone, Debug, PartialEq)]
pub struct Par {
    pub secure: BTreeMap<u32, FixedU128>,
    pub premium: BTreeMap<u32, FixedU128>,
    pub liq: BTreeMap<u32, FixedU128>,
    pub ceiling: BTreeMap<u32, u128>,
    pub min_col: BTreeMap<u32, u128>,
    pub rate: BTreeMap<u32, FixedU128>,
    pub sat_per_byte: u128,
    pub issue_fee: FixedU128,
    pub issue_grief: FixedU128,
    pub redeem_fee: FixedU128,
    pub premium_fee: FixedU128,
    pub punish: FixedU128,
    pub repl_grief: FixedU128,
    pub issue_period: u32,
    pub redeem_period: u32,
    pub replace_period: u32,
    pub issue_dust: u128,
    pub redeem_dust: u128,
    pub replace_dust: u128,
    pub redeem_size: u32,
    pub ban: u32,
    pub nomination: bool,
}
/// Who and what exists in the history.
#[derive(Clone, Debug)]
pub struct Uni {
    pub ops: Vec<AccountId>,
    pub users: Vec<AccountId>,
    pub cols: Vec<CurrencyId>,
    pub ids: Vec<VaultId>,
}
impl Uni {
    pub fn ix(&self, v: &VaultId) -> usize {
        self.ids.iter().position(|x| x == v).expect("vault outside the universe")
    }
    pub fn ci(&self, c: &CurrencyId) -> u32 {
        self.cols.iter().position(|x| x == c).map(|i| i as u32).unwrap_or(u32::MAX)
    }
    pub fn all(&self) -> Vec<AccountId> {
        self.users.iter().chain(&self.ops).cloned().collect()
    }
}
#[derive(Clone, Debug)]
pub struct Snap {
    pub v: Vec<Option<V>>,
    pub liq: BTreeMap<u32, L>,
    pub tuvc: BTreeMap<u32, u128>,
    pub led: BTreeMap<(CurrencyId, AccountId), (u128, u128)>,
    pub iss: BTreeMap<H256, Iss>,
    pub red: BTreeMap<H256, Red>,
    pub rep: BTreeMap<H256, Rep>,
    pub issuance: u128,
    pub active: BlockNumber,
    pub tip: u32,
    pub keys: Vec<bool>,
}
pub fn pair(c: CurrencyId) -> Pair {
    VaultCurrencyPair { collateral: c, wrapped: WRAPPED }
}
pub fn raw_key(pallet: &str, item: &str, k: &impl Encode) -> Vec<u8> {
    let e = k.encode();
    [
        sp_io::hashing::twox_128(pallet.as_bytes()).to_vec(),
        sp_io::hashing::twox_128(item.as_bytes()).to_vec(),
        sp_io::hashing::blake2_128(&e).to_vec(),
        e,
    ]
    .concat()
}
pub fn raw<T: Decode>(pallet: &str, item: &str, k: &impl Encode) -> Option<T> {
    sp_io::storage::get(&raw_key(pallet, item, k)).map(|b| T::decode(&mut &b[..]).unwrap())
}
pub fn take(u: &Uni, iss: &[H256], red: &[H256], rep: &[H256]) -> Snap {
    use vault_registry::types::VaultStatus;
    let all = u.all();
    let v = u
        .ids
        .iter()
        .map(|id| {
            let v = VaultRegistry::get_vault_from_id(id).ok()?;
            let nonce = VaultStaking::nonce(id);
            let pools = (0..=nonce)
                .map(|n| Pool {
                    total: VaultStaking::total_current_stake_at_index(n, id).into_inner(),
                    stake: all
                        .iter()
                        .map(|a| (a.clone(), VaultStaking::compute_precise_stake_at_index(n, id, a).expect("stake").into_inner()))
                        .filter(|x| x.1 != 0)
                        .collect(),
                })
                .collect();
            Some(V {
                status: match v.status {
                    VaultStatus::Active(b) => St::Active(b),
                    VaultStatus::Liquidated => St::Liquidated,
                },
                banned: v.banned_until,
                custom: v.secure_collateral_threshold,
                tbi: v.to_be_issued_tokens,
                issued: v.issued_tokens,
                tbr: v.to_be_redeemed_tokens,
                tbrepl: v.to_be_replaced_tokens,
                repl_col: v.replace_collateral,
                act_repl: v.active_replace_collateral,
                liq_col: v.liquidated_collateral,
                pools,
                opted: Nomination::is_opted_in(id),
                limit: Nomination::get_nomination_limit(id).amount(),
            })
        })
        .collect();
    let liq = u
        .cols
        .iter()
        .map(|c| {
            let l = VaultRegistry::get_liquidation_vault(&pair(*c));
            (u.ci(c), L { tbi: l.to_be_issued_tokens, issued: l.issued_tokens, tbr: l.to_be_redeemed_tokens, col: l.collateral })
        })
        .collect();
    Snap {
        v,
        liq,
        tuvc: u.cols.iter().map(|c| (u.ci(c), raw("VaultRegistry", "TotalUserVaultCollateral", &pair(*c)).unwrap_or(0u128))).collect(),
        led: ledger().into_iter().filter(|x| x.1 != (0, 0)).collect(),
        iss: iss.iter().filter_map(|i| Some((*i, Issue::issue_requests(i)?))).collect(),
        red: red.iter().filter_map(|i| Some((*i, Redeem::redeem_requests(i)?))).collect(),
        rep: rep.iter().filter_map(|i| Some((*i, raw("Replace", "ReplaceRequests", i)?))).collect(),
        issuance: issuance(WRAPPED),
        active: active(),
        tip: BTCRelay::get_best_block_height(),
        keys: u.ops.iter().map(|a| VaultRegistry::get_bitcoin_public_key(a).is_ok()).collect(),
    }
}
