//! The questions clients put to a node, and what each is about.
use crate::*;

/// Published name, and the runtime's function that answers it.
pub const KNOWN: &[(&str, &str)] = &[
    ("btcRelay_verifyBlockHeaderInclusion", "verify_block_header_inclusion"),
    ("dexGeneral_calculateRemoveLiquidity", "calculate_remove_liquidity"),
    ("dexGeneral_getAmountInPrice", "get_amount_in_price"),
    ("dexGeneral_getAmountOutPrice", "get_amount_out_price"),
    ("dexGeneral_getEstimateLptoken", "get_estimate_lptoken"),
    ("dexGeneral_getPairByAssetId", "get_pair_by_asset_id"),
    ("dexStable_calculateCurrencyAmount", "calculate_currency_amount"),
    ("dexStable_calculateRemoveLiquidity", "calculate_remove_liquidity"),
    ("dexStable_calculateRemoveLiquidityOneCurrency", "calculate_remove_liquidity_one_currency"),
    ("dexStable_calculateSwap", "calculate_swap"),
    ("dexStable_getA", "get_a"),
    ("dexStable_getAPrecise", "get_a_precise"),
    ("dexStable_getAdminBalance", "get_admin_balances"),
    ("dexStable_getAdminBalances", "get_admin_balances"),
    ("dexStable_getCurrencies", "get_currencies"),
    ("dexStable_getCurrency", "get_currency"),
    ("dexStable_getCurrencyBalances", "get_currency_balances"),
    ("dexStable_getCurrencyIndex", "get_currencies"),
    ("dexStable_getCurrencyPrecisionMultipliers", "get_currency_precision_multipliers"),
    ("dexStable_getLpCurrency", "get_lp_currency"),
    ("dexStable_getNumberOfCurrencies", "get_number_of_currencies"),
    ("dexStable_getVirtualPrice", "get_virtual_price"),
    ("escrow_balanceAt", "balance_at"),
    ("escrow_freeStakable", "free_stakable"),
    ("escrow_totalSupply", "total_supply"),
    ("issue_getIssueRequests", "get_issue_requests"),
    ("issue_getVaultIssueRequests", "get_vault_issue_requests"),
    ("loans_getCollateralLiquidity", "get_account_liquidity"),
    ("loans_getLiquidationThresholdLiquidity", "get_liquidation_threshold_liquidity"),
    ("loans_getMarketStatus", "get_market_status"),
    ("oracle_collateralToWrapped", "collateral_to_wrapped"),
    ("oracle_wrappedToCollateral", "wrapped_to_collateral"),
    ("redeem_getPremiumRedeemVaults", "get_premium_redeem_vaults"),
    ("redeem_getRedeemRequests", "get_redeem_requests"),
    ("redeem_getVaultRedeemRequests", "get_vault_redeem_requests"),
    ("replace_getNewVaultReplaceRequests", "get_new_vault_replace_requests"),
    ("replace_getOldVaultReplaceRequests", "get_old_vault_replace_requests"),
    ("reward_computeEscrowReward", "compute_escrow_reward"),
    ("reward_computeFarmingReward", "compute_farming_reward"),
    ("reward_computeVaultReward", "compute_vault_reward"),
    ("reward_estimateEscrowRewardRate", "estimate_escrow_reward_rate"),
    ("reward_estimateFarmingReward", "estimate_farming_reward"),
    ("reward_estimateVaultRewardRate", "estimate_vault_reward_rate"),
    ("vaultRegistry_getCollateralizationFromVault", "get_collateralization_from_vault"),
    ("vaultRegistry_getCollateralizationFromVaultAndCollateral", "get_collateralization_from_vault_and_collateral"),
    ("vaultRegistry_getIssueableTokensFromVault", "get_issuable_tokens_from_vault"),
    ("vaultRegistry_getPremiumRedeemVaults", "get_premium_redeem_vaults"),
    ("vaultRegistry_getRequiredCollateralForVault", "get_required_collateral_for_vault"),
    ("vaultRegistry_getRequiredCollateralForWrapped", "get_required_collateral_for_wrapped"),
    ("vaultRegistry_getVaultCollateral", "get_vault_collateral"),
    ("vaultRegistry_getVaultTotalCollateral", "get_vault_total_collateral"),
    ("vaultRegistry_getVaultsByAccountId", "get_vaults_by_account_id"),
    ("vaultRegistry_getVaultsWithIssuableTokens", "get_vaults_with_issuable_tokens"),
    ("vaultRegistry_getVaultsWithRedeemableTokens", "get_vaults_with_redeemable_tokens"),
];

/// What a client should hear: the answer (`Some(Ok)`), that there is none (`Some(Err)`).
fn due(name: &str, o: &Outcome, q: &Question) -> Result<Value, ()> {
    let Some(a) = &q.answer else { return Err(()) };
    if name == "btcRelay_verifyBlockHeaderInclusion" {
        return Ok(a.clone()); // the chain's refusal is the answer
    }
    let a = match a {
        Value::Object(o) if o.len() == 1 && o.contains_key("Ok") => o["Ok"].clone(),
        Value::Object(o) if o.len() == 1 && o.contains_key("Err") => return Err(()),
        a => a.clone(),
    };
    let last = o.args.last();
    match name {
        "dexStable_getAdminBalance" => {
            let i: usize = last.and_then(|x| x.as_str()).and_then(|x| x.parse().ok()).unwrap_or(usize::MAX);
            a.as_array().and_then(|a| a.get(i).cloned()).ok_or(())
        }
        "dexStable_getCurrencyIndex" => a.as_array().and_then(|a| a.iter().position(|c| Some(c) == last)).map(|i| Value::String(i.to_string())).ok_or(()),
        "dexStable_getCurrency" | "dexStable_getLpCurrency" if a.is_null() => Err(()),
        _ => Ok(a),
    }
}
pub fn one(case: &mut Case, r: &mut R, name: &'static str, asks: &'static str) {
    let servers: Vec<_> = METHODS.iter().filter(|m| m.0 == name).collect();
    if !case.check(servers.len() == 1, "a question clients ask is not taken by one server", || format!("{name}: {}", servers.len())) {
        return;
    }
    for _ in 0..40 {
        let Some(o) = case.total("a question stops the node", || name.into(), || servers[0].1(r)) else { return };
        let ctx = || format!("{name}: {o:#?}");
        if !case.check(o.asked.len() == 1, "a client's question is not put to the chain once", ctx) {
            return;
        }
        let q = &o.asked[0];
        // which of a pair of like currencies or amounts is which matters: arguments are compared in order
        let args: &[Value] = match name {
            "dexStable_getAdminBalance" | "dexStable_getCurrencyIndex" => &o.args[..o.args.len() - 1],
            _ => &o.args,
        };
        case.check(q.what == asks, "a client's question is taken for another", ctx);
        case.check(q.args == args, "a client's question reaches the chain with other particulars", ctx);
        case.check(q.at == o.at, "a client's question is put to another block", ctx);
        case.event(if o.named { "at a named block" } else { "at the best block" });
        let want = due(name, &o, q);
        match (&want, &o.said) {
            (Ok(w), Ok(s)) => {
                case.check(w == s, "a client hears other than the chain's answer", ctx);
                case.event("answer");
                case.event(&format!("answer: {name}"));
                case.state_dbg(&(name, s.to_string()));
            }
            (Err(_), Err(_)) => case.event(if q.answer.is_none() { "runtime stopped" } else { "refusal" }),
            _ => case.violate("a client hears other than the chain's answer", ctx()),
        }
        case.eval(4);
        if case.failed() {
            return;
        }
    }
}
