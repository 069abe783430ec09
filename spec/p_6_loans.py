from common import P, RT
H = ["histories", "inputs"]
L, I, M = "crates/loans/src/lib.rs", "crates/loans/src/interest.rs", "crates/loans/src/rate_model.rs"
PROPS = [
P("L01", "Lending conserves value: what lenders own never falls and debts add up",
  "Every lending operation moves exactly the amounts it names between the caller, the market and the records of debts and reserves, changes nothing of anybody else, and changes nothing when refused. What a lend token is worth never falls by more than the rounding of one unit, the recorded total of a market's debts is what its borrowers owe up to rounding, and lend tokens exist only against deposits. An ordinary market never stops serving its users.",
  H, "all sequences of lending, redeeming, borrowing, repaying, liquidating, collateral switches, transfers, gifts and reserve payments by several users over several markets, all amounts, prices and times",
  "Rounding leaks, stale totals and couplings between markets need sequences with odd amounts and elapsed time; tests play a few steps with round numbers.",
  [L], [("lending and redeeming", L + " mint / redeem / do_redeem_voucher"), ("borrowing and repaying", L + " borrow / repay_borrow"), ("liquidation", L + " do_liquidate_borrow / liquidated_transfer"), ("reserves", L + " add_reserves / reduce_reserves")],
  "runtime monitoring: random histories on the lending pallet, every operation's effect on every balance, debt and market total compared with a model", RT + "Known finding: a gift to a nearly empty market stops it. ",
  state=[("markets, debts, deposits, reserves", "records of each market", L)]),
P("L02", "Interest accrues at the market's rate for exactly the time that passed",
  "Whenever a market is used, its debts have grown by the rate its model gives at its utilization for the time since they last grew, compounded per second, and every borrower owes its principal times the growth since. The reserves get their share of the interest and nothing else changes. New terms apply only from when they are set.",
  H, "all rate models and utilizations, all elapsed times from a second to years, all sequences of operations and governance changes between",
  "Compounding, utilization at the moment of accrual and the order of accrual and change only show over varied times; tests sample a few.",
  [I, M], [("accrual", I + " accrue_interest / get_market_status"), ("rates", M + " get_borrow_rate"), ("debts", L + " current_borrow_balance"), ("changes of terms", L + " update_rate_model / update_market")],
  "runtime monitoring: at every step of random histories the accrual is taken on a rolled-back copy and bounded by exact compound growth computed independently", RT,
  state=[("borrow index, totals, last accrual", "interest state", I)]),
P("L03", "Credit needs collateral, and only insolvent debts can be liquidated",
  "An account borrows, redeems or withdraws collateral only while its collateral, cut by each market's factor at current prices, covers its debts, within caps and cash; lend tokens are either all locked as collateral or all free, and only locked ones count. A debt is liquidated only when collateral at the threshold no longer covers the debts, up to the close factor, seizing the repaid value plus the incentive, of which the treasury gets its share. What satisfies the rules is not refused.",
  H, "all sequences of operations by several users over several markets at all prices, factors and caps, amounts around every limit, any pair of liquidated and collateral currencies",
  "The rules couple all of an account's positions, prices, interest and rounding directions; tests sample fixed factors.",
  [L], [("solvency", L + " get_account_liquidity / ensure_liquidity"), ("collateral switch", L + " deposit_all_collateral / withdraw_all_collateral / lock_if_account_deposited"), ("liquidation", L + " liquidate_borrow_allowed / do_liquidate_borrow")],
  "runtime monitoring: random histories, every acceptance and refusal and every seizure judged by an independent account of collateral and debts", RT + "Debts in other markets may count as of their last update, as in the code. ",
  state=[("account debts, deposits, locks", "positions", L)]),
P("L04", "Lending incentives are paid in proportion to stake and time, once",
  "Each block's incentive of a market is shared among suppliers by lend tokens held and among borrowers by debt, whatever operations happen between, including transfers, liquidations and changes of speed. A claim pays all that is due and leaves nothing owed, from the incentive pool only; if the pool cannot pay, nothing is lost.",
  H, "all sequences of operations, transfers, liquidations and changes of reward speed between blocks, any number of claims by any account",
  "Every operation must settle the right accounts first; a forgotten settlement only shows when rewards are compared over a history.",
  [L, "crates/loans/src/farming.rs"], [("settlement", "crates/loans/src/farming.rs update_reward_supply_index / update_reward_borrow_index / distribute_supplier_reward / distribute_borrower_reward"), ("payment", L + " claim_reward / pay_reward"), ("transfers", "crates/loans/src/lib.rs OnSlash / PreTransfer / PostTransfer hooks")],
  "runtime monitoring: random histories, rewards accumulated per block independently and compared with what a claim would pay after every step", RT,
  state=[("reward indices, speeds, accrued rewards", "incentive state", L)]),
P("L05", "Only governance changes markets, within bounds and nothing else",
  "Markets are added, activated, changed and given incentives only by governance, with rate models, factors and caps within their valid ranges whichever way they are set piece by piece, and a lend token belongs to one market. Such a call changes the named market's terms and nothing else, and a refused one changes nothing.",
  H, "all governance calls with valid and invalid parameters, by any origin, at any state of the markets",
  "Each partial update must validate the combination of old and new values; tests try single bad values.",
  [L, M], [("markets", L + " add_market / activate_market / update_market / force_update_market / update_rate_model"), ("validation", M + " check_model"), ("speeds", L + " update_market_reward_speed")],
  "runtime monitoring: governance calls with random parameters woven into histories, acceptance and effect compared with a model", RT,
  state=[("market records", "terms", L)]),
P("L06", "What the chain says of markets and accounts is what acting shows",
  "The reported status of a lending market (debts, reserves, index, price of a lend token, utilization, rates of borrowers and lenders) is what any operation at that moment would record, also for a market not used yet, and its terms are those stored. The reported liquidity of an account is what it can borrow and no more, and it is reported short exactly when it can be liquidated; lend tokens are redeemed and issued for what they are reported to be worth.",
  H, "all states of markets and accounts that lending, borrowing, liquidations, prices, governance and time lead to",
  "Interfaces, liquidators and other pallets act on these answers; that they agree with the operations depends on interest not yet recorded, rounding and prices of the moment, and tests look at fixed states.",
  [L, I, "crates/loans/src/types.rs"], [("status", I + " get_market_status"), ("liquidity", L + " get_account_liquidity / get_account_liquidation_threshold_liquidity"), ("to callers", "crates/loans/src/types.rs to_rpc_tuple"), ("market data for others", L + " LoansMarketDataProvider"), ("conversion", L + " recompute_underlying_amount / recompute_collateral_amount")],
  "runtime monitoring: before every step of random lending histories all answers are compared with a model and with the operations themselves, made on a copy of the state that is rolled back", RT),
]
