from common import P, RT
I, R, L, V, N, F = ("crates/%s/src/" % x for x in ("issue", "redeem", "replace", "vault-registry", "nomination", "fee"))
H = ["histories", "inputs", "configurations"]
HT = "all histories of bridge calls by any accounts in any order and with any amounts, with Bitcoin payments, price moves, passing blocks and parameter changes in between, for several vaults, collateral currencies, users and nominators"
T = "runtime monitoring: long random histories of the real pallets composed as in the runtime, "
NT = RT + "Histories in which rewards per token leave the range of the 128-bit fixed point type end there (a documented limit of the reward pools). "
PROPS = [
P("V01", "Wrapped tokens are backed one to one by bitcoin in custody",
  "After every operation the number of wrapped tokens in existence equals what all vaults together, including liquidated ones, account for as issued, and equals the sum of all balances. It never exceeds the satoshi that were paid into executed issues and not paid out by executed redeems. Tokens come into existence only for a confirmed payment, or when a vault takes back a redeem it had reimbursed.",
  H, HT,
  "Unit tests mock the neighbouring pallets and check single calls; the peg is a statement about all histories across issue, redeem, replace, liquidation and fees together.",
  [I + "lib.rs", R + "lib.rs", V + "lib.rs", V + "types.rs", F + "lib.rs"],
  [("minting", I + "lib.rs _execute_issue"), ("burning", R + "lib.rs _execute_redeem / liquidation_redeem / cancel_redeem"), ("issued tokens", V + "types.rs RichVault")],
  T + "conservation checked after every call", NT,
  state=[("issued tokens", "what each vault and the liquidation vault stand for", V + "types.rs")]),
P("V02", "Reserved tokens of vaults always match the open requests",
  "After every operation, what a vault (or, once it is liquidated, the liquidation vault) has reserved for pending issues, redeems and replacements equals the sum over the requests that are open, and a vault never owes more than it issued. Collateral is set aside for a replacement or a liquidated vault's redeems only while these are open.",
  H, HT,
  "A reservation that is not released, or released twice, shows only in some order of requests, expiries, liquidations and late executions, which single-call tests with mocked vaults do not run.",
  [V + "lib.rs", V + "types.rs", I + "lib.rs", R + "lib.rs", L + "lib.rs"],
  [("to-be-issued, to-be-redeemed and to-be-replaced tokens", V + "lib.rs"), ("liquidation", V + "types.rs liquidate")],
  T + "reservations compared with the sum over open requests after every call", NT),
P("V03", "Every locked balance is accounted for, and every account can be paid",
  "After every operation each account's locked balance in each currency equals what is owed for it: stakes in its vaults' pools, collateral of liquidated vaults, replacement collateral, griefing deposits of its open issues and tokens in its open redeems. The recorded total collateral per currency equals the sum over its vaults, and the stakes of a pool add up to the pool's total. Nothing is created or lost: the sum of balances of each currency stays equal to its issuance.",
  H, HT,
  "Locked funds without an owner, or owed funds not locked, arise from combinations (slashing with stale pools, cancellation after liquidation) outside the sampled cases.",
  [V + "lib.rs", V + "types.rs", N + "lib.rs", "crates/staking/src/lib.rs", "crates/currency/src/amount.rs"],
  [("collateral movements", V + "lib.rs transfer_funds / slash_collateral"), ("pools", "crates/staking/src/lib.rs")],
  T + "every balance of every account reconciled after every call", NT),
P("V04", "Vaults register, set their terms and move collateral only within the rules",
  "Registering needs a public key, the minimum collateral and room below the ceiling, and each vault exists once; an operator can withdraw collateral exactly when the remainder stays above the minimum and covers all issued and promised tokens at the vault's secure threshold; its own threshold may never be below the system's. Whatever the rules allow is accepted and has exactly its stated effect, and all else is refused without effect.",
  H, HT,
  "The rule quantifies over collateral, prices, thresholds and promised tokens; tests fix one price and one threshold.",
  [V + "lib.rs", V + "types.rs", N + "lib.rs"],
  [("registration", V + "lib.rs _register_vault"), ("withdrawal rule", V + "lib.rs is_allowed_to_withdraw_collateral"), ("threshold", V + "lib.rs get_vault_secure_threshold")],
  T + "every call and its whole effect compared with an executable specification", NT),
P("V05", "Issuing mints what was paid for, to the one who asked, once",
  "An issue is accepted only within what the vault's collateral allows at its secure threshold, locks the griefing deposit, and executes only with a confirmed payment: for the exact amount as requested, for less on the requester's wish with a proportional part of the deposit slashed, for more as far as the vault has capacity. The requester gets the amount less fee, the fee goes to the reward pool, and a request is executed or cancelled once; cancelling needs expiry and pays the deposit to the vault. Whatever the rules allow is accepted and has exactly this effect.",
  H, HT,
  "Exact amounts after rounding, refunds, over- and underpayment, expiry by two clocks and liquidation in between are combinations; tests mock the payment check and the vault.",
  [I + "lib.rs", V + "lib.rs", F + "lib.rs"],
  [("request", I + "lib.rs _request_issue"), ("execution", I + "lib.rs _execute_issue"), ("cancellation", I + "lib.rs _cancel_issue")],
  T + "every call and its whole effect compared with an executable specification", NT),
P("V06", "Redeeming pays bitcoin, or compensates from the vault's collateral, once",
  "A redeem locks the tokens, executes only with a confirmed payment of the exact amount to the given address with the request's reference, then burns them, pays the fee and any promised premium. After expiry it is either retried with a punishment paid to the user, or reimbursed at the exchange rate plus punishment, the vault being banned; tokens of a reimbursed redeem that the vault still covers are held for it, and minted to it later once. Whatever the rules allow is accepted and has exactly this effect, and all else is refused without effect.",
  H, HT,
  "Premiums, punishments and reimbursements depend on collateral, price, nomination, liquidation and fees at three different moments; tests fix one and mock the rest.",
  [R + "lib.rs", V + "lib.rs", F + "lib.rs"],
  [("request", R + "lib.rs _request_redeem"), ("execution", R + "lib.rs _execute_redeem"), ("cancellation", R + "lib.rs _cancel_redeem"), ("reimbursed", R + "lib.rs _mint_tokens_for_reimbursed_redeem")],
  T + "every call and its whole effect compared with an executable specification", NT),
P("V07", "Replacing moves exactly the agreed tokens between vaults",
  "A vault can offer at most its free issued tokens, with griefing collateral; another accepts within its capacity after locking collateral. A confirmed payment moves exactly that amount of issued tokens from the old to the new vault and returns the griefing collateral; after expiry a cancellation gives it to the new vault and frees the reservations. Whatever the rules allow is accepted and has exactly this effect, and all else is refused without effect.",
  H, HT,
  "Both vaults may be liquidated, repriced, banned or opted into nomination between the steps; tests mock the registry.",
  [L + "lib.rs", V + "lib.rs"],
  [("request", L + "lib.rs _request_replace"), ("acceptance", L + "lib.rs _accept_replace"), ("execution", L + "lib.rs _execute_replace"), ("tokens", V + "lib.rs replace_tokens")],
  T + "every call and its whole effect compared with an executable specification", NT),
P("V08", "Undercollateralized vaults are liquidated, and their tokens stay redeemable",
  "A vault can be liquidated exactly when its collateral is below its issued tokens at the liquidation threshold; its tokens then move to the liquidation vault with collateral up to the secure threshold, its operator's before its nominators', the part for open redeems staying set aside. Holders can burn liquidated tokens for their exact proportion of that collateral. A liquidated vault can start anew once nothing of its old life is open, and everything still open then can be closed.",
  H, HT,
  "The split of collateral among issued, promised and nominated parts is over all states a vault can be in at the moment of liquidation; tests construct one or two.",
  [V + "lib.rs", V + "types.rs", R + "lib.rs"],
  [("liquidation", V + "types.rs liquidate"), ("liquidation redeem", V + "lib.rs redeem_tokens_liquidation"), ("recovery", V + "lib.rs recover_vault_id")],
  T + "every call and its whole effect compared with an executable specification", NT),
P("V09", "Rewards follow collateral, and everything earned can be claimed once",
  "After every operation a vault's share of its currency's rewards is its collateral divided by its secure threshold, nothing if it is liquidated or accepts no issues, and the currency's share is the value of those together. Everyone can claim, a claim pays exactly what was announced and nothing a second time, and all claims together pay out the fee pool up to rounding.",
  H, HT,
  "Reward accounting is lazy: errors show only when the right mixture of deposits, slashes, rate changes and claims has happened since the last update.",
  [F + "lib.rs", V + "pool_manager.rs", "crates/reward/src/lib.rs", "crates/staking/src/lib.rs"],
  [("shares", V + "pool_manager.rs"), ("distribution and claims", F + "lib.rs distribute_vault_rewards / withdraw_vault_rewards")],
  T + "shares checked after every call, and all rewards claimed at the end of each history", NT + "The payout bound is not judged after a pool lost all but a millionth of its stake to slashes, where fixed-point rounding is magnified. "),
P("V10", "Everything can be unwound: no request, token or collateral is ever stuck",
  "From every reachable state: once expired, every open request can be closed and leaves no reservation behind; liquidated tokens can be redeemed in full; every vault can redeem all it issued; and then every operator and nominator, of current and former pools, can withdraw their whole stake, after which no tokens exist and nothing is locked but rounding dust and what was seized.",
  H, HT,
  "It is a reachability claim about all states; tests never try to empty the system.",
  [I + "lib.rs", R + "lib.rs", L + "lib.rs", V + "lib.rs", N + "lib.rs"],
  [("cancellations", I + "lib.rs / " + R + "lib.rs / " + L + "lib.rs"), ("withdrawals", N + "lib.rs _withdraw_collateral"), ("liquidation redeem", V + "lib.rs")],
  T + "each history is unwound to nothing at its end", NT),
P("V11", "What the bridge announces is what happened, once and with the right amounts",
  "Every accepted registration, request, execution, cancellation, liquidation, ban, deposit and withdrawal is announced exactly once, with its identifier, its parties, the payment address and exactly the amounts that moved, and nothing else is announced. The announced totals of locked collateral add up to what is locked. A refused call announces nothing.",
  H, HT,
  "Vaults and users act on announcements alone (a vault pays bitcoin on one), in every state a request can be in; tests compare single announcements of single calls.",
  [I + "lib.rs", R + "lib.rs", L + "lib.rs", V + "lib.rs", N + "lib.rs"],
  [("announcements", I + "lib.rs / " + R + "lib.rs / " + L + "lib.rs / " + N + "lib.rs deposit_event"), ("vault announcements", V + "lib.rs deposit_event")],
  T + "the announcements of each accepted call are compared, field by field, with the difference between the states before and after it", NT),
P("V12", "What users are told about vaults and requests is what the chain then does",
  "The lists of a user's and a vault's requests, the vaults that can still issue or redeem and for how much, a vault's collateralization and required collateral, and a nominator's stake are answered exactly as the state says. The vaults said to pay a premium are those whose redeems are promised one, and redeeming the amount named earns the highest premium there is. A node's worker reports exactly the vaults that can be liquidated, and nothing else is accepted without a signature, nor such a report from the network.",
  H, HT,
  "Users choose vaults, and nodes liquidate, by these answers alone, in whatever state vaults are; tests query single prepared vaults.",
  [V + "lib.rs", R + "lib.rs", I + "lib.rs", L + "lib.rs", N + "lib.rs"],
  [("vault queries", V + "lib.rs get_vaults_with_issuable_tokens / get_collateralization_from_vault / get_premium_redeem_vaults"), ("off-chain worker", V + "lib.rs _offchain_worker / validate_unsigned"), ("request lists", I + "lib.rs / " + R + "lib.rs / " + L + "lib.rs get_*_requests_for_*")],
  T + "answers compared with the observed state, and with dry runs of the redeems and reports they promise", NT),
P("N01", "Nominators share a vault's pool fairly and can leave when it opts out",
  "Nomination is possible only with vaults that opted in and up to the vault's limit; a nominator owns a proportional part of the pool, shares slashes in proportion, and can withdraw whatever leaves the vault above its secure threshold. When the vault opts out all stakes move to a closed pool, from which they can be withdrawn at any time, unaffected by what happens to the vault later. Whatever the rules allow is accepted and has exactly this effect, and all else is refused without effect.",
  H, HT,
  "Stale pools, slashes before and after opting out, and withdrawals by index interact; tests run one nominator through one path.",
  [N + "lib.rs", V + "pool_manager.rs", "crates/staking/src/lib.rs"],
  [("deposit and withdrawal", N + "lib.rs _deposit_collateral / _withdraw_collateral"), ("opting out", N + "lib.rs _opt_out_of_nomination, crates/staking/src/lib.rs force_refund")],
  T + "every call and its whole effect compared with an executable specification", NT),
]
