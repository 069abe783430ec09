from common import P, RT
H = ["histories", "inputs"]
DG, DS, DR = "crates/dex-general/src/swap/mod.rs", "crates/dex-stable/src/lib.rs", "crates/dex-swap-router/src/lib.rs"
PROPS = [
P("D01", "Constant product pairs: no trade or exit takes more than its share",
  "No trade lowers the product of a pair's reserves; it pays what the product and the fee give, within the caller's limits, or changes nothing. Adding liquidity takes both assets in proportion and withdrawing pays the proportion of the supply held, so no holder's share of the reserves falls by what others do except by the protocol's cut of the fees, which comes only out of growth. Pair accounts hold the reserves, and only governance creates pairs and sets fees.",
  H, "all sequences of trades along any paths, additions and withdrawals of liquidity, donations and changes of fees, by any accounts over several pairs, all amounts",
  "Rounding, repeated paths and the timing of the fee only show over sequences of trades with odd amounts; tests run single trades.",
  [DG], [("quotes", DG + " get_amount_out / get_amount_in"), ("trades along a path", DG + " swap / pair_swap"), ("liquidity", DG + " inner_add_liquidity / inner_remove_liquidity"), ("protocol fee", DG + " mint_protocol_fee")],
  "runtime monitoring: random histories on the exchange pallet, every trade and change of liquidity judged by its effects on every balance against exact integer arithmetic", RT,
  state=[("pair statuses, supply of liquidity tokens, last product", "pairs", "crates/dex-general/src/lib.rs")]),
P("D02", "A pair's bootstrap keeps contributions apart and returns or shares them exactly",
  "While a pair is bootstrapped it records what each account contributed; a contribution is taken only before the deadline, below the limits and within what is allowed. If the targets are reached the pair opens with exactly what was contributed and each contributor claims liquidity in proportion, once; otherwise each gets back exactly its contribution, once. Promised extra rewards are shared in the same proportion, and only governance opens, changes or closes bootstraps.",
  H, "all sequences of contributions, openings, closings, claims, refunds and changes of parameters, by any accounts at any blocks, all amounts",
  "Conservation couples many contributors, both outcomes and the order of claims and refunds; tests play one contributor through.",
  [DG], [("contributions", DG + " do_bootstrap_contribute"), ("opening", DG + " do_end_bootstrap"), ("claims and refunds", DG + " do_bootstrap_claim / do_bootstrap_refund")],
  "runtime monitoring: random bootstrap histories, every contribution, claim, refund and reward compared with a model and every balance accounted for", RT + "Known finding: governance can withdraw bootstrap rewards after a claim and then takes what others are owed. ",
  state=[("bootstrap statuses and personal supplies", "contributions", "crates/dex-general/src/lib.rs")]),
P("D03", "What the exchanges quote is what the trade then gives",
  "The quoted output of a sale, price of a purchase, shares for liquidity and amounts for shares are what the same trade on the same state gives, and nothing is quoted for a trade that is not possible; a quote for a stable pool may be careful by two units. Estimates that leave out fees are exact without fees and within them otherwise. Pairs and pools are described as they are stored, and no question makes the node fail.",
  H, "all states of pairs, stable pools and pools over pools that trades, changes of fees, ramps and time lead to, and all amounts, paths, indices and lists asked about",
  "Users and interfaces set their limits by these quotes; whether they agree with the trade depends on fees, ramps and cached prices of the moment, and tests compare single fixed pools.",
  ["crates/dex-general/src/rpc.rs", "crates/dex-stable/src/rpc.rs", "crates/dex-stable/src/traits.rs"], [("pair quotes", "crates/dex-general/src/rpc.rs supply_out_amount / desired_in_amount / get_estimate_lptoken / calculate_remove_liquidity"), ("pool quotes", "crates/dex-stable/src/traits.rs stable_amm_calculate_*"), ("descriptions", "crates/dex-stable/src/rpc.rs get_*")],
  "runtime monitoring: in random histories of the exchanges random quotes are compared with the trade itself, made on a copy of the state that is rolled back", RT),
P("X01", "Stable pools trade along their invariant and keep what they owe",
  "Every trade, addition and withdrawal on a stable pool moves its balances along the pool's invariant for the amplification of that moment, less the fees, so the value of a share never falls and a trade pays what the curve gives, to the named recipient, within the caller's limits. Recorded balances plus administrative fees are covered by the pool's account. Amplification moves linearly between its announced values; pools over pools value the share at the recorded price; only governance sets pools, fees and amplification, within range.",
  H, "all sequences of trades, additions, withdrawals in any form, ramps of the amplification and calls across two pools, for pools of 2 to 5 currencies with any decimals, all amounts",
  "The invariant has no closed form and is solved by iteration, so errors depend on balances, decimals, amplification and rounding; tests check fixed vectors.",
  [DS], [("invariant", DS + " get_d / get_y / get_yd"), ("trades", DS + " inner_swap / calculate_base_swap_amount / calculate_meta_swap"), ("liquidity", DS + " inner_add_liquidity / inner_remove_liquidity*"), ("across pools", DS + " inner_swap_pool_from_base / inner_swap_pool_to_base")],
  "runtime monitoring: random histories on base and meta pools, every amount compared with an independent high-precision solution of the invariant and every balance accounted for", RT + "Amounts are compared up to the few units by which the integer iteration is off. ",
  state=[("pools with balances and amplification ramps", "reserves and curve", "crates/dex-stable/src/lib.rs")]),
P("X02", "A routed trade does exactly what its hops do one after another",
  "A trade over a route through pairs and stable pools has the effect of the same trades made one by one with the output of each as the input of the next, the last paid to the recipient. It happens whole or not at all: below the minimum, after the deadline or with a failing hop nothing changes.",
  H, "all routes over pairs, stable pools and pools over pools, all amounts, limits, deadlines and recipients, in any state of the pools",
  "The states of all pools on a route and the failure of a later hop matter; tests route over a handful of fixed pools.",
  [DR], [("routing", DR + " swap_exact_tokens_for_tokens / validate_routes"), ("single pool", DR + " stable_swap / swap")],
  "runtime monitoring: metamorphic comparison of every routed trade with the same hops made one by one on a rolled-back copy of the state, all balances compared", RT),
]
