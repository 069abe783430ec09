from common import P, RT
H = ["histories", "inputs"]
RW, ST = "crates/reward/src/lib.rs", "crates/staking/src/lib.rs"
PROPS = [
P("W01", "Reward pools pay every staker its exact share, once",
  "For every history of deposits, withdrawals, distributions and claims, a reward pool owes each staker the sum over all distributions of its proportion of the stake at that time, less what it claimed, up to rounding down below one unit per claim. Changes of stake do not change what anyone is owed, claims pay what was announced and pay it once, no more is paid than was distributed, and pools and currencies do not influence each other. More than a stake cannot be withdrawn, and a distribution without stake is refused.",
  H, "all sequences of operations by any stakers with any amounts, pools and currencies within the range of the 128-bit fixed point type",
  "Proportionality and conservation are statements about all orders of deposits, withdrawals and claims, with rounding; unit tests run a few short scripts.",
  [RW], [("deposit and withdrawal with tallies", RW + " deposit_stake / withdraw_stake"), ("distribution", RW + " distribute_reward"), ("claims", RW + " compute_reward / withdraw_reward")],
  "runtime monitoring: random histories on the runtime's four reward pools, every stake and every announced reward compared with exact integer arithmetic after every step", RT,
  state=[("reward per token, tallies", "bookkeeping of shares", RW)]),
P("K01", "Vault staking pools share slashes and rewards in proportion, across refunds",
  "Every member's stake in a vault's pool is its deposits less withdrawals and less its proportion of every slash, a reward is shared in proportion to what is left of the stakes, and a slash that leaves something takes no reward away. A refund of nominators moves the operator's stake to a new pool, and what members had in the old one stays theirs to withdraw and claim. Claims pay what was announced, once, and never more than was distributed.",
  H, "all sequences of deposits, withdrawals, slashes, distributions, claims and refunds by any members, while at least a ten-thousandth of a pool's stake is left and amounts stay within the range of the 128-bit fixed point type",
  "Slashes are applied lazily per member, so errors show only for particular orders of slashes and actions of several members; tests run a few scripts with one or two members.",
  [ST], [("slash", ST + " slash_stake / apply_slash"), ("rewards", ST + " increase_rewards / compute_reward_at_index"), ("refund", ST + " force_refund")],
  "runtime monitoring: random histories on the vault staking pools, every stake and reward of every pool generation compared with exact arithmetic after every step", RT + "Known finding: a slash is shared by recorded stakes when only some members were settled since an earlier slash. ",
  state=[("slash per token, tallies, pool generation", "lazy bookkeeping", ST)]),
P("A01", "Emission follows its schedule; block rewards are paid whole or not at all",
  "The native supply grows exactly at the scheduled block of each period, by the set rate of what exists, and the new tokens go to vaults, stakers and treasury in the fixed proportions; no other block and no user changes it. A block reward is the annuity's balance at the start of the period divided by its length, at most the set amount per wrapped token; it is shared among those entitled and taken from the annuity in the same step, or neither. Only governance changes schedule, rate and caps, and what stakers are promised within a period can be claimed and is what they are paid.",
  H, "all sequences of blocks, locks, claims, changes of vault capacity and wrapped supply, caps and governance calls, with any rate and initial supply in the range of the fixed point types",
  "Whether promises stay covered depends on the order of claims, capacity changes and period boundaries over whole years of blocks; tests run one emission and a handful of blocks.",
  ["crates/supply/src/lib.rs", "crates/annuity/src/lib.rs"], [("emission", "crates/supply/src/lib.rs begin_block"), ("block reward", "crates/annuity/src/lib.rs begin_block / min_reward_per_block"), ("claims", "crates/annuity/src/lib.rs withdraw_rewards")],
  "runtime monitoring: random histories of blocks, locks, claims and governance calls on the composed runtime, every balance of the emission compared with a ledger model after every block", RT + "Known finding: rewards left unclaimed over a period boundary are promised again. ",
  state=[("reward per block, start height", "rates of the period", "crates/annuity/src/lib.rs")]),
P("E01", "Voting power is the locked amount in proportion to the time left",
  "At every height, now or in the future, an account's voting power is its locked amount over the maximal lock time, times the blocks left of its lock, and the power in existence is the sum over all holders. The native tokens of a lock cannot be spent until the lock ends and can be withdrawn then; locks can only grow, in amount or in time, within the account's limit unless it is blocked. Reserved voting power is neither free nor lost, and block rewards accrue to the power at the last update.",
  H, "all sequences of locks, extensions, withdrawals, limits, reservations and transfers by several accounts, and all heights queried",
  "The supply is kept as a piecewise linear curve with scheduled slope changes, so an error surfaces weeks of blocks after the operation that caused it; tests look at single locks.",
  ["crates/escrow/src/lib.rs"], [("checkpoints and slope changes", "crates/escrow/src/lib.rs checkpoint"), ("voting power", "crates/escrow/src/lib.rs balance_at / supply_at"), ("limits", "crates/escrow/src/lib.rs get_free_balance / ensure_account_not_blocked"), ("reservations", "crates/escrow/src/lib.rs ReservableCurrency")],
  "runtime monitoring: random lock histories over up to hundreds of weeks, every account's power and the supply, now and at future heights, compared with a direct model of every lock", RT,
  state=[("user and global points, slope changes", "the piecewise linear curve", "crates/escrow/src/lib.rs")]),
P("F01", "Farming hands out its schedules to stakers in proportion, and stays funded",
  "Each period of a schedule is shared among the stakers of its pool in proportion to their stake then, waits while nobody stakes, and is handed out once. A pool's account always holds what its farmers are owed and what the rest of its schedules promises, claims pay what was announced, and removing a schedule returns only what was not handed out. Stakes are the farmer's own locked tokens and can be withdrawn in full at any time; only governance sets schedules, funded by the treasury.",
  H, "all sequences of schedules, deposits, withdrawals, claims and periods over several pools and reward currencies, within the range of the fixed point type",
  "Coverage of promises couples schedules, rounding, periods without stakers and the order of claims; tests check a few periods of one schedule.",
  ["crates/farming/src/lib.rs", RW], [("periods", "crates/farming/src/lib.rs begin_block / try_distribute_reward"), ("schedules", "crates/farming/src/lib.rs update_reward_schedule / remove_reward_schedule"), ("stakes and claims", "crates/farming/src/lib.rs deposit / withdraw / claim")],
  "runtime monitoring: random histories over several pools, every stake, announced reward, schedule and account compared with an exact model after every step", RT,
  state=[("reward schedules", "periods left and amount per period", "crates/farming/src/lib.rs")]),
P("O01", "Prices are medians of fresh values of appointed oracles; conversions are exact",
  "The price of a currency is, at every block, the median of the values that oracles fed for it and that are not older than the validity period, and there is none when all have expired; every change is announced. Only accounts appointed by governance can feed values. A conversion multiplies or divides by the prices, rounded down, and is refused without a price or out of range, never wrong.",
  H, "all sequences of appointments, feeds and blocks with any time between them, all values up to 2^126, all amounts and pairs of currencies",
  "Which values count depends on the timing of feeds of several oracles around the validity period; tests feed one or two oracles once.",
  ["crates/oracle/src/lib.rs"], [("aggregation", "crates/oracle/src/lib.rs update_aggregate / get_median"), ("expiry", "crates/oracle/src/lib.rs begin_block"), ("conversion", "crates/oracle/src/lib.rs convert / wrapped_to_collateral / collateral_to_wrapped")],
  "runtime monitoring: random feed histories with time steps around the validity period, every price and conversion compared with a direct computation after every step", RT + "Values of an oracle that was removed count until they expire, as the code has it. ",
  state=[("raw values with timestamps", "fed prices", "crates/oracle/src/lib.rs")]),
P("S01", "Active blocks count exactly, deadlines follow them, and request ids never repeat",
  "The active block count grows by one in each block while the counter is on and not otherwise, and only governance switches it. A request has expired exactly when more active blocks have passed since its opening than its period, for every opening and period. No two requests get the same identifier.",
  H, "all sequences of blocks and switches, all openings and periods, all numbers of identifiers per block and caller",
  "Deadlines and uniqueness are statements about all histories of blocks and requests; tests check a few values.",
  ["crates/security/src/lib.rs"], [("active blocks", "crates/security/src/lib.rs increment_active_block"), ("expiry", "crates/security/src/lib.rs parachain_block_expired"), ("identifiers", "crates/security/src/lib.rs get_secure_id")],
  "runtime monitoring: random histories of blocks, switches, expiry questions and identifiers compared with a counter model and a set of all identifiers", RT),
]
