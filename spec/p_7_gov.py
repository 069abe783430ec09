from common import P, RT
H = ["histories", "inputs"]
D, CS, TP, CI, MT = ("crates/democracy/src/lib.rs", "crates/collator-selection/src/lib.rs", "crates/tx-pause/src/lib.rs",
  "crates/clients-info/src/lib.rs", "crates/multi-transaction-payment/src/lib.rs")
CU, CV = "crates/currency/src/amount.rs", "crates/currency/src/lib.rs"
PROPS = [
P("G01", "Votes and proposals are counted as made and deposits come back",
  "A public proposal holds its backers' voting power exactly while it waits, and every way it can end gives all of it back. In a vote each account counts once, at its voting power when it last voted, changing or withdrawing a vote leaves the tally as if the old vote had not been cast, and votes count only on what is under vote. The call data of a proposal is kept exactly as long as something needs it.",
  H, "all sequences of proposing, seconding, voting, changing and withdrawing votes, fast tracking, cancelling and clearing by several holders whose voting power decays, over any time",
  "Tallies and held deposits are updated piecemeal by a dozen operations; only a ledger kept over whole histories shows one that forgets its part.",
  [D], [("proposals", D + " propose / second / cancel_proposal / clear_public_proposals / table_proposal"), ("votes", D + " vote / remove_vote / try_vote"), ("tallies", "crates/democracy/src/types.rs Tally")],
  "runtime monitoring: random governance histories, every proposal, deposit, vote, tally and held call compared with a model after every step", RT + "Defect found and repaired: clearing all proposals kept their deposits for ever. ",
  state=[("proposals, deposits, votes, tallies", "democracy records", D)]),
P("G02", "The right proposal is voted on in time, decided by the rule and enacted once",
  "At each launch the waiting proposal with the most support goes to a vote, fast-tracked votes run their own time, and each vote ends exactly when due, decided by its tally under the turnout bias against the total voting power. What is approved is carried out once, after its delay and with governance's authority, and nothing else is; treasury spending pays exactly the amount named.",
  H, "all sequences of governance operations and all times, including irregular block times, ties, lapsed launches and decisions near the threshold",
  "Launching, ending and enacting depend on wall-clock scheduling and on ties over a long history; tests follow one vote.",
  [D, "crates/democracy/src/vote_threshold.rs"], [("launch", D + " launch_public / begin_block"), ("decision", "crates/democracy/src/vote_threshold.rs VoteThreshold::approved"), ("enactment", D + " bake_referendum"), ("treasury", D + " spend_from_treasury")],
  "runtime monitoring: random governance histories in which every block due is run, every launch, decision and enactment compared with a model", RT + "Decisions within the rounding of the integer square root are not judged. ",
  state=[("referenda, schedule", "votes under way and calls to enact", D)]),
P("Q01", "Collators are the fixed ones and the candidates that qualify, once each",
  "An account becomes a candidate only with session keys, voting power for the bond and room on the list, its bond is held exactly while it is one, and leaving or being dropped returns it whole. At each session those that neither produced a block in time nor kept their bond are dropped, but never below the minimum, and the collators are the fixed ones followed by the remaining candidates with none listed twice. Half of the fee pot goes to a block's author.",
  H, "all sequences of registrations, departures, changes of terms by governance, blocks authored and sessions, with decaying voting power and any times between",
  "Who is dropped depends on when each last authored, on decaying voting power and on how many remain; tests cover single departures.",
  [CS], [("candidacy", CS + " register_as_candidate / leave_intent / try_remove_candidate"), ("sessions", CS + " new_session / kick_stale_candidates / assemble_collators"), ("authors", CS + " note_author"), ("terms", CS + " set_invulnerables / set_desired_candidates / set_candidacy_bond")],
  "runtime monitoring: random histories of candidacy and sessions compared with a model after every step", RT + "Defect found and repaired: a candidate made a fixed collator was listed twice. ",
  state=[("candidates, bonds, last authored", "collator records", CS)]),
P("I01", "The client release on record is the one governance announced",
  "Only governance announces releases of off-chain clients. The current and the pending release of each client are those last announced under its name, other clients' are untouched, and upgrades of the chain keep what is in force.",
  H, "all sequences of announcements by governance and others under any names, with upgrades between",
  "Clients install what the chain says is current, so a release kept or dropped wrongly matters beyond the few names tests use.",
  [CI], [("announcement", CI + " set_current_client_release / set_pending_client_release"), ("upgrade", CI + " on_runtime_upgrade / migration")],
  "runtime monitoring: random announcements and upgrades compared with a model of all releases", RT,
  state=[("releases", "current and pending release per client", CI)]),
P("T01", "A paused call is refused to everyone but governance, and nothing else is",
  "Only governance pauses and resumes, and never the calls that must stay open. A call is refused exactly while it or its pallet is paused, also inside another call, except from governance; names too long to be on record follow the configured default. Resuming succeeds only for what is paused itself, and takes effect at once.",
  H, "all sequences of pausing and resuming pallets and calls by anyone, any names, direct and nested calls by any origin",
  "Overlapping pauses of a pallet and its calls and nested dispatch multiply the cases far beyond the tests' few.",
  [TP], [("pausing", TP + " pause / ensure_can_pause"), ("resuming", TP + " unpause / ensure_can_unpause"), ("filter", TP + " is_paused_unbound / is_paused / Contains::contains")],
  "runtime monitoring: random pauses, every call of a set tried for every origin after each, compared with a model", RT + "Defect found and repaired: resuming a call of a paused pallet reported success and did nothing. ",
  state=[("paused calls", "names paused", TP)]),
P("M01", "Fees paid through a swap cost the payer only the swap and the exact fee",
  "A transaction may pay its fee by first swapping into the fee currency along a path ending in it; the swap buys exactly the fee, costs no more than the limit given, and happens only when the wrapped transaction is the outer one. The payer is charged as for the same transaction paid directly, the excess fee comes back in the fee currency, and the wrapped call does exactly what it does alone.",
  H, "all payers, paths and limits, reserves of the exchange, wrapped calls that succeed or fail, and fee corrections",
  "The fee is taken, corrected and paid in separate steps around the call; tests check one path with one pair.",
  [MT], [("payment", MT + " OnChargeTransaction::withdraw_fee / correct_and_deposit_fee"), ("wrapped call", MT + " with_fee_swap_path")],
  "runtime monitoring: random payments, each step compared with a quote and with the same transaction on a rolled-back copy", RT + "The transaction-payment pallet itself is a stand-in. ",
  state=[("balances, reserves", "of payer, author and pools", MT)]),
P("U01", "Amounts are exact, never mix currencies and convert at the oracle's price",
  "Arithmetic on amounts is exact or rounded the documented way, fails rather than wraps, and is refused between different currencies. Minting, moving, locking and burning change exactly the named account and currency and the total by exactly what is created or destroyed, or nothing. Conversions use the current price of the currency, with lend and pool tokens valued through what they stand for, and fail without a price.",
  H, "all amounts, factors, prices and pairs of currencies, all sequences of movements by several accounts",
  "Rounding, overflow and the mixing of currencies lie at values tests do not use, and every other guarantee is counted in these amounts.",
  [CU, CV], [("arithmetic", CU + " checked_* / saturating_sub / ratio / min / max"), ("movement", CU + " transfer / lock_on / unlock_on / mint_to / burn_from"), ("conversion", CU + " convert_to and crates/oracle/src/lib.rs convert")],
  "runtime monitoring: every operation's result on random and extreme values compared with arbitrary-precision arithmetic and a ledger", RT,
  state=[("balances", "free, held and total per currency", CU)]),
P("Z01", "No transaction and no block can crash the chain",
  "Whatever an ordinary account submits, with whatever arguments and in whatever state, the chain executes or refuses it without panic or arithmetic overflow, and so does the work every block does by itself. A refused transaction leaves no trace in the state.",
  H, "all calls of all pallets with arbitrary arguments in arbitrary sequences, in states where all parts of the chain are in use, over any blocks",
  "A single panicking input stops the chain, and the inputs are any bytes anyone signs; tests call with sensible ones.",
  ["crates"], [("calls", "crates/*/src/lib.rs #[pallet::call]"), ("blocks", "crates/*/src/lib.rs on_initialize"), ("decoding", "crates/bitcoin/src/parser.rs and primitives")],
  "runtime monitoring: type-directed random transactions on the whole chain built with overflow checks, panics caught and state roots compared", RT,
  state=[("the whole state", "root hash before and after", "crates")]),
P("Z02", "Nobody's tokens move without a signature, and none are created from nothing",
  "A transaction takes tokens only from the account that signed it, except where a bridge request, a nomination or an insolvent debt is settled by the rules; an account that signs nothing and owes nothing keeps all it holds through every history. No transaction creates or destroys native, collateral or foreign currency; wrapped coins change only through the bridge, and lend and pool tokens only through their own pallets.",
  H, "all calls of all pallets with arbitrary arguments in arbitrary sequences by any accounts, with bystanders holding positions in every part of the chain",
  "Theft through an unforeseen combination of pallets cannot be excluded by tests of single pallets.",
  ["crates"], [("all calls", "crates/*/src/lib.rs #[pallet::call]"), ("token movement", CU)],
  "runtime monitoring: type-directed random transactions on the whole chain, the holdings of every account and every issuance compared around each", RT,
  state=[("holdings of every account", "free and held per currency", "crates")]),
P("Y01", "Only governance can make governance's calls",
  "Calls that set parameters, create markets, pools and schedules, spend protocol funds or pause the chain are refused to every account and to unsigned transactions, though governance could make them with the same arguments. Calls made on behalf of an account need that account's signature. A refused call changes nothing.",
  H, "all privileged calls with all arguments, in states where governance could make them, from every kind of origin",
  "An open privileged call gives the chain away, and tests check the origin of only some.",
  ["crates"], [("privileged calls", "crates/*/src/lib.rs ensure_root / UpdateOrigin"), ("account calls", "crates/*/src/lib.rs ensure_signed")],
  "runtime monitoring: type-directed privileged calls tried by governance on a rolled-back copy and then by others, results and state roots compared", RT,
  state=[("the whole state", "root hash before and after", "crates")]),
P("G03", "A parameter governance sets is in force exactly as set and stays so",
  "Each fee, period, threshold, minimum, ceiling, rate and switch holds the value governance set last, and setting it changes nothing else. Any value within the documented bounds is accepted, values outside are refused, and nobody but governance can set one. Time and other calls do not change them, and a limit on collateral binds exactly at its value.",
  H, "all sequences of settings to any values, including the bounds themselves and the extremes of each type, attempted by governance and by others, with blocks passing",
  "Tests set one typical value per parameter; the bounds, the separation of parameters per currency and persistence need many sequences.",
  ["crates/fee/src/lib.rs", "crates/vault-registry/src/lib.rs", "crates/issue/src/lib.rs", "crates/redeem/src/lib.rs", "crates/replace/src/lib.rs", "crates/annuity/src/lib.rs", "crates/supply/src/lib.rs", "crates/nomination/src/lib.rs", "crates/dex-general/src/lib.rs"],
  [("fees", "crates/fee/src/lib.rs set_issue_fee / set_redeem_fee / set_premium_redeem_fee / set_punishment_fee"), ("thresholds", "crates/vault-registry/src/lib.rs set_secure_collateral_threshold / set_system_collateral_ceiling / set_minimum_collateral"), ("periods", "crates/issue/src/lib.rs set_issue_period; crates/redeem/src/lib.rs set_redeem_period; crates/replace/src/lib.rs set_replace_period"), ("rates", "crates/annuity/src/lib.rs set_reward_per_wrapped; crates/supply/src/lib.rs set_start_height_and_inflation")],
  "runtime monitoring: random histories of settings, every parameter read back and the whole storage compared after every step", RT,
  state=[("parameters", "values set by governance", "crates/fee/src/lib.rs")]),
P("U02", "A chain starts as configured, and an upgrade keeps every record",
  "A new chain is in exactly the state its genesis configuration gives for every part. A runtime upgrade brings every stored issue request, referendum and public proposal into the present layout without losing, inventing or changing one, makes the announced client releases current, touches nothing else, and is done once however often it runs.",
  H, "all genesis configurations, and all chains with any requests, referenda, proposals, releases and versions on record at the upgrade",
  "An upgrade runs once on data nobody can try it on before, and a lost or shifted field means lost deposits; tests migrate one record of each kind.",
  ["crates/issue/src/migration.rs", "crates/democracy/src/migrations.rs", "crates/vault-registry/src/types.rs"], [("issue requests", "crates/issue/src/migration.rs on_runtime_upgrade"), ("referenda and proposals", "crates/democracy/src/migrations.rs on_runtime_upgrade"), ("vaults", "crates/vault-registry/src/types.rs migrate_v1_to_v6"), ("releases", "crates/clients-info/src/upgrade_client_releases.rs"), ("genesis", "BuildGenesisConfig of all pallets")],
  "runtime monitoring: records are brought back into the older layout, the real migration runs, and the whole storage is compared with the original; configurations are read back from the chain they started", RT),
P("Z03", "What the chain announces is what happened",
  "Whenever a call of the markets, exchanges or farms succeeds, what every account gained and lost is what the events add up to, and every index, rate, reserve, supply, setting or schedule in an event is the one now in force. Every deposit, loan, settlement, swap, share, reward, lock, price, vote decided, proposal put up, clock tick and block reward is announced, to the right account, once. A refused call announces nothing.",
  H, "all calls with any arguments in any sequence in states where all parts are in use, by accounts and governance, and the work of every block",
  "Wallets, indexers and vault clients act on events, and a wrong field shows in no balance; tests compare the events of a few calls with values computed the same way.",
  ["crates/loans/src/lib.rs", "crates/dex-general/src/lib.rs", "crates/dex-stable/src/lib.rs", "crates/farming/src/lib.rs", "crates/escrow/src/lib.rs", "crates/oracle/src/lib.rs", "crates/democracy/src/lib.rs", "crates/security/src/lib.rs", "crates/annuity/src/lib.rs"],
  [("events", "deposit_event in crates/*/src/lib.rs"), ("exchange", "crates/dex-general/src/swap/mod.rs; crates/dex-stable/src/base_pool.rs / meta_pool.rs"), ("interest and rewards", "crates/loans/src/interest.rs / farming.rs")],
  "runtime monitoring: random histories on the whole chain, after every call and block the new events compared with the difference of all balances and with storage", RT + "Events of the bridge's requests are judged by V11, V01 and their neighbours. Defects found and repaired: a new bootstrap's capacities were announced swapped, an updated one was announced to collect in another account, and a swap within the base pool was announced to have paid out nothing. ",
  state=[("events", "events of every call and block", "crates")]),
]
