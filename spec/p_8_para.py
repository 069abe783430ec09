from common import P, RT
H = ["histories", "inputs"]
RC, K, EV = "parachain/runtime/common/src/lib.rs", "parachain/runtime/kintsugi/src/contracts.rs", "parachain/runtime/common/src/evm"
XK, XI, LK, LI = ("parachain/runtime/%s/src/%s.rs" % (n, f) for f in ("xcm_config", "lib") for n in ("kintsugi", "interlay"))
PROPS = [
P("J01", "The yields quoted to users are what they would earn",
  "The rate quoted for a lock of native tokens, as it is or after adding to it, is the share of the coming year's rewards its voting power earns; the rate quoted for a vault's collateral is its nominators' and operator's share of a year of block rewards at the present price. Asking changes nothing, and doing what was asked about and waiting earns what was quoted.",
  H, "all accounts, added amounts and lock ends, and all vaults with nominators, commissions, prices, wrapped totals and block rewards",
  "Users lock and lend on these quotes, and no test asks for one.",
  [RC], [("locks", RC + " estimate_escrow_reward_rate"), ("vaults", RC + " estimate_vault_reward_rate"), ("projected rewards", "crates/escrow/src/lib.rs; crates/annuity/src/lib.rs; crates/rewards/src/lib.rs")],
  "runtime monitoring: quotes asked in random states of a live chain, compared with shares computed from the stakes and with what is then earned on a rolled-back copy", RT + "The functions shared by both runtimes are compiled as they are. "),
P("J02", "Messages and Ethereum transactions get only what the runtime allows",
  "A message from another chain that would make a call here, at any place among its instructions, is refused before any barrier sees it; every other message is judged by the barriers alone, and a call meant for another chain is not held against it. Of the Ethereum addresses exactly the listed ones run the chain's own code, fees taken in Ethereum transactions all reach the treasury, and a contract reads the block's own time.",
  H, "all messages of any shape and any barriers, all addresses, transactions, fees and times",
  "A single message that slips through makes any call; tests send none of these.",
  [RC, EV + "/precompiles.rs"], [("barrier", RC + " Transactless"), ("own code", EV + " precompiles"), ("fees", RC + " ToTreasury")],
  "runtime monitoring: generated messages and addresses on the real barrier and precompile set with recording stand-ins, and fees and times in a live chain", RT + "The barriers themselves, the EVM and its precompiles are stand-ins that record what reaches them. "),
P("C02", "Contracts on the chain are told the truth and can harm nobody",
  "A contract asking whether a Bitcoin address was paid is told exactly what the relay verifies, for a payment deep enough and with a sound proof, and is refused otherwise; no question, however garbled, panics the chain or changes it. The native token as contracts see it does and answers exactly what the token itself does.",
  H, "all questions with any bytes on any state of the Bitcoin chain, and all operations on the native token by any accounts and amounts",
  "Anybody can put a contract on the chain and ask anything; the extension has no tests.",
  [K], [("extension", K + " BtcRelayExtension / call"), ("token", K + " NativeCurrency adapter")],
  "runtime monitoring: drawn questions to the real chain extension on a growing Bitcoin chain, answers compared with an independent verdict; each token operation done twice on rolled-back copies and compared", RT + "The contracts pallet is a stand-in that hands over questions and records answers. Defect found and repaired: a contract passing bytes that are no Bitcoin address panicked the runtime. "),
P("J03", "A currency has one name between chains, and every name means one currency",
  "Each of the parent's, the native and the wrapped currency and each registered foreign asset has exactly one location as its name, which leads back to it and to no other, at home in its short form too; nobody can register the chain's own names for another asset, and all other locations name nothing. The fee of a message reaches the account entitled to it in full, in the currency named.",
  H, "all locations, currencies, registered assets and chain numbers, and fees in any of them",
  "A wrong name credits real tokens for worthless ones; the integration tests name a handful.",
  [XK, XI], [("names", XK + " CurrencyIdConvert / canonical_currency_location / non_canonical_currency_location"), ("fees of messages", XK + " ToTreasury; " + XI + " ToAuthor"), ("least fee", XK + " ParachainMinFee")],
  "runtime monitoring: both runtimes' own functions on generated locations and registries, compared with an independent naming and, for fees, with the whole ledger", RT + "Items of the runtimes are compiled as they are, with all of their file they use, on stand-ins for XCM's types and the asset registry. A key with bytes behind the currency's own also names it, as in the code. "),
P("J04", "Runtimes let through just the calls they may and lose none of the rewards",
  "When paused, accounts can still make exactly the core calls; they never reach the virtual machine's or another chain's privileged calls, and messages never reach calls that make further calls or read Bitcoin transactions. A year's rewards go to vaults (40%), voters (6.7%) and the treasury to the last unit, a block's to those they are for, fees and tips to the author. Only the founders and governance have their origins, and no two pallets share an account or number.",
  H, "all calls and origins, paused or not, and all amounts of rewards, fees and tips on any balances and stakes",
  "The filters guard every call and the tests of the pallets run without them.",
  [LK, LI, XK], [("filters", LK + " BaseCallFilter; " + XK + " SafeCallFilter"), ("rewards", LK + " DealWithRewards / VaultBlockRewardProvider / EscrowBlockRewardProvider"), ("fees", LK + " DealWithFees"), ("accounts", LK + " get_all_module_accounts / DustRemovalWhitelist")],
  "runtime monitoring: both runtimes' own filters asked about every call, and their reward and fee handlers run in live chains with the whole ledger compared", RT + "Items of the runtimes are compiled as they are, with all of their file they use; the pallets' configuration is not. "),
P("J05", "What a runtime tells clients is what then happens",
  "An amount a client is told (a lock's, a farmer's or a vault's reward, what a swap, deposit or withdrawal in either exchange gives, what can be locked, a lock's power at a later block, a vault's room to issue) is what the same step then does from that state, and an amount set at one time and changing to another is told at its present value. Every other answer is the module's own on the same arguments, and asking changes nothing.",
  H, "all questions and arguments in all states of a chain with every part in use, and blocks as deep as any setting asks for",
  "Wallets and vault clients act on these answers; no test of this repository asks a runtime anything.",
  [LK, LI], [("answers", LK + " impl_runtime_apis!"), ("amounts", "crates/{dex-general,dex-stable}/src/rpc.rs; crates/vault-registry/src/lib.rs; crates/escrow/src/lib.rs; crates/farming/src/lib.rs")],
  "runtime monitoring: both runtimes' own answers in live random chains, compared with what the same step then does on a rolled-back copy and with the module's own answer", RT + "The implementations are compiled as they are, behind plain functions. Some amounts of the stable exchange are told up to its fees and rounding, with a bound. Defect found and repaired: a pool's precise amplification was told rounded to whole units while it changes. "),
P("J06", "A client's question to a node gets the chain's own answer about that block",
  "Each question a node's servers take, by its published name, is put once to the runtime function it is about, with the client's arguments in their places, at the block the client named or else the best one. The client hears that answer whole and unchanged, an entry or position picked from a list is the one asked for, and it hears of an error exactly when there is no answer.",
  H, "all questions with any arguments, named blocks and answers, refusals or failures of the runtime",
  "A wrong block or a swapped argument misleads every wallet; the servers have no tests.",
  ["crates/%s/rpc/src/lib.rs" % x for x in ("vault-registry", "reward", "dex-stable", "dex-general", "loans", "redeem", "replace", "issue", "escrow", "oracle", "btc-relay")],
  [("servers", "crates/*/rpc/src/lib.rs *ApiServer"), ("questions", "crates/*/rpc/runtime-api/src/lib.rs")],
  "runtime monitoring: the node's own servers before a recording runtime that gives drawn answers; what was asked, where and what the client hears are checked for every question", "Servers and runtime APIs are compiled as they are; jsonrpsee, the client and the block chain behind them are stand-ins, so transport and the merging of the servers into one are not covered. "),
]
