from common import P, RT
B = "crates/btc-relay/src/"
PROPS = [
P("R01", "The relay follows the Bitcoin chain with the most blocks beyond the fork depth",
  "The relay stores exactly the submitted headers that meet their target, carry the required difficulty and extend a stored block, each once, and refuses all others without changing anything. Its main chain, read by height, is one path of parent links from the first stored block to its tip, and it switches to a fork exactly when that fork is ahead by the number of confirmations required. A block counts as confirmed only if it is on that main chain and deep enough in both Bitcoin and parachain blocks, and never while another fork is close enough to undo it.",
  ["histories", "inputs"], "all sequences of header submissions: any tree of forks, any order, at any parachain height, with valid and invalid headers",
  "The unit tests mock or replay a few fixed forks; forks of forks, several forks of equal height, and forks across a difficulty change are histories no test runs.",
  [B + "lib.rs", B + "types.rs"],
  [("fork bookkeeping", B + "lib.rs initialize_and_extend / check_and_do_reorg / swap_main_blockchain / reorganize_chains"), ("header checks", B + "lib.rs verify_block_header"), ("retarget context", B + "lib.rs get_last_retarget_time")],
  "runtime monitoring: random block trees fed to the real pallet, checked after every call against an independent header tree",
  RT, state=[("ChainsIndex, Chains, ChainsHashes, BlockHeaders, BestBlock", "the stored header tree and the ordered fork queue", B + "lib.rs")]),
P("R02", "Only transactions of confirmed main-chain blocks are accepted as included",
  "A transaction is accepted as included only if its proof and the accompanying coinbase proof are valid merkle proofs, for the same stored block, of equal depth, that block is on the main chain, and it has the required confirmations; in particular a 64-byte forged leaf is never accepted. Every transaction of such a block, proven honestly, is accepted.",
  ["histories", "inputs"], "all header histories, all blocks, all proofs including forged and mutated ones",
  "Unit tests mock the verification or use one fixed block; soundness is over all forged proofs and all moments of the header history.",
  [B + "lib.rs", "crates/bitcoin/src/merkle.rs"],
  [("inclusion check", B + "lib.rs _verify_transaction_inclusion"), ("confirmation check", B + "lib.rs check_bitcoin_confirmations / check_parachain_confirmations")],
  "runtime monitoring: honest, forged and mutated proofs against generated chains, checked against an independent merkle and chain model",
  RT),
P("R03", "A Bitcoin payment counts only with the right recipient, amount and reference",
  "A transaction counts as the payment of a request only if it pays exactly the requested amount to the requested address in an output, and carries the request's id in exactly one zero-value data output, with at most one further output, to an ordinary address. An issue payment is found exactly when some output pays the deposit address, with the value that was paid, and the refusal says which rule failed.",
  ["inputs"], "all transactions: any outputs in any order, amounts, addresses, data payloads and malformed scripts",
  "Unit tests build three or four transactions; a wrong rule lets a vault redeem with somebody else's payment or a payment of a different amount.",
  [B + "lib.rs", B + "types.rs"],
  [("redeem payment rule", B + "types.rs OpReturnPaymentData"), ("issue payment rule", B + "lib.rs get_issue_payment")],
  "runtime monitoring: generated transactions against an independent statement of the payment rule",
  RT),
]
