def P(id, title, statement, over, qtext, why, files, mech, technique, note, state=(), observe=()):
    return dict(id=id, title=title, statement=statement, quantifier={"over": over, "text": qtext}, why_tests_cant=why,
                anchors={"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
                         "state": [{"name": a, "meaning": b, "where": c} for a, b, c in state],
                         "observe_at": list(observe), "hook_needed": None},
                technique=technique, note=note)

B = "crates/bitcoin/src/"
NOTE = "Held on the executions counted in the evidence file (seeded workload, deterministic oracle, replayable cases); nothing is claimed about inputs not run. Trusts the monitor's own model and the pinned toolchain. "

PROPS = [
P("B01", "Untrusted Bitcoin data never crashes parsing or proof verification",
  "Whatever bytes or proof structures a user submits as a Bitcoin transaction, block header or inclusion proof, parsing and verification end with a value or an error: they never panic, overflow, read out of bounds or run forever. What is reported as consumed never exceeds what was supplied, and bytes that parse as a transaction serialize back to the bytes consumed whenever those were canonically encoded.",
  ["inputs"], "all byte strings and all decodable proof structures a transaction can carry",
  "The unit tests parse a few dozen fixed mainnet hex strings and a few truncated ones; a panic in runtime code is reached by one malformed input among all byte strings.",
  [B + "parser.rs", B + "merkle.rs", B + "formatter.rs", B + "types.rs"],
  [("bounded reader of untrusted bytes", B + "parser.rs BytesParser"), ("proof traversal with explicit bounds", B + "merkle.rs PartialMerkle traversal")],
  "runtime monitoring: panic/overflow-checked execution of structured and mutated hostile inputs",
  NOTE + "Overflow and bounds checks are the compiler's debug checks."),
P("B02", "Bitcoin transactions keep their meaning, bytes and ids through the library",
  "Every valid version 1 or 2 Bitcoin transaction, with or without witness data, parses to exactly its inputs, outputs, witnesses and lock time, and serializes back to its consensus bytes. Its transaction id is the double SHA-256 of the serialization without witnesses (with the id computed under a length bound succeeding exactly within the bound), and transactions outside the supported format are rejected rather than misread.",
  ["inputs"], "all valid transactions, including script, witness, input and output counts at every length-prefix boundary",
  "Tests use about twenty fixed transactions; length-prefix boundaries, unusual witness stacks, coinbase heights and lock times are not sampled, and a wrong id silently accepts or rejects payments.",
  [B + "parser.rs", B + "formatter.rs", B + "types.rs", B + "script.rs"],
  [("transaction parser", B + "parser.rs parse_transaction"), ("transaction formatter", B + "formatter.rs TryFormat"), ("transaction id", B + "types.rs tx_id, tx_id_bounded")],
  "runtime monitoring: differential oracle (independent serializer and rust-bitcoin) over generated transactions",
  NOTE + "Oracle: an independent consensus serializer, itself cross-checked against rust-bitcoin on every case."),
P("B03", "Block headers decode, encode and hash as Bitcoin defines",
  "Every 80-byte Bitcoin block header decodes to its version, parent hash, merkle root, time, compact target and nonce, hashes to the double SHA-256 of those 80 bytes, and encodes back to them. Byte orders of hashes are consistent: reversing twice, reading hexadecimal in display order and converting to and from raw bytes never change which hash is meant, and headers whose target encoding is negative or overflows are rejected.",
  ["inputs"], "all 80-byte headers and all 32-byte hashes",
  "Tests decode a handful of mainnet headers.",
  [B + "parser.rs", B + "types.rs", B + "formatter.rs"],
  [("header parser", B + "parser.rs parse_block_header"), ("header hash", B + "types.rs BlockHeader::hash"), ("little-endian hash type", B + "types.rs H256Le")],
  "runtime monitoring: differential oracle (independent codec and SHA-256) over generated headers", NOTE),
P("B04", "Merkle proofs of transactions in a block always verify",
  "For every block and every transaction in it, the inclusion proof built for that transaction verifies against the block's header and yields exactly that transaction and its position in the block. Blocks and their merkle roots are serialized and computed as Bitcoin defines.",
  ["inputs"], "all blocks (number of transactions, odd levels, any position), all positions",
  "Tests build proofs for a few fixed blocks; the traversal has a case per tree shape and position.",
  [B + "merkle.rs", B + "types.rs"],
  [("proof construction", B + "merkle.rs traverse_and_build"), ("proof verification", B + "merkle.rs verify_proof"), ("merkle tree", B + "merkle.rs MerkleTree")],
  "runtime monitoring: generated blocks, every position, against an independent merkle tree", NOTE),
P("B05", "A merkle proof accepted by the library proves inclusion under Bitcoin's rules",
  "A proof is accepted only if it is well formed under Bitcoin Core's partial merkle tree rules, commits to the claimed number of transactions, uses all its hashes and flag bits, never has identical left and right branches, and its root is the one in the supplied header. The transaction and position it reports are the ones the proof commits to, and proofs for other blocks, other transactions, ambiguous 64-byte transactions or tampered hashes are rejected.",
  ["inputs"], "all proofs, in particular proofs derived from valid ones by tampering",
  "Tests contain a few fixed malformed proofs; soundness quantifies over every forged proof.",
  [B + "merkle.rs"],
  [("proof verification", B + "merkle.rs verify_proof, traverse_and_extract"), ("coinbase and user proof combination", B + "merkle.rs FullTransactionProof handling")],
  "runtime monitoring: adversarial proof mutation against an independent partial-merkle-tree oracle", NOTE + "Forgeries needing SHA-256 collisions are out of reach of any test workload."),
P("B06", "Compact targets and difficulty retargeting follow Bitcoin's rules",
  "Compact difficulty bits decode to exactly the 256-bit target Bitcoin assigns them (negative and overflowing ones are refused), and every target encodes to Bitcoin's compact form. The target required after a 2016-block period is the previous target scaled by the time the period took, with that time limited to a quarter and four times two weeks, and never easier than the proof-of-work limit.",
  ["inputs"], "all 2^32 compact values (enumerated in the thorough run), all 256-bit targets, all previous targets up to the proof-of-work limit and all pairs of timestamps",
  "The repository's own tests of this module cannot be built offline and sample four mainnet retargets.",
  [B + "pow.rs", B + "types.rs"],
  [("retarget rule", B + "pow.rs calculate_next_work_required"), ("compact target codec", B + "pow.rs / types.rs SetCompact, GetCompact")],
  "runtime monitoring: differential oracle (big-integer model of Bitcoin Core) over generated and enumerated values", NOTE),
P("B07", "Addresses and output scripts correspond one to one",
  "Every supported address (public-key hash, script hash, and their version 0 witness forms) is turned into the standard output script paying it, and exactly that script is recognised as paying that address. Any other output script is recognised as no address at all, payments to an address are never attributed to another, and the data in an OP_RETURN output is returned exactly as embedded and only for well-formed data outputs.",
  ["inputs"], "all addresses, all output scripts, all embedded payloads",
  "Tests check one or two scripts per address kind; near-miss scripts (wrong opcode, length, extra byte) are where money is misattributed.",
  [B + "address.rs", B + "script.rs", B + "types.rs"],
  [("script to address", B + "address.rs from_script_pub_key"), ("address to script", B + "address.rs to_script_pub_key"), ("data carrier", B + "script.rs op_return, extract_op_return_data")],
  "runtime monitoring: differential oracle (independent script templates and rust-bitcoin) over generated and near-miss scripts", NOTE),
P("B08", "Deposit keys can be derived by the vault and are unique per request",
  "From a vault's public key and a request id, anyone derives the same deposit public key, and the vault, knowing its private key, can derive the matching private key: the vault key multiplied by SHA-256 of the public key followed by the id. Different requests or different vaults give different deposit keys, invalid public keys are refused, and this holds when many threads derive for the first time at once.",
  ["inputs", "schedules"], "all key pairs and request ids; all interleavings of first use",
  "One fixed key pair is tested, in one thread, and that test is not among those that build here.",
  [B + "address.rs"],
  [("key derivation", B + "address.rs new_deposit_public_key"), ("shared curve context", B + "address.rs / secp256k1 context")],
  "runtime monitoring: secret-side reference derivation; thread race on first use, with ThreadSanitizer", NOTE + "The elliptic-curve crate itself is a different release of the same library than production uses."),
P("B09", "Estimated transaction sizes match the transactions users must pay for",
  "The virtual size estimated for a transaction of given input kind and count and output mix is the virtual size of the transaction actually serialized with maximum-size signatures, so that fees taken from users cover the Bitcoin fee.",
  ["inputs"], "all combinations of input kinds, signature and key counts, input counts and output counts up to several hundreds",
  "Tests compare a handful of combinations.",
  [B + "utils.rs"],
  [("weight estimate", B + "utils.rs virtual_transaction_size")],
  "runtime monitoring: differential oracle (actual serialization) over generated shapes",
  NOTE + "Tolerance: one vbyte per four witness inputs (the estimate counts the witness item count once) and one byte per input for redeem scripts at the 75-byte push boundary."),
P("P01", "Currency ids and stored requests have one stable, lossless representation",
  "Every currency id, vault id and stored issue, redeem or replace request survives its storage encoding and its JSON form unchanged, within its declared maximum length, and the numbers, symbols, names and decimals of tokens are those published. A liquidity-pool token names exactly its two currencies and, once sorted, does not depend on their order; balances appear in JSON as decimal strings; conversions between balances and fixed-point numbers are exact or refused.",
  ["inputs"], "all currency ids, pairs of them, requests and 128-bit amounts",
  "No tests of this crate run at all; encodings are permanent on-chain data.",
  ["primitives/src/lib.rs"],
  [("currency enumeration", "primitives/src/lib.rs create_currency_id!, CurrencyId"), ("pool token construction", "primitives/src/lib.rs join_lp_token, sort"), ("string balances", "primitives/src/lib.rs serialize_as_string")],
  "runtime monitoring: differential oracle (independent encoder, big integers) over generated values", NOTE),
P("C01", "The swap contract pays each order at most once, and only for its payment",
  "An order's locked funds leave the contract only once, in exactly the locked amount, to the account that presents a payment the relay has verified for that order's own Bitcoin address and of at least its minimum; such a presentation succeeds while the order is open. Every other call moves no funds, so the contract always holds exactly the value of the open orders.",
  ["histories"], "all sequences of orders, payments and executions by several accounts",
  "The contract has no tests.",
  ["contracts/btc_swap/lib.rs"],
  [("order book", "contracts/btc_swap/lib.rs orders"), ("payment check", "contracts/btc_swap/lib.rs execute_trade"), ("relay extension", "contracts/btc_swap/lib.rs get_and_verify_bitcoin_payment")],
  "runtime monitoring: histories on the real contract in ink's off-chain environment, checked online against an order ledger", NOTE + "Traps are rolled back by replaying the accepted prefix. Replacing an account's own open order is outside the claim."),
]
