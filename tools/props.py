"""Writes properties.jsonl and MANIFEST.json from the list below."""
import json
import os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = "protocol/src/"
COMPARE = "path-sensitive interprocedural value-flow analysis of MIR, compared with a reference"
NOTE = ("Every path of each function is compared with every compatible path of a reference written from the standard: for all inputs, "
        "up to the models of library calls (ax/models.py), which are the same on both sides. No solver, nothing is executed.")
C = []      # (property, technique, note)


def prop(id, title, statement, over, text, why, files, mech, technique=COMPARE, note=NOTE, observe=None):
    C.append((dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                   anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=observe or [])),
              technique, note))


prop("C01", "Stored and transmitted values encode to the documented layout and decode back",
     "Every value the node stores, hashes or sends in RLP (transactions, signatures, receipts, headers, blocks, proposals, proofs, validators, metadata, hardforks, execution results and contexts, interoperation cells, batches of them) is encoded as a list that announces exactly the items it holds, in the documented order, and decoding those bytes gives back an equal value. "
     "Decoding input in which an item is missing or malformed fails with an error instead of giving a value with a default, dropped or swapped field. "
     "Only what every node knows anyway (the base fee and chain id of a proposal) is left out of the bytes and filled in again.",
     ["inputs"], "all values of every encodable type; all byte strings given to the decoders",
     "The existing tests encode and decode a few random or default values per type, most never with every optional field present; several types have no test at all.",
     [P + "codec/", P + "types/", "common/config-parser/src/types/spec.rs"],
     [("hand-written Encodable/Decodable pairs", P + "codec/{block,transaction,executor,receipt}.rs"), ("derived codecs", P + "types/primitive.rs"), ("message codecs", P + "types/batch.rs")])
prop("C02", "A block's, header's and proposal's hash commits to every field",
     "The hash of a header is the Keccak-256 of the RLP of all its fields, and that of a proposal the Keccak-256 of the RLP of all its fields but the chain's base fee and id, so it changes when any of these changes; the hash of a block is its header's. "
     "The proposal rebuilt from a header, with or without a given previous state root, carries every field of that header unchanged, so all nodes vote on the same hash.",
     ["inputs"], "all headers, blocks, proposals and state roots",
     "Tests hash one or two sample blocks; a field left out of the encoding or copied from the wrong place changes no sampled result.",
     [P + "types/block.rs", P + "codec/block.rs"], [("hash methods", P + "types/block.rs"), ("Proposal::new_with_state_root", P + "types/block.rs")])
prop("C03", "A transaction's signing hash and hash follow EIP-155, 2718, 2930 and 1559",
     "For every transaction of each type, the hash that is signed is the Keccak-256 of the type byte (none for legacy transactions) followed by the RLP list of the payload fields in the standard's order, with the chain id where the type or EIP-155 requires it, and the transaction's own hash is the Keccak-256 of the same with the signature appended. "
     "The recovery value of a legacy signature is 27 plus parity, or 35 plus parity plus twice the chain id, and reading it back gives the same parity and chain id.",
     ["inputs"], "all transactions of the three types, with and without chain id and signature",
     "Tests check a handful of recorded transactions; access lists, contract creation, missing chain ids and large chain ids are barely sampled.",
     [P + "types/transaction.rs", P + "codec/transaction.rs"], [("signature_hash, calc_hash, get_hash", P + "types/transaction.rs"), ("rlp_encode per type", P + "codec/transaction.rs")])
prop("C04", "A decoded transaction's hash and sender come from its own bytes and signature",
     "Decoding a transaction computes its hash from the decoded content, and accepts only the item counts of the standards. "
     "A transaction becomes a signed one only with a signature whose recovery over its own signing hash succeeds, and its hash is then computed anew; its sender is the last twenty bytes of the Keccak-256 of the recovered key, or, for an interoperation signature, the address that the signature's own content names. "
     "A value supplied from outside is never taken as hash, key or sender.",
     ["inputs"], "all transactions and all byte strings decoded as transactions",
     "Tests recover the sender of a few recorded transactions; forged, truncated or differently typed ones are not sampled.",
     [P + "types/transaction.rs", P + "codec/transaction.rs"], [("SignedTransaction::from_unverified", P + "types/transaction.rs"), ("UnverifiedTransaction::decode", P + "codec/transaction.rs")])
prop("C06", "Addresses are derived and checksummed as on Ethereum",
     "The address of a public key is the last twenty bytes of the Keccak-256 of its uncompressed 64 bytes, and the address of a hash is that hash's last twenty bytes. "
     "The text of an address has the EIP-55 checksum, and reading a checksummed address accepts exactly the strings with the right length, prefix and letter case, and gives back the same address.",
     ["inputs"], "all keys, hashes, addresses and strings",
     "Tests use three or four addresses.", [P + "types/primitive.rs", P + "codec/mod.rs"],
     [("Address", P + "types/primitive.rs"), ("checksum", P + "types/primitive.rs"), ("deserialize_address", P + "codec/mod.rs")])
prop("C07", "Hex text and JSON quantities denote exactly their bytes and numbers",
     "Encoding bytes as hex gives two lowercase digits per byte, and decoding accepts exactly even-length strings of hex digits (with the 0x prefix where it is required) and gives back the same bytes. "
     "Numbers are written as 0x and the shortest lowercase hex, and 256-bit keys are read only from exactly 32 bytes of hex.",
     ["inputs"], "all byte strings, numbers and texts",
     "Tests round-trip random bytes of a few lengths and read a couple of fixed keys.", [P + "codec/mod.rs", P + "types/primitive.rs"],
     [("hex_encode, hex_decode", P + "codec/mod.rs"), ("Hex", P + "types/primitive.rs"), ("serialize_uint, deserialize_256bits_key", P + "codec/mod.rs")])
T = "devtools/axon-tools/src/"
PANIC = "path-sensitive interprocedural panic analysis of MIR (reachability of every panicking operation, with bounds and type facts)"
PANICNOTE = ("Every operation that can panic and is reachable from a decoder or parser is judged on each path to it: impossible, certain for some input, or not provable either way. "
             "The second is a violation; the third is listed in the evidence as not proved and raises no alarm.")
prop("C05", "Decoding and checking input from outside returns an error, never a panic",
     "Whatever bytes or text a decoder or parser of transactions, blocks, proposals, messages, hex, addresses, keys, versions or JSON numbers is given, it returns a value or an error: it never panics, indexes out of range, overflows or unwraps something missing. "
     "The same holds for recovering and checking the sender and hash of a transaction and for verifying proofs, whatever signature, key, proof or chain id comes with them.",
     ["inputs"], "all byte strings and texts, and all transactions, signatures and proofs",
     "Tests decode only what they have encoded; truncated, empty or overlong items are not sampled.",
     [P + "codec/", P + "types/", T, "common/version/src/lib.rs"],
     [("Decodable::decode", P + "codec/"), ("FromStr, TryFrom, Deserialize", P + "types/primitive.rs"), ("deserialize_hex_u64", T + "types/decode.rs")],
     technique=PANIC, note=PANICNOTE)
prop("C08", "The light tools' types encode to the same bytes as the node's",
     "Headers, blocks, proposals, proofs, votes, validators, metadata, their versions and propose counts of axon-tools encode in RLP to exactly the list of items, in the same order and form, as the node's own types, and decode back to the same value, so their hashes are those of the node. "
     "A missing or malformed item or an unknown block version is an error; hex text denotes its bytes in the encoding. "
     "Validators compare by their public keys, and a metadata version contains exactly the heights from its start to its end.",
     ["inputs"], "all values of these types, and all byte strings given to the decoders",
     "Tests compare two recorded blocks.", [T + "types/", T + "lib.rs"], [("derived and hand-written codecs", T + "types/block.rs"), ("Validator ordering", T + "types/block.rs")])
prop("C09", "A proof is accepted only if two thirds of the validators signed that proposal",
     "Verifying a block's proof succeeds only if the proof names the hash of the given block's proposal with the given previous state root, and the aggregated signature verifies, under the aggregate of the public keys of exactly the validators marked in the bitmap (in sorted order), over the hash of the precommit vote for that height, round and block hash. "
     "It fails if a key or signature is malformed or the marked validators number no more than two thirds of the whole list.",
     ["inputs"], "all blocks, validator lists, state roots and proofs",
     "Tests verify one recorded block's proof and no forged one.", [T + "proof.rs"], [("verify_proof", T + "proof.rs"), ("extract_pks", T + "proof.rs")])
prop("C10", "A CKB Merkle proof is accepted only for the given roots, positions and leaves",
     "Verifying a CKB transaction proof succeeds only if the given transactions root is the Merkle root of the raw transactions root followed by the witnesses root, and the indices and lemmas prove the given leaves against the raw transactions root (kind 0) or the witnesses root (any other kind). "
     "The proof and its payload encode to the RLP lists and to the ABI tuples (field types and order) that the precompiled contract reads.",
     ["inputs"], "all proofs and payloads", "No existing test covers it.", [T + "precompile.rs"], [("verify_proof", T + "precompile.rs"), ("VerifyProofPayload", T + "precompile.rs")])
prop("C11", "Every digest is the Keccak-256 of exactly the given bytes",
     "Each of the repository's hash functions gives the Keccak-256 (not SHA-3) of all the bytes it is given, in one piece, including for empty input. "
     "The precomputed hashes of empty values that the code uses as constants are equal to what they stand for.",
     ["inputs"], "all byte strings",
     "Tests hash a few samples and never compare the precomputed constants.", ["common/hasher/src/lib.rs", P + "types/primitive.rs", "devtools/axon-tools/src/hash.rs"],
     [("keccak256", "common/hasher/src/lib.rs"), ("Hasher::digest", P + "types/primitive.rs")])
prop("C12", "Merkle and trie roots and proofs commit to every item and its position",
     "The binary Merkle tree is built over all the given hashes in order, a parent being the Keccak-256 of the left child followed by the right, and a proof lists the siblings in order with the side of each. "
     "The ordered trie holds each item's complete encoding under the RLP of its index, and its root and proofs are those of that trie. "
     "The light tools verify a trie proof against exactly the given root and key, with Keccak-256 as its hash.",
     ["inputs"], "all lists of hashes, items and receipts, and all indices",
     "Tests build one random list; an item skipped, a swapped side or a different key at some index is not sampled.", ["common/merkle/src/lib.rs"],
     [("Merkle", "common/merkle/src/lib.rs"), ("TrieMerkle", "common/merkle/src/lib.rs")])
prop("C18", "CKB-VM calls, cycle conversion and CKB structures keep their values",
     "Gas converts to cycles by a factor of 6000 and back by dividing by it; a call runs the program found at the given out point with the given arguments and cycle limit, a missing program or a failed load or run is an error, and the exit code and consumed cycles reported are those of that run. "
     "Converting scripts, out points and cell dependencies to CKB's own structures keeps every field in its place. "
     "Signing a cross-chain transaction signs, for every requested group, the transaction hash followed by the length and content of each witness of the group in order, and puts the signature into the lock of the witness at the requested location.",
     ["inputs"], "all programs, arguments, limits, structures and transactions",
     "The only tests of this part need network resources and do not run.", ["core/interoperation/src/lib.rs", P + "types/interoperation.rs", P + "types/ckb_client.rs"],
     [("call_ckb_vm", "core/interoperation/src/lib.rs"), ("From impls", P + "types/interoperation.rs"), ("sign", P + "types/ckb_client.rs")])
prop("C19", "A version is the parsed semantic version plus the commit it was built from",
     "Reading a version from text gives the semantic version in it or an error; a version made from text carries the commit id it was given, `unknown` when none was, and reports it in lowercase. Versions compare by semantic-version order.",
     ["inputs"], "all version texts and commit ids", "One test parses the default commit id.", ["common/version/src/lib.rs"],
     [("Version", "common/version/src/lib.rs")])
prop("C22", "Tags of enumerations are those documented, and unknown ones are refused",
     "Block versions and peer tags convert to their documented number or text and back, storage categories keep their names apart, and a number that denotes no block version is refused with an error. "
     "Two peer tags that are equal hash equally.",
     ["inputs"], "all numbers, texts and tags", "Tests convert no unknown value.", [P + "types/block.rs", P + "traits/network.rs", P + "traits/storage.rs"],
     [("TryFrom<u8> for BlockVersion", P + "types/block.rs"), ("PeerTag", P + "traits/network.rs")])
prop("C23", "Blocks, receipts, blooms and execution contexts are made of the right parts",
     "A block built from a proposal and its execution result carries the proposal's fields, the result's roots and bloom, and the summed gas; each receipt records, in transaction order, its own transaction's hash, sender and index, that transaction's execution result and logs, and the number of logs before it in the block. "
     "The logs bloom covers the address and every topic of every log, and the context that a block is executed in has exactly that block's or proposal's values.",
     ["inputs"], "all proposals, blocks, execution results and headers",
     "No existing test covers block assembly or receipts with several transactions.", [P + "types/block.rs", P + "types/executor.rs", P + "types/receipt.rs"],
     [("Block::new, generate_receipts_and_logs", P + "types/block.rs"), ("logs_bloom", P + "types/executor.rs"), ("ExecutorContext::from", P + "types/executor.rs")])
prop("C24", "Metadata, validators and hardfork information convert without loss",
     "Converting metadata and consensus configuration between their versions, forms and parts keeps every value, fills in only the documented default, and gives each validator the keys, address and weights it was given. "
     "A metadata version contains exactly the heights from its start to its end, validators compare by their public keys, and a hardfork is recorded, with the flags before it, only if it adds a flag at a height not below the last one's.",
     ["inputs"], "all metadata, configurations, validators, versions, heights and hardfork lists",
     "Tests cover one conversion of default values.", [P + "types/primitive.rs"],
     [("From impls of Metadata and ConsensusConfig", P + "types/primitive.rs"), ("MetadataVersion::contains", P + "types/primitive.rs"), ("HardforkInfo::push", P + "types/primitive.rs")])
prop("C26", "A transaction's fields and maximum cost are read from its own kind",
     "Recipient, action, data, value, nonce, gas limit, gas price, priority fee and access list of a transaction are those of its payload, whatever its type, a contract creation has no recipient, and changing its action or data changes nothing else. "
     "The maximum cost is its gas limit times its gas price (the low 64 bits of each) plus its value, at most the largest number there is.",
     ["inputs"], "all transactions of the three types", "Tests read the fields of legacy samples only.", [P + "types/transaction.rs"],
     [("accessors of UnsignedTransaction", P + "types/transaction.rs"), ("may_cost", P + "types/transaction.rs")])
prop("C14", "Configuration files are read with their documented members, defaults and places",
     "Each section of the node's configuration has the documented member names; a required member that is missing, or a value of the wrong kind, is an error, an optional one gets its documented default, and none is taken from another's place. "
     "The databases, write-ahead logs and version file lie under the configured data directory with names of their own, and files named in the configuration are relative to the directory of the configuration file. "
     "A private key file or text is accepted only if it is exactly 32 bytes, and the command line's key is that of its one source.",
     ["inputs"], "all configuration files, key files and key texts",
     "The existing tests read one sample configuration; absent members, other data directories and short or long key files are not sampled.",
     ["common/config-parser/src/"],
     [("Config and its sections", "common/config-parser/src/types/config.rs"), ("parse_reader, parse_json, parse_file", "common/config-parser/src/lib.rs"), ("private key parsers", "common/config-parser/src/types/spec.rs")])
prop("C15", "The chain specification gives every node the same genesis header and hardforks",
     "The genesis header built from a chain specification has its timestamp, base fee and chain id, the roots of empty lists and default values everywhere else; its hardfork information starts at block 0. "
     "Hardfork flags are the union of the named hardforks' bits, of all hardforks if none is named, as a little-endian number in the last eight bytes. "
     "Members of the specification file have the documented names, and printing the command line's private key for debugging shows nothing of it.",
     ["inputs"], "all chain specifications, hardfork lists and keys",
     "No test builds a genesis header or hardfork flags.",
     ["common/config-parser/src/types/spec.rs"],
     [("Genesis", "common/config-parser/src/types/spec.rs"), ("HardforkInput", "common/config-parser/src/types/spec.rs"), ("Debug of PrivateKey", "common/config-parser/src/types/spec.rs")])
prop("C27", "JSON members have their documented names, formats and defaults",
     "Every type that is written as or read from JSON (RPC results, transactions, metadata, hardforks, validators, CKB-related types) uses the documented name and format for each member, in both directions. "
     "A missing member is an error unless it is documented as optional, then it has its documented default; enumerations use their documented names. "
     "The light tools' types use the node's names and formats.",
     ["inputs"], "all values of the serialisable types of the protocol and the light tools, and all JSON texts",
     "Tests convert one or two types; a renamed member or changed default that both directions share is never noticed.",
     [P + "types/", P + "codec/mod.rs", "devtools/axon-tools/src/types.rs"],
     [("derived Serialize and Deserialize", P + "types/"), ("derived Serialize and Deserialize of the light tools", "devtools/axon-tools/src/types.rs")],
     technique="derived serialisation code abstracted from MIR to a table of members, formats and defaults, compared with the documented table",
     note="The bodies the compiler generates for each derived impl are read from MIR; every member of every type is compared with a table kept in ax/rules/jsonform.jsonl.")
prop("C17", "CKB RPC calls send the right request to the right server and return its answer",
     "Each call of the CKB client is one JSON-RPC 2.0 request with its documented method name and its parameters in order, posted to the CKB, Mercury or indexer address that it belongs to, under a number that no other request of this client has, also when calls run concurrently. "
     "Its result is what the server answered; a failed request, an error answer or a result of another form gives an error, not a panic. "
     "Fetching several transactions gives one result per hash, in the order of the hashes.",
     ["inputs", "schedules"], "all parameters, all answers of the servers, all interleavings of calls",
     "No test runs the client: it needs servers.", ["core/rpc-client/src/client.rs", P + "traits/ckb_client.rs"],
     [("impl CkbClient for RpcClient", "core/rpc-client/src/client.rs")])

prop("C16", "Logs go where the configuration says and rotation keeps the rotated log",
     "A rotated log ends up, with its content, under the pattern with the current UTC date and timestamp filled in, whose directory is created when it is missing; its old name is gone afterwards, also when it cannot be renamed and is copied, and a copy that fails is an error which leaves the log in place; a pattern that lacks one of the two placeholders is refused. "
     "Each appender, logger and level follows from the settings: console, file and per-module level as given, the metrics log only when it is on, and an unknown level name means info. "
     "A logged event carries its level, target, content and event name, and the trace and span number of its context when that has one.",
     ["inputs", "fault_sequences"], "all settings, paths, contents and failures of a file operation",
     "The two tests rotate one file and log one event.", ["common/logger/src/date_fixed_roller.rs", "common/logger/src/lib.rs"],
     [("DateFixedWindowRoller::roll_file", "common/logger/src/date_fixed_roller.rs"), ("init", "common/logger/src/lib.rs")])

prop("C25", "Batch reads keep the order of their keys and initial values are neutral",
     "Reading several keys gives one result per key, in the order of the keys, and fails if reading any of them fails. "
     "A new execution result or receipt is a successful stop with no gas, fee, output, logs or created address, a new validator has no weight, and the default address is the zero address. "
     "The placeholder input of CKB image cells refers to output 0 of the transaction hash ckb-blake2b-256(`DummyInputOutpointTxHash`).",
     ["inputs"], "all lists of keys and all storage adapters", "No test reads a batch or looks at default values.",
     [P + "traits/storage.rs", P + "types/", P + "lazy.rs"], [("StorageAdapter::get_batch", P + "traits/storage.rs")])
prop("C28", "Storage finds every record again under the key it was stored with",
     "Blocks and headers are kept by height and the height by block hash; transactions and receipts by height and transaction hash and the height by transaction hash; contract code by code hash and the code hash by address; the latest block, the latest proof and the hardfork proposal each under a key of their own. "
     "A write puts exactly the given record under its key in the table of its kind and the read of that kind asks for the same key; what a cache or memory answers was read or stored under the same key, and a failure of the database is returned. "
     "A list of transactions or receipts has one answer per asked hash, in the order of the hashes; keys are the big-endian height followed by the hash.",
     ["inputs", "histories"], "all records, keys and states of the database",
     "Tests write and read a few records; a read under another key, in another table or from another cache shows only for particular histories.",
     ["core/storage/src/"],
     [("impl Storage and ReadOnlyStorage for ImplStorage", "core/storage/src/lib.rs"), ("key encodings", "core/storage/src/hash_key.rs"), ("tables", "core/storage/src/schema.rs")])

prop("C29", "Database operations act on their own table, completely, or report the failure",
     "Every category has a table of its own, named c0 to c10, and opening the database opens all of them. Insert, get, remove and contains encode the key and act on the table of the schema's category; get decodes what is stored, and errors of codec and database are returned; a batch with as many values as keys puts or removes the n-th key according to the n-th value and is written as one synced batch, after every key and value was encoded; any other batch is refused and changes nothing. "
     "Iteration starts at the prefix and decodes every key and value.",
     ["inputs", "histories", "crash_points"], "all schemas, keys, values and batches",
     "Tests use a few records; a wrong table, a batch that is applied in part or not synced shows only after a crash or with other data.",
     ["core/db/src/rocks.rs"],
     [("RocksAdapter", "core/db/src/rocks.rs"), ("get_column and map_category", "core/db/src/rocks.rs")])

prop("C30", "Precompiled contracts have their addresses, prices and results",
     "Exactly thirteen addresses have a precompiled contract: 0x01 to 0x09 (ecrecover, sha256, ripemd160, identity, modexp, the three alt_bn128 operations, blake2f) and 0x102 (CKB header), 0x104 (CKB-VM call), 0x106 (CKB blake2b), 0x107 (CKB Merkle proof), each with the ABI form of its input. "
     "For every input and gas limit each of them costs what its price formula gives, fails when the limit is lower, fails (and does not panic) on input it cannot decode, and otherwise returns exactly what its specification defines. "
     "Modexp and blake2f parse lengths, exponent head, rounds and words at the documented offsets, with missing modexp input read as zeros.",
     ["inputs"], "all inputs, gas limits and light client states",
     "Tests have a few vectors per contract; a wrong price or an overflow shows only for particular lengths and limits.",
     ["core/executor/src/precompiles/mod.rs", "core/executor/src/precompiles/modexp.rs"],
     [("build_precompile_set", "core/executor/src/precompiles/mod.rs"), ("PrecompileContract::exec_fn and gas_cost", "core/executor/src/precompiles/")])

prop("C31", "World state reads and writes follow the account model",
     "An account is stored in the state trie under the Keccak hash of its address as the RLP of its nonce, balance, storage root and code hash; an absent account reads as zero nonce, zero balance, empty code and empty storage. A storage slot is in its account's own trie under the Keccak hash of its key, as the RLP of the value without leading zeros, and writing zero removes it; code is found by its hash. "
     "Applying the changes of a transaction, in order, sets nonce and balance, resets or updates the storage, stores new code under its hash and the new account in the state trie, removes deleted accounts, and keeps the transaction's logs; gas price, origin, block number, hash (of the last 256 blocks only), coinbase, time, base fee, gas limit and chain id come from the executed block's context; trie nodes go to the table of their state (EVM, metadata or light client) and are read back from cache or table; a batch with different numbers of keys and values fails and writes nothing.",
     ["inputs", "histories"], "all accounts, slots, change sets and contents of the state",
     "Tests apply a few changes; what a read gives depends on all writes before.",
     ["core/executor/src/adapter/backend/apply.rs", "core/executor/src/adapter/backend/read_only.rs", "core/executor/src/adapter/trie/db.rs", "core/executor/src/adapter/trie/wrapped.rs"],
     [("AxonExecutorApplyAdapter::apply", "core/executor/src/adapter/backend/apply.rs"), ("RocksTrieDB", "core/executor/src/adapter/trie/db.rs")])

prop("C32", "Transactions and blocks are executed as specified",
     "Executing a transaction deducts gas limit times price (but not below zero) and raises the sender's nonce by one, applies state changes only on success, gives back the price of the remaining gas, charges price times used gas, and reports a code address, keccak of the RLP of sender and nonce, only for a successful creation; a call leaves no trace and an estimate adds a quarter. "
     "A block runs the hook before it, then each transaction in order in a system contract or the EVM, sums used gas and fees, allocates the fees (not in block 0) to the validators by weight with the proposer known to the allocator, runs the hook after it and commits once; its receipt root is that of the receipts with their logs and blooms, and the root of no receipts is that of an empty trie. "
     "Contract size limits come from the consensus configuration once Andromeda is enabled, and revert data of any form is decoded without panic.",
     ["inputs", "histories"], "all transactions, blocks, results of the EVM and system contracts",
     "Tests run a few transactions with one outcome each; who pays what shows for reverted, failing and system transactions and particular prices.",
     ["core/executor/src/lib.rs", "core/executor/src/utils.rs"],
     [("AxonExecutor::exec, call and evm_exec", "core/executor/src/lib.rs"), ("DefaultFeeAllocator", "core/executor/src/lib.rs"), ("decode_revert_msg and code_address", "core/executor/src/utils.rs")])

prop("C33", "System contracts keep native tokens, metadata and hardforks as specified",
     "A call of one of the four contract addresses goes to that contract, other addresses of their form are reserved, and their data, keys and roots are kept in the accounts' storage; a failing call changes nothing and costs the whole limit. "
     "The native token contract mints the value to, or burns it from, the 20-byte address after the direction byte, and never more than the balance. "
     "After genesis only a validator of the running epoch changes metadata: a new epoch is the next one, starts right after the last and has a zero proposal count for each verifier; a block belongs to the epoch whose range holds it, its proposer's count rises by one after it, and hardfork flags apply from the block they were announced for.",
     ["inputs", "histories"], "all calls of the system contracts, stored metadata and block numbers",
     "Tests append two epochs and read some numbers; ranges, order, rights and roots matter for every history of calls.",
     ["core/executor/src/system_contract/mod.rs", "core/executor/src/system_contract/metadata/", "core/executor/src/system_contract/native_token.rs", "core/executor/src/system_contract/utils.rs"],
     [("system_contract_dispatch and is_call_system_script", "core/executor/src/system_contract/mod.rs"), ("NativeTokenContract", "core/executor/src/system_contract/native_token.rs"),
      ("MetadataContract and the hook after a block", "core/executor/src/system_contract/metadata/mod.rs"), ("MetadataStore", "core/executor/src/system_contract/metadata/store.rs"),
      ("EpochSegment", "core/executor/src/system_contract/metadata/segment.rs")])
prop("C34", "CKB headers and cells are kept as the light client reports them",
     "An update keeps each header under its block hash, each output as a live cell under transaction hash and little-endian index with its lock, type, capacity, data and block, and marks each known input consumed by the block; a rollback removes the headers and outputs, failing where there is none, and makes the inputs live again. "
     "The root changes only by a whole successful update, and is written to the accounts of both contracts. "
     "Reading by a root, also for CKB scripts run in the node, gives what was kept under it, consumed cells included, and a cell or header never kept is absent.",
     ["inputs", "histories"], "all updates, rollbacks, roots, cells and headers",
     "Tests write a few random headers and cells; what is kept, and what is undone, matters for each field and order.",
     ["core/executor/src/system_contract/ckb_light_client/", "core/executor/src/system_contract/image_cell/"],
     [("CkbLightClientStore", "core/executor/src/system_contract/ckb_light_client/store.rs"), ("ImageCellStore and CellKey", "core/executor/src/system_contract/image_cell/store.rs"),
      ("DataProvider", "core/executor/src/system_contract/mod.rs")])

prop("C35", "Only valid transactions enter the mempool, also from other nodes",
     "A transaction is taken into the pool only if it is signed for this chain or none, within the size, gas price and gas limit bounds, its signature gives its sender (or its CKB lock script accepts), its nonce is not below the account's, the balance covers its cost, and it is not committed; transactions to system contracts come only from validators of the next block. "
     "The same holds for transactions pulled for a proposal, which are exactly those asked for, in a proposal without repeats. "
     "An accepted transaction is handed on once, not to the node it came from; full transactions are given for all the hashes asked for, or not at all.",
     ["inputs", "histories"], "all transactions, accounts, states of the pool and answers of other nodes",
     "Tests insert some mock transactions through a mock adapter; each check must hold for every transaction and each way in.",
     ["core/mempool/src/lib.rs", "core/mempool/src/adapter/", "core/mempool/src/context.rs"],
     [("MemPoolImpl", "core/mempool/src/lib.rs"), ("DefaultMemPoolAdapter", "core/mempool/src/adapter/mod.rs"), ("NewTxsHandler and PullTxsHandler", "core/mempool/src/adapter/message.rs")])

prop("C36", "The pool packs what is ready, replaces, times out and counts correctly",
     "A sender's transaction becomes ready once those before it have come, a higher gas price replaces the one with the same nonce, and one below the sender's tip is dropped; a package has one system transaction per call data first, then ready, not dropped others, up to the limit. "
     "After a block its transactions, its senders' up to that nonce, those older than the timeout and dropped ones have left the pool, whose length is what it holds; a full pool takes no more, except for a proposal. "
     "What touches the pool holds its flush lock, a flush exclusively.",
     ["inputs", "histories", "schedules"], "all sequences of insertions, packages and flushes, at any time relative to one another",
     "Tests sample a few orders of insertion and flushing; counts and readiness depend on the whole history, and a missing lock shows only under rare schedules.",
     ["core/mempool/src/pool.rs", "core/mempool/src/tx_wrapper.rs"],
     [("PriorityPool and BuiltInContractTxBucket", "core/mempool/src/pool.rs"), ("PendingQueue and TxWrapper", "core/mempool/src/tx_wrapper.rs")],
     technique=COMPARE + "; lock-held analysis over the same paths")

prop("C37", "A proposed block is checked and made as specified",
     "A proposal is accepted only if its proposer, chain id, number, previous hash, timestamp, previous state root, base fee, gas limit, transaction root and size and system transactions are those the chain's state calls for, "
     "and its previous block's proof carries a valid aggregate signature of more than two thirds of that epoch's voting weight. "
     "Its transactions are all fetched and checked with the mempool before it is voted for. A block this node proposes has just these contents.",
     ["inputs", "histories"], "all proposals, proofs and previous blocks, of honest and faulty proposers",
     "Tests check no proposal at all; a faulty validator can choose every field of one.",
     ["core/consensus/src/engine.rs", "core/consensus/src/adapter.rs", "core/consensus/src/util.rs"],
     [("get_block, check_block and what they call", "core/consensus/src/engine.rs"), ("verification of headers, proofs and transactions", "core/consensus/src/adapter.rs"),
      ("OverlordCrypto", "core/consensus/src/util.rs")], technique=COMPARE)
prop("C38", "A committed block is executed, stored and made current as specified",
     "A decision for the next number, of a block this node holds, is executed on the current state, stored with its proof, transactions and receipts, becomes the current status, is removed from the mempool and announced; any other is refused. "
     "The next authority list, intervals and hardfork proposal come from the metadata of the next block's epoch. "
     "All of it happens holding the lock shared with synchronization; a node stops at its set height.",
     ["inputs", "histories", "schedules"], "all decisions, statuses and epoch boundaries, at any time relative to synchronization",
     "Tests commit no block through the engine; epoch boundaries and a decision during synchronization are never sampled.",
     ["core/consensus/src/engine.rs", "core/consensus/src/adapter.rs", "core/consensus/src/status.rs", "core/consensus/src/stop_signal.rs", "core/consensus/src/consensus.rs"],
     [("commit and update_status", "core/consensus/src/engine.rs"), ("what consensus stores and reads", "core/consensus/src/adapter.rs"), ("StatusAgent", "core/consensus/src/status.rs")],
     technique=COMPARE + "; lock-held analysis over the same paths")

prop("C39", "Synchronization adopts only proved blocks that execute to their header",
     "A block from another node is stored only if it is the next one, its own and its predecessor's proof verify, its header follows the previous block, it comes with exactly its transactions, and executing them gives its header. "
     "It is stored with its receipts and proof, the block itself last; then status, validators and consensus go on from the last block reached, also when synchronization ended early. "
     "One synchronization runs at a time, and none while a decision is applied.",
     ["inputs", "schedules"], "all blocks, proofs and transactions other nodes may send, at any time relative to decisions",
     "Tests synchronize with a mock that returns errors only; forged answers and concurrent decisions are never tried.",
     ["core/consensus/src/synchronization.rs", "core/consensus/src/adapter.rs"],
     [("OverlordSynchronization and SyncStatus", "core/consensus/src/synchronization.rs"), ("requests to other nodes", "core/consensus/src/adapter.rs")],
     technique=COMPARE + "; lock-held analysis over the same paths")
prop("C40", "Consensus messages and write-ahead logs survive wire, crash and damage",
     "Each message from another node reaches the function for its kind with the bytes that were sent, and a malformed one is an error; requests for blocks, proofs and transactions are answered with those stored. "
     "The transactions of a voted block are found again under its number and digest until a later block is committed. "
     "The consensus log keeps the last complete state whenever a write is cut short, and never returns one whose checksum is wrong.",
     ["inputs", "crash_points", "histories"], "all messages and requests, all crash points while a log is written",
     "Tests write and read back a few intact files and messages.",
     ["core/consensus/src/wal.rs", "core/consensus/src/message.rs", "core/consensus/src/types.rs"],
     [("SignedTxsWAL and ConsensusWal", "core/consensus/src/wal.rs"), ("message handlers", "core/consensus/src/message.rs"), ("ConsensusRpcResponse", "core/consensus/src/types.rs")],
     technique=COMPARE)

prop("C41", "JSON-RPC answers tell what the chain holds at the block asked for",
     "A request is answered from the block that was meant, by number, tag or hash, and an unknown hash is refused; balances, nonces, code, storage, proofs, blocks, transactions and receipts are those the node stores, field by field. "
     "eth_call and eth_estimateGas run the request as given on that block's state, and what is submitted reaches the pool after the limits on gas and price. "
     "Each method is reached under its own name with its parameters in order, on every configured server within the configured limits, and whatever number a client sends, it gets an answer or the error with its code.",
     ["inputs", "histories", "configurations"], "all requests and all chain contents",
     "Tests query a handful of blocks; the code is not even compiled by the existing test build.",
     ["core/api/src/jsonrpc/impl/web3.rs", "core/api/src/jsonrpc/impl/axon.rs", "core/api/src/jsonrpc/impl/node.rs", "core/api/src/jsonrpc/web3_types.rs", "core/api/src/adapter.rs", "core/api/src/jsonrpc/error.rs"],
     [("Web3RpcImpl", "core/api/src/jsonrpc/impl/web3.rs"), ("Web3Receipt, Web3Transaction, Web3Block", "core/api/src/jsonrpc/web3_types.rs"), ("DefaultAPIAdapter", "core/api/src/adapter.rs")],
     technique=COMPARE)

prop("C42", "Logs, filters and subscriptions tell a client everything it asked for, once",
     "A log is given to exactly those clients whose addresses and topics it matches, with the block, the transaction and the place it came from; a search covers the blocks asked for and is refused when there are too many. "
     "A filter, and a subscription, goes on from the block after the last one told, leaves none out and repeats none; one that nobody asked about for 40 seconds, or whose client is gone, is dropped. "
     "What a client asks of the filters reaches them, and their answer is its answer.",
     ["inputs", "histories", "schedules"], "all filters and subscriptions, all receipts, all sequences of requests and new blocks",
     "Tests do not reach it: the code is not even compiled by the existing test build, and what is told depends on when a client asks between which blocks.",
     ["core/api/src/jsonrpc/impl/web3.rs", "core/api/src/jsonrpc/impl/filter.rs", "core/api/src/jsonrpc/ws_subscription.rs", "core/api/src/jsonrpc/web3_types.rs"],
     [("get_logs, from_receipt_to_web3_log", "core/api/src/jsonrpc/impl/web3.rs"), ("FilterHub", "core/api/src/jsonrpc/impl/filter.rs"), ("Subscription", "core/api/src/jsonrpc/ws_subscription.rs")],
     technique=COMPARE)

prop("C43", "A chain begins as specified, and a node starts from the chain it has stored",
     "The genesis state is the specification's accounts, system contracts, metadata of the first two epochs and hardforks; its block carries the roots and the bloom of that state, and its proof, block, transactions and receipts are stored; a chain is begun only where there is none. "
     "A node starts at its latest block: pool, recovered transactions, metadata, validators and their keys, timing and status are those of that block, the stop height is the one asked for, each kind of message goes to the part that answers it, and a failing step stops the start. "
     "A hardfork is proposed only for a later block and only if it enables something new.",
     ["inputs", "configurations", "crash_points"], "all specifications and configurations, all stored chains a node can be started from",
     "The one test of this crate compares fixed genesis files and is not part of the build here; how a node starts after a crash depends on the chain it finds.",
     ["core/run/src/lib.rs", "core/run/src/components/storage.rs", "core/run/src/components/network.rs", "core/run/src/key_provider.rs"],
     [("init, execute_genesis, set_hardfork_info", "core/run/src/lib.rs"), ("run, start", "core/run/src/lib.rs"), ("NetworkServiceExt", "core/run/src/components/network.rs")],
     technique=COMPARE)

NA = []


def na(id, title, statement, over, text, why, files, reason):
    NA.append((dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                    anchors=dict(files=files, mechanism=[dict(name=title, where=files[0])], observe_at=[])), reason))


na("N01", "All correct validators commit the same block at every height",
   "Whatever the message delays and whatever up to a third of the voting weight does, no two correct validators commit different blocks at one height.",
   ["schedules", "fault_sequences"], "all schedules of messages, all behaviours of faulty validators",
   "A test runs one schedule of a few nodes.", ["core/consensus/src/engine.rs", "core/consensus/src/consensus.rs"],
   "Agreement is decided by the voting state machine of the external crate overlord, whose source is not part of this repository, and quantifies over schedules "
   "and adversaries; no dataflow or typestate argument over this tree bounds them. What the tree itself contributes (hashes, votes, proofs, checks) is claimed separately.")
na("N02", "Every valid transaction is eventually included in a block",
   "A transaction that was accepted into the pool, pays enough and stays valid is executed in some later block, and new blocks keep being produced while two thirds of the validators are correct.",
   ["schedules", "histories"], "all schedules and histories", "Liveness has no finite witness that a test could observe.",
   ["core/mempool/src/pool.rs", "core/consensus/src/engine.rs"],
   "Liveness over unbounded schedules, timers and the behaviour of other nodes; static analysis of the source gives no ranking argument for it.")
na("N03", "A node's memory and queues stay bounded whatever its peers send",
   "No sequence of messages from peers or RPC clients makes the node's pools, caches, pending requests and channels grow without bound.",
   ["inputs", "schedules"], "all message sequences", "A test sends a finite number of messages.",
   ["core/network/src/", "core/mempool/src/", "core/api/src/"],
   "The bound is a runtime quantity (rates of producers and consumers of unbounded tokio channels, peers' behaviour, eviction timing); a type or dataflow argument "
   "would have to refuse the unbounded channels that the design uses.")
na("N04", "Elliptic curve, BLS and modular exponentiation routines are correct",
   "Signature recovery, BLS aggregation and verification, alt_bn128 operations and modular exponentiation give the mathematically defined result.",
   ["inputs"], "all field elements and integers", "Tests compare a few vectors.", ["common/crypto/Cargo.toml", "core/executor/src/precompiles/modexp.rs"],
   "The arithmetic is done by external crates (libsecp256k1/ophelia, blst, substrate-bn, GMP through rug) whose numerical results no static argument over this tree reaches; "
   "the calls to them, their arguments and the treatment of their results are claimed under C03, C04, C09 and C30.")
NOT_APPLICABLE = NA

if __name__ == "__main__":
    with open(f"{V}/properties.jsonl", "w") as f:
        for p, _, _ in C:
            f.write(json.dumps(p) + "\n")
        for p, _ in NOT_APPLICABLE:
            f.write(json.dumps(p) + "\n")
    m = dict(version=1, setup_cmd="python3 -m ax.build",
             checks=[dict(property=p["id"], quick_cmd=f"python3 -m ax.check {p['id']}", thorough_cmd=f"python3 -m ax.check {p['id']} --tier thorough",
                          evidence_file=f"evidence/{p['id']}.json", technique=t, level="other", level_note=n) for p, t, n in C],
             not_applicable=[dict(property=p["id"], reason=r) for p, r in NOT_APPLICABLE])
    json.dump(m, open(f"{V}/MANIFEST.json", "w"), indent=1)
    open(f"{V}/MANIFEST.json", "a").write("\n")
