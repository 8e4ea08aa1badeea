#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so the long lines stay reviewable)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe, state=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe, "hook_needed": hook}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

E2E = "The only on-chain test is one happy-path scenario that needs a program binary absent from the tree and fails; it samples one value of everything."
NOUNIT = "No test touches this; the one passing test only checks the program id constant."

p("C01", "Honest VRF proofs always verify",
  "For every oracle secret key and every 32-byte input, the output and proof the oracle computes are accepted under the matching public key by the off-chain verifier and by the on-chain program's verifier.",
  ["inputs"], "every secret scalar (including 0, 1 and order-1), every identity keypair, every 32-byte input",
  "The repository runs one key and one input; acceptance must hold for every key and input or a request can never be answered.",
  ["vrf/src/vrf.rs", "api/src/verify.rs"],
  [("compute_vrf (Schnorr/DLEQ proof)", "vrf/src/vrf.rs"), ("verify_vrf", "vrf/src/vrf.rs, api/src/verify.rs")],
  ["return value of both verifiers"])
p("C02", "VRF outputs are unique and unforgeable",
  "For a given public key and input there is exactly one output that either verifier accepts. A proof stops verifying when the public key, the input, the output, either commitment or the response is replaced by anything else, and no proof made without the secret key, or for a wrong output with it, is accepted.",
  ["inputs"], "every honest transcript and every single- and multi-component modification of it, every proof built by an adversary who may know the secret key, including proofs adapted to challenges that omit a component, non-canonical encodings and the identity point",
  "Soundness is a statement about all proofs an adversary can construct; tests only present one honest proof.",
  ["vrf/src/vrf.rs", "api/src/verify.rs"],
  [("Fiat-Shamir challenge over output, both commitments, key and input", "vrf/src/vrf.rs, api/src/verify.rs"), ("two-equation DLEQ check", "vrf/src/vrf.rs, api/src/verify.rs")],
  ["return value of both verifiers"])
p("C03", "On-chain and off-chain verifiers agree",
  "On every public key, input, output and proof whose parts are validly encoded, the on-chain verifier and the off-chain verifier return the same answer. Byte strings that are not valid encodings are rejected on-chain without a panic.",
  ["inputs"], "every combination of 32-byte strings as key, input, output, commitments and response: honest, tampered, adversarial and random",
  "They are two separate implementations over two curve libraries; agreement needs every input, tests try one.",
  ["vrf/src/vrf.rs", "api/src/verify.rs"],
  [("duplicated hash_to_point / hash_to_scalar / challenge", "vrf/src/vrf.rs, api/src/verify.rs")],
  ["return values of both verifiers on the same bytes"])
p("C04", "VRF keys and outputs are deterministic and distinct",
  "An oracle's VRF key pair is a deterministic function of its identity keypair whose public part is the secret times the base point, and different identities have different keys. Output and proof are a deterministic function of secret key and input, and outputs for different keys or different inputs differ, including inputs that differ in a single bit.",
  ["inputs"], "every identity keypair, every pair of inputs and every pair of keys, repeated and concurrent evaluations",
  "Determinism and injectivity are relations over pairs of runs; tests evaluate once.",
  ["vrf/src/vrf.rs"],
  [("HKDF key derivation", "vrf/src/vrf.rs generate_vrf_keypair"), ("hash-to-point with domain prefix", "vrf/src/vrf.rs"), ("deterministic nonce", "vrf/src/vrf.rs compute_vrf")],
  ["returned key pair, output and proof"])
p("C05", "Public transcripts do not reveal the oracle's secret key",
  "From an oracle's identity public key, its VRF public key and any number of published outputs and proofs, the VRF secret key cannot be recovered. In particular no two different inputs share a proof nonce, nonces are full-size and not computable from public data, and the secret key depends on the secret half of the identity keypair.",
  ["inputs", "histories"], "every identity, every set of inputs answered by the same key, related inputs, related keys",
  "Leaks show only across several transcripts or statistically; a single verify test passes with a constant nonce.",
  ["vrf/src/vrf.rs"],
  [("HKDF nonce over secret key and input", "vrf/src/vrf.rs compute_vrf"), ("HKDF over full keypair", "vrf/src/vrf.rs generate_vrf_keypair")],
  ["published outputs and proofs"])
p("C06", "VRF outputs are unpredictable without the secret key",
  "Before a request is answered, nobody who lacks the oracle's VRF secret key can compute its output or the randomness that will be delivered, whatever public keys, inputs and earlier answers they have seen.",
  ["inputs", "histories"], "every key and input, every list of earlier transcripts, every predictor in a family of public computations",
  "Tests never play the adversary: any value that verifies passes them, predictable or not.",
  ["vrf/src/vrf.rs", "api/src/verify.rs", "program/src/provide_randomness.rs"],
  [("hash_to_point", "vrf/src/vrf.rs, api/src/verify.rs"), ("output = secret times hash point", "vrf/src/vrf.rs")],
  ["published outputs; delivered randomness"])
p("C07", "Only the owning registered oracle can fulfil, with a valid proof",
  "Randomness is delivered only in a transaction signed by the registered oracle that owns the queue, carrying a proof valid under that oracle's registered VRF key for a request currently pending in that queue, in a slot strictly later than the request's. Anything else is rejected and changes nothing; an honest fulfilment of any pending request is accepted.",
  ["inputs", "histories"], "every history of registrations, queues and requests, every fulfilment attempt: other oracles' keys and queues, removed oracles, missing signatures, altered proofs, unknown or answered ids, same-slot answers, look-alike accounts",
  E2E,
  ["program/src/provide_randomness.rs", "api/src/verify.rs", "api/src/steel.rs"],
  [("signer, oracle-data seeds, queue seeds and owner checks", "program/src/provide_randomness.rs"), ("verify_vrf", "api/src/verify.rs"), ("slot comparison", "program/src/provide_randomness.rs")],
  ["transaction result, callback invocations, account states"])
p("C08", "Each accepted request is delivered exactly once and never lost",
  "A request accepted into a queue stays pending, unchanged, until it is fulfilled once or purged after expiry, and then never reappears. Fulfilling, purging or adding one request leaves every other pending request of every queue intact, and a fulfilment whose callback fails leaves its request pending.",
  ["histories"], "every interleaving of requests, fulfilments (in any order), failing callbacks, purges, queue delegations and closures across several queues",
  E2E,
  ["program/src/provide_randomness.rs", "program/src/purge_expired_requests.rs", "program/src/request_randomness.rs", "api/src/state/queue.rs"],
  [("remove_item before invoking the callback, atomic transaction", "program/src/provide_randomness.rs")],
  ["pending requests of every queue, callback invocations"],
  state=[("queue items", "pending requests", "api/src/state/queue.rs")])
p("C09", "Callbacks receive exactly what was requested plus the randomness",
  "A fulfilment invokes exactly once the program named in the request, with instruction data equal to the requested discriminator, then the 32-byte SHA-256 hash of the verified output, then the requested arguments. Its accounts are the VRF program identity as first account followed by exactly the requested accounts in order, with the requested writability.",
  ["inputs", "histories"], "every discriminator of up to 8 bytes, every argument string up to 512 bytes, every list of up to 20 accounts with duplicates, queues with holes left by earlier removals",
  E2E,
  ["program/src/provide_randomness.rs", "program/src/request_randomness.rs", "api/src/state/queue.rs"],
  [("offset/length bookkeeping of variable-length parts", "api/src/state/queue.rs add_item"), ("callback assembly", "program/src/provide_randomness.rs")],
  ["the instruction received by the callback program"])
p("C10", "Callbacks never gain signatures beyond the VRF identity",
  "In a callback the only signer is the VRF program's own identity address; no requested account is ever passed as a signer, even if it was marked so in the request or signed the outer transaction. A request that lists the oracle itself among its callback accounts is never delivered, so a callback cannot spend the oracle's funds.",
  ["inputs", "histories"], "every list of requested accounts and flags, including the oracle, the queue, the identity address and transaction signers",
  E2E,
  ["program/src/provide_randomness.rs", "api/src/state/queue.rs"],
  [("compact metas drop the signer flag", "api/src/state/queue.rs"), ("oracle-in-accounts check", "program/src/provide_randomness.rs"), ("identity PDA signing", "program/src/provide_randomness.rs")],
  ["account flags of the instruction received by the callback program"])
p("C11", "Request fees are escrowed and paid exactly once",
  "An accepted request moves exactly the price of its priority (800,000 lamports high, 500,000 regular) from the payer to the queue, and the oracle receives exactly that amount when that request is fulfilled or purged. On the default ephemeral queue nothing is charged or paid. Lamports are never created, lost or sent elsewhere, and every queue always holds its rent plus the fees of its pending requests.",
  ["histories"], "every sequence of requests of both priorities, fulfilments, purges, closures, donations and failures over several queues, including the fee-free default queue",
  E2E,
  ["program/src/request_randomness.rs", "program/src/provide_randomness.rs", "program/src/purge_expired_requests.rs", "program/src/fees.rs", "api/src/consts.rs"],
  [("system transfer on request", "program/src/request_randomness.rs"), ("transfer_fee", "program/src/fees.rs")],
  ["lamport balances of payer, queue, oracle and all other accounts"])
p("C12", "Purging removes exactly the expired requests",
  "Anyone may purge a queue; a purge removes every request more than 240 slots old and no other, keeps the remaining ones in order and intact, and pays the fees of the removed ones to the queue's oracle. It never removes an unexpired request and never pays anyone else.",
  ["histories", "inputs"], "every queue content and mix of ages around the limit, every position of expired requests, callers without signature, wrong oracle, wrong index, foreign queues",
  "The test suite has one purge of a queue with one kind of item; the rule quantifies over all mixes of ages and positions.",
  ["program/src/purge_expired_requests.rs", "program/src/fees.rs"],
  [("age comparison with the TTL", "program/src/purge_expired_requests.rs")],
  ["pending requests before and after, lamport balances"])
p("C13", "Only the calling program and a paying signer can request",
  "A randomness request is accepted only if the payer signed, the identity address of the callback program signed (so only that program can request callbacks to itself), the slot hashes come from the genuine sysvar, and the target is an initialized request queue of the VRF program. Anything else is rejected and changes nothing; a well-formed request to a queue with room is accepted.",
  ["inputs", "histories"], "every combination of accounts and flags: missing signatures, identity of another program, look-alike sysvar, uninitialized, foreign, delegated or non-queue accounts as target",
  E2E,
  ["program/src/request_randomness.rs", "api/src/steel.rs"],
  [("identity PDA seeds + signer check", "program/src/request_randomness.rs"), ("is_sysvar", "api/src/steel.rs"), ("queue checks", "program/src/request_randomness.rs")],
  ["transaction result, queue contents"])
p("C14", "Accepted requests are stored faithfully and within limits",
  "An accepted request appends exactly one pending entry holding the requested callback program, discriminator, accounts with writability, arguments, priority and current slot. Requests with a discriminator over 8 bytes, more than 20 accounts or more than 512 argument bytes, or that do not fit in the queue, are rejected and leave the queue unchanged; anything within these limits that fits is accepted.",
  ["inputs", "histories"], "every discriminator, account list and argument size around and beyond the limits, queues of every size and fill level",
  E2E,
  ["program/src/request_randomness.rs", "api/src/state/queue.rs", "api/src/instruction.rs"],
  [("limits in add_item and in the request handler", "api/src/state/queue.rs, program/src/request_randomness.rs")],
  ["queue contents before and after"])
p("C15", "Request ids bind the request and never repeat",
  "The id that seeds a request's randomness depends on every bit of the caller seed, the slot, the slot hash, the timestamp, the callback discriminator and the callback program. No two requests ever accepted get the same id in the same queue, even with identical parameters in the same slot and with other requests being fulfilled or purged in between.",
  ["inputs", "histories"], "every pair of requests differing in one ingredient by one bit, every same-slot sequence of identical requests, fulfilments and purges",
  E2E,
  ["program/src/request_randomness.rs"],
  [("combined hash", "program/src/request_randomness.rs")],
  ["id stored in the queue"])
p("C16", "Only the program's upgrade authority changes the oracle registry",
  "Oracles are added or removed only in a transaction signed by the upgrade authority recorded in the VRF program's own program-data account at that moment. Other signers, a missing signature, a substituted or malformed program-data account or a program without upgrade authority are always rejected without any change.",
  ["inputs", "histories"], "every signer, every program-data account content and address, authority rotations and revocation",
  "Tests are compiled with a hard-coded test authority, so the production check is never executed by them.",
  ["program/src/modify_oracles.rs", "api/src/loaders.rs"],
  [("load_program_upgrade_authority", "api/src/loaders.rs"), ("signer comparison", "program/src/modify_oracles.rs")],
  ["transaction result, registry and oracle accounts"])
p("C17", "The oracle registry is consistent",
  "After any history the registry lists exactly the identities that have an oracle account, without duplicates, and each oracle account records the VRF key and slot of its registration. Only valid on-curve identities other than the default and system addresses can be registered; registry and oracle accounts stay exactly sized and rent-exempt; removing and re-adding works and initialization cannot be repeated.",
  ["histories", "inputs"], "every sequence of initialize, add, remove and re-add with valid and invalid identities, prefunded addresses and repeated operations",
  E2E,
  ["program/src/modify_oracles.rs", "program/src/initialize.rs", "api/src/state/oracles.rs", "api/src/pda.rs"],
  [("push/retain plus account creation/closing", "program/src/modify_oracles.rs"), ("resize_pda", "api/src/pda.rs")],
  ["registry list and oracle accounts"])
p("C18", "Queues are created only by seasoned oracles and correctly sized",
  "A queue is initialized only at its oracle's own address for the given index, with the oracle's signature, at least 200 slots after that oracle's registration, and only once while it exists. When initialization completes the queue is empty, has the requested index and size, is rent-exempt and accepts requests; large queues grow by at most 10,240 bytes per instruction until complete and cannot be used before.",
  ["histories", "inputs"], "every target size including zero, tiny and multi-step ones, sizes changed between steps, every registration age around 200, repeated and interrupted initialization, prefunded addresses",
  E2E,
  ["program/src/initialize_oracle_queue.rs", "api/src/pda.rs", "api/src/loaders.rs"],
  [("slot comparison, seeds, is_empty_or_zeroed", "program/src/initialize_oracle_queue.rs"), ("create_pda/resize_pda", "api/src/pda.rs")],
  ["queue account, oracle account"])
p("C19", "Open queues are counted; busy queues and oracles cannot be removed",
  "An oracle's open-queue count always equals the number of its initialized queues. Only the owning oracle can close a queue, only when it has no pending request, and it then receives the whole balance; an oracle with an open queue cannot be removed.",
  ["histories"], "every history of creating, partially creating, using, delegating, closing and re-creating queues and of removing oracles",
  E2E,
  ["program/src/close_oracle_queue.rs", "program/src/initialize_oracle_queue.rs", "program/src/modify_oracles.rs"],
  [("open_queue counter", "program/src/initialize_oracle_queue.rs, program/src/close_oracle_queue.rs")],
  ["oracle account counter, queue accounts, lamports"])
p("C20", "Accounts cannot be confused or hijacked",
  "No instruction changes a VRF program account that its role does not entitle it to change: a registry or oracle account is never treated as a queue or the reverse, another oracle's or a partially created account is never accepted in place of the right one, and the program rejects look-alike accounts with the right bytes but the wrong owner or address.",
  ["inputs", "histories"], "every instruction with any account replaced by any other account of the world or by a forged copy, in every reachable state",
  E2E,
  ["program/src/lib.rs", "program/src/request_randomness.rs", "program/src/purge_expired_requests.rs", "program/src/close_oracle_queue.rs", "api/src/steel.rs"],
  [("owner, seeds, discriminator and length checks", "api/src/steel.rs")],
  ["every account of the program before and after each instruction"])
p("C21", "The request queue behaves like a list of requests",
  "For every sequence of additions, removals by position and lookups, the queue behaves like a plain list: additions append, removals take out exactly the chosen entry, lookups by position and id, length and iteration agree with the list, and every entry's discriminator, accounts and arguments read back unchanged. A failed operation changes nothing, and reloading the bytes gives the same queue.",
  ["histories", "inputs"], "every operation sequence on every buffer size, entries of every size, removal in every order",
  NOUNIT,
  ["api/src/state/queue.rs"],
  [("QueueAccount add_item/remove_item/find_item_by_id/get_item_by_index/iter_items", "api/src/state/queue.rs")],
  ["results of the queue operations"])
p("C22", "Queue space is reclaimed",
  "A queue whose requests have all been removed accepts again everything that a fresh queue of the same size accepts, and space of removed entries behind the last pending one is reused. No history of additions and removals makes a queue grow past its account or permanently lose capacity.",
  ["histories"], "every operation sequence followed by draining, every removal order, repeated fill and drain cycles",
  NOUNIT,
  ["api/src/state/queue.rs"],
  [("trim_trailing_holes", "api/src/state/queue.rs")],
  ["number of further entries accepted"])
p("C23", "Reading arbitrary account bytes is safe",
  "Decoding any byte string as a queue, oracle or registry account either fails cleanly or yields a value; iterating, looking up and reading the parts of queue entries in it never panics and never returns data from outside the buffer. Accounts with the wrong discriminator or length are rejected.",
  ["inputs"], "every byte string up to account size: random, truncated, and valid accounts with corrupted lengths, offsets, cursors and flags",
  NOUNIT,
  ["api/src/state/queue.rs", "api/src/steel.rs", "api/src/state/macros.rs"],
  [("bounds checks in accessors and loops", "api/src/state/queue.rs"), ("discriminator and length checks", "api/src/steel.rs")],
  ["return values of the decoders and accessors"])
p("C24", "Malformed instructions fail cleanly",
  "Any instruction data with any accounts, in any state, either succeeds by the rules or returns an error: the program never panics or overflows. Unknown instruction tags, truncated data, missing accounts and a foreign program id are rejected with an error and change nothing.",
  ["inputs", "histories"], "every data string and account list: truncated, extended, mutated and random, over reachable states",
  E2E,
  ["program/src/lib.rs", "api/src/instruction.rs", "program/src/provide_randomness.rs"],
  [("parse_instruction8 and typed parsing", "program/src/lib.rs, api/src/instruction.rs"), ("slice patterns on accounts", "program/src/*.rs")],
  ["process_instruction result"])
p("C25", "Only the owning oracle can delegate or undelegate its queue",
  "A queue is handed to the delegation program, or scheduled for commit and undelegation, only with the signature of the oracle whose queue it is, at the exact queue address, and only through the genuine delegation and magic programs. Delegation preserves the contents and lamports of queues of up to 10,240 bytes, and the queue cannot be used on the base layer while delegated.",
  ["inputs", "histories"], "every caller, index and account substitution, queues with any content, instructions attempted on delegated queues",
  E2E,
  ["program/src/delegate_oracle_queue.rs", "program/src/undelegate_oracle_queue.rs"],
  [("signer, seeds, address checks", "program/src/delegate_oracle_queue.rs, program/src/undelegate_oracle_queue.rs")],
  ["account states and recorded calls of the delegation and magic programs"])
p("C26", "Undelegation restores a queue only from the delegation program",
  "Completing an undelegation recreates exactly the committed queue contents at the queue's own address, rent-exempt and owned by the VRF program, and works only when called by the delegation program with its own buffer for that queue. Nobody else can use it to create or overwrite any VRF program account.",
  ["inputs", "histories"], "every buffer content, every buffer address and owner, every seed list and target account, callers without the delegation program's signature",
  E2E,
  ["program/src/process_undelegation.rs"],
  [("buffer signer and owner checks", "program/src/process_undelegation.rs"), ("PDA re-creation from seeds", "program/src/process_undelegation.rs")],
  ["resulting accounts"])
p("C27", "SDK requests are accepted and mean what the caller wrote",
  "For every set of request parameters and in every feature flavour, the SDK's request instruction targets the VRF program with the right accounts and flags and decodes on-chain to exactly the given parameters, high priority or regular as chosen. All flavours produce identical bytes.",
  ["inputs", "configurations"], "every parameter set (any lengths, optional parts present or absent) in the four SDK feature combinations",
  "CI only compiles the flavours; no test looks at the bytes they produce.",
  ["sdk/src/instructions.rs", "sdk/src/types.rs", "sdk/src/compat/mod.rs", "sdk/src/consts.rs"],
  [("create_request_randomness_ix / create_request_regular_randomness_ix", "sdk/src/instructions.rs"), ("compat conversions", "sdk/src/compat/mod.rs")],
  ["instruction bytes and metas; acceptance by the program"])
p("C28", "SDK random helpers are in range and unbiased",
  "For every 32-byte randomness and every bounds min <= max, the bounded helper returns a value within the bounds without panicking, and over uniform randomness every value of the range is returned equally often (up to the documented fallback, whose probability is below 2^-32). The integer and boolean helpers are fixed deterministic functions that depend only on, and evenly use, the randomness bytes.",
  ["inputs", "configurations"], "all 32,896 bound pairs, every randomness string including all bytes above the rejection threshold",
  NOUNIT,
  ["sdk/src/rnd.rs"],
  [("rejection sampling", "sdk/src/rnd.rs random_u8_with_range")],
  ["returned values and their distribution"])
p("C29", "Client instruction builders match what the program accepts",
  "Every instruction built by the client API for a valid operation is accepted by the program and has exactly the intended effect, with the accounts, flags, index and sizes given by the caller; the number of queue-initialization instructions is enough for any size. Encoding and decoding of instructions and accounts are inverse to each other.",
  ["inputs", "configurations"], "every builder with every argument (index, size, keys, proofs), every encodable value",
  "Tests use one argument set per builder.",
  ["api/src/sdk.rs", "api/src/instruction.rs", "api/src/state/macros.rs"],
  [("builder functions", "api/src/sdk.rs"), ("instruction8! and borsh macros", "api/src/macros.rs, api/src/state/macros.rs")],
  ["built instruction, program result"])
p("C30", "The oracle service answers every pending request",
  "While the oracle service runs and the network works often enough, every request in its queues is eventually answered by an acceptable fulfilment, or purged once expired, whether it learns of it from the initial scan, the periodic refresh or a notification, and in spite of failed sends, failed confirmations, stale blockhashes, missed notifications, RPC errors and transactions dropped by a fork.",
  ["fault_sequences", "schedules", "histories"], "every mix of requests over several queues, notification orders and losses, and transient RPC fault sequences",
  "There is no test of the oracle service at all; faults and schedules cannot be sampled by unit tests.",
  ["vrf-oracle/src/oracle/processor.rs", "vrf-oracle/src/oracle/client.rs", "vrf-oracle/src/blockhash_cache.rs", "vrf-oracle/src/oracle/sources.rs"],
  [("retry loop, in-flight clean-up on failure, periodic rescan", "vrf-oracle/src/oracle/processor.rs, vrf-oracle/src/oracle/client.rs")],
  ["transactions accepted by the simulated chain, pending requests left"])
p("C31", "The oracle service sends only valid work, once at a time",
  "The oracle service acts only on its own queues, never has two attempts for the same request under way at once, stops working on a request that has left the queue, and sends fulfilments only for unexpired and purges only for expired requests. Every transaction it sends is signed by its identity and carries the correct proof and the requested callback accounts.",
  ["schedules", "fault_sequences", "histories"], "repeated and reordered notifications, concurrent scans, foreign and malformed queue accounts, failing and slow RPC",
  "There is no test of the oracle service at all.",
  ["vrf-oracle/src/oracle/processor.rs", "vrf-oracle/src/oracle/sources.rs"],
  [("in-flight map, active task map, queue address check", "vrf-oracle/src/oracle/processor.rs")],
  ["transactions sent by the service"])
p("C32", "Oracle statistics are accurate",
  "The published statistics give for each of the oracle's queues the size in the latest update, and the average response time equals the mean, over all requests it had taken up and saw leave the queue in a notification, of the notification slot minus the request slot.",
  ["histories", "schedules"], "every sequence of queue updates with and without slots, several queues, requests answered singly and in batches",
  "There is no test of the oracle service at all.",
  ["vrf-oracle/src/oracle/processor.rs", "vrf-oracle/src/main.rs"],
  [("queue_stats, avg_response_slots, response_counts", "vrf-oracle/src/oracle/processor.rs")],
  ["statistics maps / the stats endpoint"])
p("C33", "The #[vrf] macro adds exactly the missing VRF accounts",
  "Applied to any accounts struct with named fields, the attribute keeps every original field, its attributes and order, adds each of the program identity, VRF program, slot hashes and system program accounts exactly when it is missing and with its constraints, and adds a request helper that signs with the caller program's identity and passes the right accounts. Unsupported structs give a compile error instead of wrong code.",
  ["programs", "configurations"], "every struct: any subset and order of the special fields, extra fields, attributes, generics, both macro flavours",
  "The macro is only compiled by one example outside the workspace.",
  ["sdk/vrf-macro/src/lib.rs"],
  [("field scan and quote!", "sdk/vrf-macro/src/lib.rs")],
  ["expanded struct and helper"])
p("C34", "CLI commands send exactly the requested operation",
  "Each CLI command sends one transaction, paid and signed by the given keypair alone, whose instructions are exactly the requested operation with the given identity, index, key and size, or for queue commands the index stored in the named queue; a close goes through only for the named queue. It exits with 0 exactly if the node confirmed that transaction. The read-only commands send nothing and print the true values: the VRF key the keypair derives, and every queue of the identity among all 256 indices with its item count and delegation state; an RPC error is reported, not shown as an empty list. Invalid arguments, another identity's signature, and unreadable queues end in an error without sending.",
  ["inputs", "configurations"], "every command with every argument, existing, missing and malformed queue accounts",
  NOUNIT,
  ["vrf-cli/src/main.rs"],
  [("command dispatch", "vrf-cli/src/main.rs")],
  ["transactions received by a fake RPC node, exit code and output"])
p("C35", "Addresses and constants agree across program, API and SDK",
  "Program id, identity address, sysvar and queue addresses, seeds, prices, limits and account discriminators used by the program, the client API, the SDK (all flavours) and the oracle are the same values, every hard-coded derived address equals its derivation, and the SDK's delegation address helpers equal those of the delegation program.",
  ["inputs", "configurations"], "every derivation helper over every key and index, all SDK flavours",
  "The only passing test compares one constant with itself as a string.",
  ["sdk/src/consts.rs", "sdk/src/pda.rs", "api/src/consts.rs", "api/src/state/mod.rs"],
  [("duplicated constants and derivations", "sdk/src/consts.rs, sdk/src/pda.rs, api/src/consts.rs, api/src/state/mod.rs")],
  ["constants and derived addresses"])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
print(len(P), "properties")
