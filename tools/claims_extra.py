NOT = {}
crypto = ("generated keys, inputs, proofs, forgeries and attacks; the group, hash and HKDF crates are trusted, and the off-chain build of solana_curve25519 stands for the on-chain curve syscalls")
CLAIMS["C01"] = ("property-based testing: generated keys and inputs, honest proofs put to both verifiers", crypto)
CLAIMS["C02"] = ("property-based testing: generated mutations and adaptive forgeries against both verifiers, unique output as oracle", crypto)
CLAIMS["C03"] = ("differential property-based testing of the on-chain against the off-chain verifier, valid, degenerate and invalid encodings", crypto)
CLAIMS["C04"] = ("metamorphic property-based testing: repeated and neighbouring identities, keys and inputs", crypto)
CLAIMS["C05"] = ("property-based testing: generated transcripts attacked, metamorphic relations between nonces; the absence of every attack cannot be tested", crypto)
CLAIMS["C06"] = ("property-based testing: generated transcripts, attackers that predict an output from public data; one attack succeeds on the current tree (known finding)", crypto)
qm = "bounded by the generated histories and byte strings (bodies up to 12,000 bytes, up to 400 operations)"
CLAIMS["C21"] = ("stateful model-based property testing of the queue against a plain list", qm)
CLAIMS["C22"] = ("stateful model-based property testing of the queue: capacity against a list model and against a fresh queue", qm)
CLAIMS["C23"] = ("structure-aware fuzzing of account bytes with an independent decoder, bounds and canaries as oracle", qm)
CLAIMS["C29"] = ("stateful property-based testing: generated life cycles built only with the client API against the program in a simulated runtime; round-trip testing of all codecs", chain)
sdkn = "bounded by the generated cases; every flavour of the SDK is built separately and called through a C interface; acceptance is decided by the program's real entry point in a simulated runtime"
CLAIMS["C27"] = ("differential property-based testing of the four SDK flavours and a reference decoder, executed by the program in a simulated runtime", sdkn)
CLAIMS["C28"] = ("property-based testing with a statistical uniformity oracle over all bounds, and generated edge-case randomness", "bias is decided statistically (4 million samples per width); a relative bias below about 1 in 1,000 can stay unnoticed")
CLAIMS["C35"] = ("differential property-based testing of addresses against the delegation program's API and derivations, enumeration of all constants, and generated requests executed by the program", sdkn)
orc = "the service's own functions run in virtual time on one thread against a simulated chain that executes the real program, driven as `run` drives them; the real binary runs against a loopback node in far fewer cases; bounded by the generated histories and faults; thread races inside the service are only met by chance"
CLAIMS["C30"] = ("stateful property-based testing with fault injection: generated traffic, notification losses, RPC faults and forks, liveness and transaction oracle; the real binary against a fake loopback node", orc)
CLAIMS["C31"] = ("stateful property-based testing with fault injection: every transaction of generated histories is judged when it is sent", orc)
CLAIMS["C32"] = ("model-based property testing of the published statistics over generated update sequences, read over HTTP; the real binary's statistics after generated traffic", orc)
CLAIMS["C34"] = ("property-based testing of the real binary: generated command lines, queue accounts and node faults against a loopback node, transactions compared with independently built ones", "bounded by the generated command lines and node states; what the instructions do on chain is decided by the checks of the program")
CLAIMS["C33"] = ("property-based testing by compilation: generated accounts structs compiled with the attribute in both Anchor flavours, compared with the plain struct, run against right and varied accounts, helper invocation recorded; generated unsupported structs must not compile", "bounded by the generated structs (field kinds, names, constraints, attributes that Anchor accepts)")
