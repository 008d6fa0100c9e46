#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code so the statements are easy to edit in step with the checks)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe=None, hook=None, state=None):
    a = {"files": ["src/" + f for f in files], "mechanism": [{"name": n, "where": "src/" + w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": "src/" + w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})
H = "cfg(synedrion_verif): a doc-hidden module that includes the driver source from /verif so it can call crate-private items"

p("C01", "Key initialisation: one key, consistent public shares, private shares match",
  "Whenever every party finishes key initialisation, all of them hold the same group verifying key and the same table of public shares; each party's private share corresponds to its own public share, and the sum of the private shares is the private key of the group key. The result never depends on the order in which messages arrive.",
  ["schedules", "histories", "configurations"], "all party counts, all delivery orders, all random choices",
  "The only test runs one 3-party execution with one delivery order; it is not buildable offline.",
  ["protocols/key_init.rs", "entities/full.rs"],
  [("Round3::finalize", "protocols/key_init.rs"), ("KeyShare", "entities/full.rs")], ["KeyShare accessors", "protocol result"], H)
p("C02", "Key initialisation: commitments and proofs of knowledge bind every contribution",
  "No party can choose its contribution to a new key after seeing another party's: an opening that does not match the earlier commitment, or a public share without a valid proof of knowledge bound to this session and this party, prevents completion at every honest party and is blamed on its sender.",
  ["fault_sequences", "inputs"], "every deviation by one party in any of the rounds, any field of any message",
  "Tests cover two hand-made deviations; nothing enumerates message fields or rounds.",
  ["protocols/key_init.rs", "zk/sch.rs"],
  [("PublicData::hash", "protocols/key_init.rs"), ("Round2::receive_message, Round3::receive_message", "protocols/key_init.rs")], None, H)
p("C03", "Auxiliary data generation: agreed, valid parameters matching each secret",
  "Whenever every party finishes generation of auxiliary data, all of them hold the same public auxiliary table for every party, each party's secret auxiliary data matches its own entry, and every Paillier modulus and ring-Pedersen parameter set in the table has passed the required well-formedness proofs.",
  ["histories", "fault_sequences"], "all party counts, all random choices, every single-message deviation",
  "One honest run and a few hand-made deviations, not buildable offline.",
  ["protocols/aux_gen.rs", "entities/full.rs"],
  [("Round2/Round3 receive_message", "protocols/aux_gen.rs"), ("AuxInfo", "entities/full.rs")], None, H)
p("C04", "Key refresh changes the shares but never the key",
  "After every party applies a completed refresh, the group verifying key is unchanged, the new private shares sum to the same private key, every party has the same new table of public shares, and each new private share matches its public share. A change belonging to another party is never applied silently.",
  ["histories", "configurations"], "any number of consecutive refreshes, all party counts",
  "Tests refresh once and compare a single sum.",
  ["protocols/key_refresh.rs", "entities/full.rs"],
  [("KeyShareChange, KeyShare::update", "entities/full.rs"), ("Round3::finalize", "protocols/key_refresh.rs")], None, H)
p("C05", "Resharing preserves the key for any old quorum and any new holders/threshold",
  "When resharing completes, every new holder has a share of the same group key under the new threshold, all new holders agree on public shares and share indices, and any quorum of the new holders reconstructs the same private key whichever quorum of old holders took part. Inconsistent or wrong-degree contributions from an old holder are rejected rather than producing an unusable key, and valid parameters never abort the process.",
  ["histories", "configurations", "fault_sequences"], "all old quorums, overlapping or disjoint new holders, all thresholds, chains of resharings, malformed contributions",
  "One 3-to-3 run with one pair of thresholds; nothing enumerates configurations or misbehaving dealers.",
  ["protocols/key_resharing.rs", "entities/threshold.rs", "tools/sss.rs"],
  [("Round2::finalize", "protocols/key_resharing.rs"), ("Polynomial, PublicPolynomial, interpolation_coeff", "tools/sss.rs")], None, H)
p("C06", "Any threshold-sized subset, and only consistent subsets, reproduce the key",
  "For a threshold sharing of a key, every subset of at least the threshold number of holders converts to additive shares that sum to the private key, with public shares that sum to the group key and match the private ones; polynomial evaluation, its in-the-exponent counterpart and interpolation agree at every point. Subsets that are too small, unknown or do not include the converting party are never turned into a share of another key. Restricting auxiliary data to a subset keeps exactly the entries of the named parties and refuses unknown parties or a subset without its owner.",
  ["inputs", "configurations"], "all thresholds, all share counts, all subsets, all polynomial coefficients",
  "Tests check one polynomial and one subset.",
  ["entities/threshold.rs", "tools/sss.rs"],
  [("ThresholdKeyShare::to_key_share/from_key_share/new_centralized", "entities/threshold.rs"), ("shamir_*", "tools/sss.rs")], None, H)
p("C07", "Hierarchical derivation gives consistent child keys at every level",
  "Deriving a child along any path from a threshold key share yields the same child verifying key for every holder, equal to the child of the group key derived publicly, and any quorum of derived shares reconstructs the private key of that child key. Hardened paths are refused.",
  ["inputs", "configurations"], "all paths, all thresholds and subsets, all keys",
  "Tests try one path for one sharing.",
  ["curve/bip32.rs", "entities/threshold.rs"],
  [("derive_tweaks, apply_tweaks_*", "curve/bip32.rs"), ("derive_bip32", "entities/threshold.rs")], None, H)
p("C08", "Honest signing: everybody outputs one valid, normalised, recoverable signature",
  "When all signers are honest, signing completes at each of them with the same signature; it verifies under the group key for exactly the requested message, its second component is in the lower half range, and its recovery identifier recovers the group key. This holds for every message value and every set of signers sharing the key.",
  ["inputs", "histories", "configurations"], "all messages, all signer subsets, all randomness, all delivery orders",
  "One random message with 3 parties, never the extreme message values, not buildable offline.",
  ["protocols/interactive_signing.rs", "curve/ecdsa.rs"],
  [("Round4::finalize", "protocols/interactive_signing.rs"), ("RecoverableSignature::from_scalars", "curve/ecdsa.rs")], None, H)
p("C09", "A deviation never yields a wrong result and is blamed on the deviator",
  "If a party deviates from any protocol in any message, then no honest party outputs a wrong result, and every honest party affected completes correctly, blames the deviating party and nobody else, or is left waiting for messages of the deviator or of parties that stopped (or, where nobody can be held responsible - inconsistent signature shares after the rounds that look for the culprit, subshares that do not add up to the key in resharing - ends with a local error and no result). Evidence of blame that is provable by the protocol's rules verifies for any third party holding the public data of the session.",
  ["fault_sequences"], "every field of every message in every round of every protocol, sent to one or all recipients, one deviator",
  "Tests hand-pick some deviations; several error branches and evidence verifiers are never executed.",
  ["protocols/key_init.rs", "protocols/aux_gen.rs", "protocols/key_refresh.rs", "protocols/interactive_signing.rs"],
  [("verify_messages_constitute_error", "protocols/interactive_signing.rs"), ("receive_message", "protocols/key_refresh.rs")], None, H)
p("C10", "Evidence against an honest party never verifies",
  "No evidence of any kind assembled from messages an honest party really sent in a session, for any claimed error and any claimed accomplice or recipient, is accepted as proof of misbehaviour by that party.",
  ["fault_sequences", "inputs"], "every error kind with every parameter value, over the honest messages of any run",
  "Tests only verify genuine evidence, they never try to frame anyone.",
  ["protocols/key_init.rs", "protocols/aux_gen.rs", "protocols/key_refresh.rs", "protocols/interactive_signing.rs"],
  [("verify_messages_constitute_error", "protocols/aux_gen.rs")], None, H)
p("C11", "Malformed or hostile remote data never crashes an honest party",
  "No message content a remote party can send, however malformed or extreme, makes an honest party panic, overflow or loop: it is either processed or rejected with an error attributed to the sender. The same holds for verification of proofs and evidence received from others.",
  ["inputs", "fault_sequences"], "every well-typed wire value including zero, non-invertible, oversized, wrong-length and identity elements; every round",
  "Tests never send degenerate group elements or wrong-length vectors.",
  ["zk/fac.rs", "zk/enc_elg.rs", "zk/aff_g.rs", "zk/dec.rs", "paillier/keys.rs", "tools/bitvec.rs", "protocols/key_init.rs", "protocols/interactive_signing.rs"],
  [("Proof::verify", "zk/enc_elg.rs"), ("into_precomputed", "paillier/keys.rs")], None, H)
p("C12", "Messages, proofs and results are bound to session, party and key epoch",
  "A message or proof taken from another session, another sender, or another shared-randomness or key epoch never leads an honest party to a result in place of a fresh one (messages of resharing are bound by the session layer's signatures alone, but ones for another key or another sender never lead to a result), and starting a protocol with inputs that do not belong together (missing parties, foreign auxiliary data, foreign shares) is refused instead of producing a result.",
  ["fault_sequences", "histories"], "all protocols, every message replayed across sessions/senders/epochs, all mismatched inputs",
  "No test replays anything across sessions.",
  ["protocols/key_init.rs", "protocols/aux_gen.rs", "protocols/key_refresh.rs", "protocols/interactive_signing.rs"],
  [("make_sid / make_epid, proof aux data", "protocols/interactive_signing.rs")], None, H)
p("C13", "Honestly generated proofs always verify, also after transport",
  "For every kind of zero-knowledge proof, every witness satisfying the relation - including the smallest and largest values its range allows - yields a proof that the verifier accepts for the same statement, parameters and context, both directly and after serialisation and deserialisation.",
  ["inputs", "configurations"], "all proof kinds, all admissible witnesses including range boundaries, all contexts",
  "Each test proves one random witness, which practically never sits at a boundary or has an extreme sign combination.",
  ["zk/enc_elg.rs", "zk/aff_g.rs", "zk/aff_g_star.rs", "zk/dec.rs", "zk/elog.rs", "zk/fac.rs", "zk/mod_.rs", "zk/prm.rs", "zk/sch.rs"],
  [("Proof::new / Proof::verify", "zk/aff_g.rs")], None, H)
p("C14", "Encryption, affine, factoring proofs: accepted only if all equations hold",
  "The verifiers of the encryption-in-range proof, of the affine-operation proof and of the no-small-factor proof accept exactly when the challenge is the one determined by the transcript and every verification equation and range condition of the paper holds. Violating any single equation or range bound, in either direction and by the smallest possible amount, leads to rejection.",
  ["inputs"], "all statements, all transcripts, every equation and bound separately",
  "Tests only check that honest proofs verify; no test makes a verifier reject.",
  ["zk/enc_elg.rs", "zk/aff_g.rs", "zk/fac.rs"],
  [("EncElgProof::verify", "zk/enc_elg.rs"), ("AffGProof::verify", "zk/aff_g.rs"), ("FacProof::verify", "zk/fac.rs")], None, H)
p("C15", "Blame proofs (affine, decryption): accepted only if every repetition holds",
  "The verifiers of the batched affine-operation proof and of the decryption proof used to assign blame accept exactly when the challenge is the one determined by the transcript, the number of repetitions is the prescribed one, and every repetition satisfies every equation and range condition. One wrong repetition is enough for rejection.",
  ["inputs"], "all statements, all transcripts, every repetition, equation and bound separately",
  "Tests only check that honest proofs verify.",
  ["zk/aff_g_star.rs", "zk/dec.rs"],
  [("AffGStarProof::verify", "zk/aff_g_star.rs"), ("DecProof::verify", "zk/dec.rs")], None, H)
p("C16", "Discrete-log proofs: accepted only if every equation holds",
  "The verifiers of the knowledge-of-exponent proof and of the ElGamal-consistency proof accept exactly when the challenge is the one determined by the transcript and each group equation holds; the first message of the knowledge proof must be the one committed to earlier.",
  ["inputs"], "all statements including identity points, all transcripts",
  "Tests only check that honest proofs verify.",
  ["zk/sch.rs", "zk/elog.rs"],
  [("SchProof::verify", "zk/sch.rs"), ("ElogProof::verify", "zk/elog.rs")], None, H)
p("C17", "Modulus and ring-Pedersen proofs: full length, every element, structural checks",
  "The verifiers of the well-formed-modulus proof and of the ring-Pedersen proof accept exactly when the proof has the prescribed number of elements, every element satisfies its equation for the challenge determined by the transcript, and the modulus satisfies the structural conditions (odd, composite). Shortened, lengthened or empty proofs are rejected.",
  ["inputs"], "all moduli, all transcripts, every element position, all lengths",
  "Tests only check that honest proofs verify.",
  ["zk/mod_.rs", "zk/prm.rs"],
  [("ModProof::verify", "zk/mod_.rs"), ("PrmProof::verify", "zk/prm.rs")], None, H)
p("C18", "Every challenge binds the whole statement, all commitments and the context",
  "A proof that verifies for one statement, parameter set and context does not verify after any component of the statement, of the setup, of its own commitments or of the context is replaced, even when the responses are adapted so that all algebraic equations still hold. Challenges for different proof kinds are separated, and a challenge is reproducible from the public transcript alone.",
  ["inputs"], "all proof kinds, every transcript component, adaptive adjustments of responses",
  "No test checks that any component enters the challenge.",
  ["zk/enc_elg.rs", "zk/aff_g.rs", "zk/aff_g_star.rs", "zk/dec.rs", "zk/elog.rs", "zk/fac.rs", "zk/mod_.rs", "zk/prm.rs", "zk/sch.rs", "tools/hashing.rs"],
  [("Hasher chains in new/verify", "zk/aff_g.rs")], None, H)
p("C19", "Paillier: decryption inverts encryption and homomorphic operations are exact",
  "For every key, every signed message in the plaintext range and every randomiser, decryption returns the message and the randomiser is recoverable; adding ciphertexts, adding or multiplying by signed plaintexts, and re-randomising act on the plaintexts exactly as the corresponding integer operations modulo the public modulus, reduced to the symmetric range.",
  ["inputs"], "all keys, all plaintexts incl. 0, +-1 and the extreme representable values, all signs and exponents",
  "Tests sample one random plaintext per operation, practically never a boundary or a wrap-around.",
  ["paillier/encryption.rs", "paillier/keys.rs"],
  [("Ciphertext::*", "paillier/encryption.rs"), ("SecretKeyPaillier", "paillier/keys.rs")], None, H)
p("C20", "Paillier keys: prescribed primes, exact derived values, valid elements",
  "Every generated key has two primes of exactly the prescribed size with the required residues, every value derived from them (modulus, totient, inverses, square-root and residue computations) is the mathematically defined one, and sampled elements are units of the right ring. Serialised keys restore to the same key and the conversions between secret, public and wire forms commute.",
  ["inputs"], "all generated keys, all sampled elements, all residues",
  "Tests look at one random key and do not check the derived values.",
  ["paillier/keys.rs", "paillier/rsa.rs"],
  [("SecretPrimes, PublicModulus", "paillier/rsa.rs"), ("SecretKeyPaillier::rns_*, random_field_elem", "paillier/keys.rs")], None, H)
p("C21", "Ring-Pedersen commitments are exact, homomorphic and bound to their parameters",
  "A commitment to a pair of signed values is exactly the product of the corresponding powers of the two bases modulo the modulus, for every sign combination and size; commitments multiply and scale like their openings, and generated parameters satisfy the algebraic relation between the two bases with a modulus of the prescribed form.",
  ["inputs"], "all parameters, all signed exponents of all supported widths including negative and zero",
  "No unit test covers them directly.",
  ["paillier/ring_pedersen.rs", "uint/traits.rs"],
  [("RPParams::commit, RPCommitment::pow", "paillier/ring_pedersen.rs"), ("Exponentiable", "uint/traits.rs")], None, H)
p("C22", "Signed integers: exact values, sound bounds, overflow refused",
  "Every operation on signed integers - construction, conversion, addition, subtraction, negation, multiplication (plain and widening), absolute value and widening - yields the mathematically exact value together with a bit bound that really bounds it, and an operation whose result could exceed the representable range is refused instead of wrapping around.",
  ["inputs"], "all values, signs and bounds at every supported width",
  "Tests sample a handful of values; carry, sign and bound combinations are unbounded.",
  ["uint/secret_signed.rs", "uint/public_signed.rs"],
  [("SecretSigned::{checked_add,checked_mul,...}", "uint/secret_signed.rs"), ("PublicSigned::*", "uint/public_signed.rs")], None, H)
p("C23", "Range membership is exact at both ends and samplers stay in their range",
  "The range test used by proof verification accepts a value exactly when it lies in the interval defined for that exponent, at both ends and for both signs; every bounded sampler only returns values inside its interval and can return values of both signs across the whole interval.",
  ["inputs"], "all exponents, all values at and around the bounds, all random streams",
  "Tests check a few values; the samplers are not checked at chosen random streams.",
  ["uint/public_signed.rs", "uint/secret_signed.rs"],
  [("is_in_exponent_range / assert_exponent_range / random_in_exponent_range*", "uint/secret_signed.rs")], None, H)
p("C24", "Conversions between curve scalars and integers agree modulo the group order",
  "Converting an integer of any sign and width to a curve scalar gives its residue modulo the group order, converting a scalar to a signed integer gives a representative of the same residue in the documented range, the secret and public variants agree, and round trips are the identity.",
  ["inputs", "configurations"], "all scalars, all signed integers incl. multiples of the order, both curves",
  "There are no direct tests.",
  ["params/conversion.rs", "curve/arithmetic.rs"],
  [("scalar_from_*, secret_scalar_from_*, *_signed_from_scalar", "params/conversion.rs")], None, H)
p("C25", "Curve group, scalar field and signatures follow their mathematical definition",
  "Scalar and point operations satisfy the field and group laws including identity, inverse and negation; additive splitting sums back; and building a signature from its parts succeeds exactly when it verifies for that message and key, is normalised, and carries the recovery identifier that recovers the key.",
  ["inputs", "configurations"], "all scalars and points incl. zero and identity, all messages, both curves",
  "One round-trip test on bytes.",
  ["curve/arithmetic.rs", "curve/ecdsa.rs"],
  [("Scalar, Point, secret_split", "curve/arithmetic.rs"), ("RecoverableSignature::from_scalars", "curve/ecdsa.rs")], None, H)
p("C26", "Serialisation round-trips and rejects invalid data",
  "Every public value, proof and stored share survives serialisation and deserialisation unchanged in both binary and human-readable formats; data that does not encode a valid value - wrong length, out-of-range scalar, point off the curve, integer beyond its declared bound - is rejected with an error.",
  ["inputs"], "all wire types, all byte-level corruptions of structural kind, both formats",
  "Tests round-trip two types only.",
  ["curve/arithmetic.rs", "uint/public_signed.rs", "uint/public_uint.rs", "paillier/keys.rs", "tools/bitvec.rs", "entities/full.rs"],
  [("Serialize/Deserialize impls", "uint/public_signed.rs")], None, H)
p("C27", "Hash transcripts are injective and deterministic, challenges have full range",
  "Two different sequences of hashed items (of the kinds the protocols hash), two different domain labels or two different parameter sets never lead to the same hash input: item boundaries, lengths and order are all encoded. Values drawn from the extendable output are deterministic in the transcript, lie in their declared range, take all of it, and random bit vectors have exactly the requested length and combine by bitwise exclusive or.",
  ["inputs"], "all sequences of items, including empty ones and ones sharing a concatenation",
  "There is no test of framing.",
  ["tools/hashing.rs", "tools/bitvec.rs", "uint/traits.rs"],
  [("Chain::chain_bytes, Hasher, XofHasher", "tools/hashing.rs"), ("FromXofReader", "uint/traits.rs"), ("BitVec", "tools/bitvec.rs")], None, H)
p("C28", "Secret values never appear in debug output",
  "The debug representation of any object that holds a secret depends only on its public parts: two objects that differ only in secret values are formatted identically.",
  ["inputs", "configurations"], "all types that hold secrets, all pairs of secrets",
  "Tests check one key type for one literal substring.",
  ["tools/secret.rs", "paillier/keys.rs", "paillier/rsa.rs", "uint/secret_signed.rs", "entities/full.rs", "entities/threshold.rs"],
  [("Debug for Secret", "tools/secret.rs"), ("Debug impls", "paillier/keys.rs")], None, H)
p("C29", "Every shipped parameter set satisfies the scheme's inequalities",
  "For every shipped parameter set, the size constants satisfy all the inequalities the paper requires between the group order, the ranges, the slack, the prime size and the integer widths, so that every intermediate value of every proof fits the integer type used for it and the declared security level is reached.",
  ["configurations"], "all shipped parameter sets, all inequalities, worst-case values",
  "The built-in self check is part of the code that may change; no test restates the inequalities.",
  ["params/traits.rs", "params/dev.rs", "params/k256.rs", "paillier/params.rs"],
  [("SELF_CONSISTENT", "params/traits.rs")], None, H)

p("C30", "Proof responses are masked by fresh values from the whole prescribed range",
  "In every proof an honest prover makes, each response equals the witness (times the challenge) plus a mask; every mask lies in the interval the scheme prescribes for it, uses the whole of that interval on both sides rather than a smaller one, and is never reused - not within a proof, not between the elements of a batched proof, not between proofs. Only then do proofs reveal nothing beyond the statement.",
  ["inputs", "histories"], "all proof kinds, all masks, all witnesses and challenges",
  "Verification of honest proofs succeeds however small or repeated the masks are.",
  ["zk/enc_elg.rs", "zk/aff_g.rs", "zk/aff_g_star.rs", "zk/dec.rs", "zk/elog.rs", "zk/fac.rs", "zk/mod_.rs", "zk/prm.rs", "zk/sch.rs"],
  [("Proof::new", "zk/dec.rs"), ("random_in_exponent_range*", "uint/secret_signed.rs")], None, H)

p("C31", "The key outlives every history of operations on its shares",
  "However key generation, refresh, auxiliary data generation, conversions between additive and threshold shares, resharing to other holders, derivation, storing and loading, and signing follow one another, the current holders always hold a sharing of the one key (changed only by derivation, and by the shift that the path determines): every quorum reconstructs it, all holders agree on its public parts, and any quorum with auxiliary data can sign for it. A share from before the last refresh, resharing or derivation no longer helps to make a signature, and leads to nobody else being blamed.",
  ["histories", "configurations"], "all sequences of operations, holders, thresholds and quorums; stale shares mixed in",
  "Tests run each protocol once, on fresh inputs; one test chains a few of them in one fixed order.",
  ["entities/full.rs", "entities/threshold.rs", "protocols/key_refresh.rs", "protocols/key_resharing.rs", "protocols/interactive_signing.rs"],
  [("KeyShare::update", "entities/full.rs"), ("ThresholdKeyShare::to_key_share/from_key_share/derive_bip32", "entities/threshold.rs")], None, H)

p("C32", "Secrets in messages are hidden by fresh values from the whole range",
  "In every session an honest party draws each ephemeral value (nonce shares, masks of multiplications, one-time keys, numbers that randomise encryptions, polynomial coefficients, changes of shares, contributions to common randomness) independently and uniformly from its prescribed range: none is degenerate, none serves two recipients, two purposes or two sessions, and each uses all of its range. Every message is exactly what the protocol derives from these values and the sender's shares: what is sent under a mask is the masked value, and shares for one recipient go to nobody else.",
  ["inputs", "configurations", "histories"], "all sessions, numbers of parties and recipients; all draws of the generator",
  "Tests check the result of one session, which is the same whatever the masks are: a mask that is reused, constant or too narrow changes nothing they can see.",
  ["protocols/interactive_signing.rs", "protocols/key_refresh.rs", "protocols/key_init.rs", "protocols/key_resharing.rs", "protocols/aux_gen.rs"],
  [("Round1::finalize", "protocols/interactive_signing.rs"), ("KeyRefresh::make_round", "protocols/key_refresh.rs"), ("Polynomial::random", "tools/sss.rs")], None, H)

p("C33", "Secrets do not outlive their use in memory",
  "Whatever owns a secret - a container for secret values, a secret integer or key, a share, a polynomial, the state of a running session, a temporary value of an operation - wipes it before it gives its heap memory back: after a value is dropped, moved, overwritten, serialised or deserialised, and after an operation returned, refused its arguments or panicked, the secrets it held are not in memory that was released; and memory in use holds secrets of values that still exist only.",
  ["inputs", "histories", "fault_sequences"], "all sequences of operations on all types that own secrets, whole sessions, refusals and panics, every order of dropping",
  "Tests look at values, never at memory that was given back.",
  ["tools/secret.rs", "uint/secret_signed.rs", "uint/secret_unsigned.rs", "paillier/keys.rs", "paillier/rsa.rs", "tools/sss.rs", "entities/full.rs", "entities/threshold.rs"],
  [("Secret::init_with and the operators of Secret", "tools/secret.rs"), ("SecretKeyPaillier", "paillier/keys.rs")], None, H)

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x, ensure_ascii=False) + "\n")
