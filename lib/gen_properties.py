#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the text is reviewable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe=(), state=()):
    assert len(title) <= 80, (id, len(title))
    d = {"id": id, "title": title, "statement": statement,
         "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
         "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}}
    if state: d["anchors"]["state"] = [{"name": a, "meaning": b, "where": c} for a, b, c in state]
    if observe: d["anchors"]["observe_at"] = list(observe)
    P.append(d)

p("C01", "Bounded signed integers compute the exact integer result or refuse",
  "Every bounded (signed or unsigned, secret or public) integer represents one mathematical integer whose absolute value is below two to the power of its declared bound, and a value that would violate this is refused at construction. Negation, absolute value, addition, subtraction, multiplication (same width, widening, secret by public), widening and the conversion of a residue into the symmetric range around zero all return exactly the mathematical result with a valid bound, or refuse; they never wrap silently. Public and secret versions of one operation agree.",
  ["inputs"], "all operand values, signs and declared bounds, including the extreme ones",
  "The unit tests try a handful of values (mostly small or one extreme per operation); the wrap-around, sign and bound corner cases are single points among 2^64 or more.",
  ["src/uint/secret_signed.rs", "src/uint/public_signed.rs", "src/uint/secret_unsigned.rs", "src/uint/traits.rs"],
  [("constructors with bound checks", "src/uint/secret_signed.rs, src/uint/public_signed.rs"),
   ("CheckedAdd/CheckedSub/CheckedMul with bound bookkeeping", "src/uint/secret_signed.rs"),
   ("MulWide / Extendable", "src/uint/traits.rs")],
  state=[("bound", "bit bound on the absolute value", "SecretSigned, PublicSigned, SecretUnsigned")])

p("C02", "Range membership and bounded sampling use exactly the paper's intervals",
  "A value is accepted as lying in the interval written plus-or-minus 2^e if and only if it is at least -2^(e-1)+1 and at most 2^(e-1), for secret and public integers alike. Every bounded random or hash-derived integer lies in the interval its caller asked for (also when the interval is scaled by a public integer), every value of that interval can be produced, and different source values give different results. A range or width that the integer type cannot hold is refused rather than truncated.",
  ["inputs"], "all values, all exponents, all outputs of the random or hash source",
  "A sampling test sees values near the middle of an astronomically large interval; the two end points and the asymmetry of the interval are never drawn.",
  ["src/uint/secret_signed.rs", "src/uint/public_signed.rs", "src/uint/traits.rs"],
  [("is_in_exponent_range / ensure / assert", "src/uint/secret_signed.rs, src/uint/public_signed.rs"),
   ("random_in_exponent_range*", "src/uint/secret_signed.rs"),
   ("from_xof_reader*", "src/uint/traits.rs, src/uint/public_signed.rs")])

p("C03", "Wire forms of numbers, bit strings, scalars and points round-trip",
  "Serializing any integer, bounded signed integer, bit string, curve scalar, curve point, or a key built from them, and deserializing the result yields an equal value, and equal values have equal encodings. Any byte string or field combination that does not denote a value of the declared size and bound (wrong length, absolute value above the bound, bound beyond the type, scalar not below the curve order, fewer bytes than declared bits) is rejected with an error. Decoding attacker-chosen data never panics.",
  ["inputs"], "all values of the encoded types; all byte strings and field combinations within the size bounds",
  "Tests encode a few values they created themselves and never decode hostile field combinations.",
  ["src/uint/public_signed.rs", "src/uint/public_uint.rs", "src/uint/traits.rs", "src/tools/bitvec.rs", "src/tools/secret.rs", "src/curve/arithmetic.rs", "src/paillier/keys.rs", "src/paillier/rsa.rs"],
  [("PackedSigned TryFrom/From", "src/uint/public_signed.rs"), ("BoxedEncoding", "src/uint/traits.rs"),
   ("PackedBitVec TryFrom/From", "src/tools/bitvec.rs"), ("Scalar/Point (de)serialization", "src/curve/arithmetic.rs")])

p("C04", "Scalar and integer conversions preserve the value modulo the curve order",
  "Converting a curve scalar to a public signed integer gives its canonical representative, converting a secret scalar to a signed integer gives the representative of smallest absolute value, and converting any signed or unsigned, single- or double-width, secret or public integer to a scalar gives its residue modulo the curve order with the sign respected. In particular scalar to integer to scalar is the identity. Secret and public conversions agree.",
  ["inputs"], "all scalars and all integers of either sign and either width",
  "There are no direct tests; protocol tests only exercise random values of one sign at a time.",
  ["src/params/conversion.rs", "src/curve/arithmetic.rs", "src/uint/secret_signed.rs"],
  [("scalar_from_*, *_from_scalar", "src/params/conversion.rs")])

p("C05", "Hash transcripts are unambiguous and cover their whole input",
  "Two sequences of byte strings fed to the hash chain item by item produce the same hash input only if they are the same sequence, and the whole item always reaches the hash. A digest or bit string requested from a hash has exactly the requested length and uses each requested output bit. Hash-derived scalars are the reduction of twice the scalar width of output modulo the curve order, and hash-derived residues are invertible and below the modulus.",
  ["inputs"], "all byte strings, sequences, requested lengths and hash outputs within the size bounds",
  "Tests never compare transcripts, and a collision between two differently framed transcripts or a lost output bit cannot be found by sampling.",
  ["src/tools/hashing.rs", "src/tools/bitvec.rs", "src/curve/arithmetic.rs", "src/paillier/rsa.rs"],
  [("chain_bytes length prefix", "src/tools/hashing.rs"), ("finalize / from_xof_reader", "src/tools/hashing.rs, src/tools/bitvec.rs, src/curve/arithmetic.rs, src/paillier/rsa.rs")])

p("C06", "Paillier decryption and randomizer recovery invert encryption",
  "For every key, every plaintext of either sign and every invertible randomizer, decrypting the encryption returns the plaintext reduced into the symmetric range modulo the key's modulus (the plaintext itself when it already lies there), and recovering the randomizer returns exactly the randomizer used. Single-width, double-width, secret and public encryption of the same plaintext and randomizer produce the same ciphertext. This also holds for ciphertexts produced by the homomorphic operations.",
  ["inputs", "configurations"], "all plaintexts, randomizers and keys",
  "The tests sample a random plaintext under one random key; boundary plaintexts such as zero and plus or minus half the modulus are never drawn.",
  ["src/paillier/encryption.rs", "src/paillier/keys.rs", "src/paillier/rsa.rs", "src/uint/secret_signed.rs"],
  [("new_*with_randomizer", "src/paillier/encryption.rs"), ("decrypt / derive_randomizer", "src/paillier/encryption.rs")])

p("C07", "Paillier ciphertext arithmetic mirrors plaintext and randomizer arithmetic",
  "Adding or subtracting ciphertexts yields the ciphertext of the sum or difference of the plaintexts under the product or quotient of the randomizers, and multiplying a ciphertext by an integer of either sign yields the ciphertext of the product under the correspondingly powered randomizer, exactly (not merely a ciphertext that decrypts to the same value). Masking a randomizer with another and a public exponent yields the matching product of powers. Operations on ciphertexts under different keys are refused, and a ciphertext survives its wire form.",
  ["inputs", "configurations"], "all ciphertexts, multipliers of either sign, secret or public, and keys",
  "Tests check decryption after one random operation; they cannot see a wrong randomizer, which is what the zero-knowledge proofs rely on.",
  ["src/paillier/encryption.rs", "src/uint/traits.rs"],
  [("homomorphic_*", "src/paillier/encryption.rs"), ("to_masked", "src/paillier/encryption.rs"), ("Exponentiable", "src/uint/traits.rs")])

p("C08", "Paillier and RSA key material derived from the primes is correct",
  "From any pair of suitable primes the derived modulus, totient, modular inverses and residue-number-system helpers are the mathematically correct ones: splitting a residue and joining the parts is the identity, a square root returned for a residue squares back to it and one is returned whenever it exists, and a sampled non-square residue is invertible with Jacobi symbol minus one. Secret and public keys derived from the same primes agree after a trip over the wire.",
  ["inputs", "configurations"], "all prime pairs, residues and random choices",
  "Tests use one random key and never check the helpers separately; an error for one residue class or sign is invisible.",
  ["src/paillier/keys.rs", "src/paillier/rsa.rs"],
  [("SecretKeyPaillier::new", "src/paillier/keys.rs"), ("rns_split / rns_join / rns_sqrt", "src/paillier/keys.rs"), ("random_nonsquare_residue", "src/paillier/keys.rs")])

p("C09", "Ring-Pedersen commitments are homomorphic and bind base and modulus",
  "A ring-Pedersen commitment to a value and a randomizer is the product of the two bases raised to them modulo the setup's modulus, for secret, public, single-, double- and extra-wide exponents of either sign. Multiplying commitments and raising them to integers acts on the committed values accordingly. Setups derived from a secret satisfy that the value base is the randomizer base raised to the secret exponent, and a setup or commitment survives its wire form.",
  ["inputs", "configurations"], "all committed values, randomizers, exponents of either sign and setups",
  "Commitments are only exercised inside whole proofs with random values; the existing tests have no test of this component alone.",
  ["src/paillier/ring_pedersen.rs", "src/uint/traits.rs"],
  [("RPParams::commit*", "src/paillier/ring_pedersen.rs"), ("RPCommitment Mul / pow", "src/paillier/ring_pedersen.rs")])

p("C10", "Honestly created zero-knowledge proofs are accepted",
  "For each of the nine proof types, a proof created from a valid statement and witness with the same auxiliary data verifies, for all witnesses in the allowed ranges, all signs, and all random masks that do not fall within the statistical slack at the end of their range. This includes a proof that has been sent over the wire. Creating or verifying such a proof never panics.",
  ["inputs", "configurations"], "all witnesses, masks, challenges and keys satisfying the stated relation",
  "The repository's proof tests (not even buildable offline) run one random instance; sign combinations, boundary witnesses and extreme masks are not reached.",
  ["src/zk/aff_g.rs", "src/zk/aff_g_star.rs", "src/zk/dec.rs", "src/zk/elog.rs", "src/zk/enc_elg.rs", "src/zk/fac.rs", "src/zk/mod_.rs", "src/zk/prm.rs", "src/zk/sch.rs"],
  [("Proof::new / Proof::verify", "src/zk/*.rs")])

p("C11", "Zero-knowledge verification enforces the full relation",
  "For each of the nine proof types, verification accepts a proof only if every verification equation and every range, length and structural condition of the specified relation holds between the proof's elements, the public inputs, the setup and the challenge. Changing any single proof element or public input so that one of these conditions fails makes verification fail. Omitted, surplus or repeated elements are never accepted in place of a full proof.",
  ["inputs", "configurations", "fault_sequences"], "all proof contents (including dishonest ones), public inputs, setups and challenges",
  "Soundness is a statement about all forged proofs; the tests contain almost only honest proofs.",
  ["src/zk/aff_g.rs", "src/zk/aff_g_star.rs", "src/zk/dec.rs", "src/zk/elog.rs", "src/zk/enc_elg.rs", "src/zk/fac.rs", "src/zk/mod_.rs", "src/zk/prm.rs", "src/zk/sch.rs"],
  [("Proof::verify", "src/zk/*.rs")])

p("C12", "Fiat-Shamir challenges bind the whole statement, commitments and context",
  "The challenge of each non-interactive proof is a function of a transcript from which every commitment, every public input, the verifier's setup and the caller's auxiliary data can be recovered, and which is separated from the transcripts of the other proof types. Two proofs that differ in any of these have different transcripts. Verification recomputes the challenge and rejects a proof that carries a different one.",
  ["inputs", "configurations"], "all pairs of statements, commitments, setups and auxiliary data",
  "A field missing from the transcript is invisible to any test with honest proofs, since prover and verifier omit it alike.",
  ["src/zk/aff_g.rs", "src/zk/aff_g_star.rs", "src/zk/dec.rs", "src/zk/elog.rs", "src/zk/enc_elg.rs", "src/zk/fac.rs", "src/zk/mod_.rs", "src/zk/prm.rs", "src/zk/sch.rs", "src/tools/hashing.rs", "src/params/traits.rs"],
  [("Challenge::new, XofHasher chains", "src/zk/*.rs")])

p("C13", "ECDSA signatures are assembled correctly from the protocol's scalars",
  "Whenever the two scalars produced by the signing protocol form a valid ECDSA signature of the message under the public key, the assembled recoverable signature has the same first scalar, a second scalar equal to the given one or its negative whichever is in the lower half, and a recovery identifier that recovers exactly the given public key. Otherwise no signature is returned.",
  ["inputs"], "all scalar pairs, messages and public keys",
  "The upper half of the second scalar and the parity of the nonce point are chosen by chance in the tests, and failures are probabilistic.",
  ["src/curve/ecdsa.rs", "src/curve/arithmetic.rs"],
  [("RecoverableSignature::from_scalars", "src/curve/ecdsa.rs")])

p("C14", "Splitting a secret additively loses and leaks nothing",
  "Splitting a scalar into any positive number of additive parts returns exactly that many parts and they sum to the scalar. Any proper subset of all but one chosen part is exactly the source of randomness, independent of the scalar.",
  ["inputs", "configurations"], "all scalars, part counts and random choices",
  "Not tested on its own; only centralized key generation of a fixed size uses it.",
  ["src/curve/arithmetic.rs"], [("secret_split", "src/curve/arithmetic.rs")])

p("C15", "Threshold sharing reconstructs the secret from any sufficient subset",
  "Evaluating a sharing polynomial of threshold t at distinct non-zero points yields shares such that any t of them interpolate back to the constant term, for scalars and for curve points consistently (interpolating public shares gives the public key), and the public polynomial evaluates to the public shares of the secret evaluations.",
  ["inputs", "configurations"], "all coefficients, all share points, thresholds and subsets within the size bounds",
  "The test uses one threshold, one share set and random coefficients.",
  ["src/tools/sss.rs"], [("Polynomial / interpolation", "src/tools/sss.rs")])

p("C16", "Threshold key shares and signing shares convert without changing the key",
  "Creating threshold shares for a key, converting any threshold-sized subset of them into additive signing shares, and converting signing shares back into threshold shares all preserve the verifying key, and every holder's public shares match the secret shares of the others. Child-key derivation commutes with these conversions.",
  ["inputs", "configurations"], "all secrets, share points, subsets and thresholds within the size bounds",
  "Tests use a single small configuration with random secrets.",
  ["src/entities/threshold.rs", "src/entities/full.rs", "src/tools/sss.rs", "src/curve/bip32.rs"],
  [("ThresholdKeyShare::to_key_share / from_key_share / new_centralized", "src/entities/threshold.rs")])

p("C17", "Key generation gives all parties one consistent key",
  "In every run of key generation without misbehaviour, all parties finish with the same verifying key and the same map of public shares, each party's secret share matches its own public share, and the secret shares sum to the private key of the verifying key.",
  ["inputs", "schedules"], "all random choices of all parties (bounded party counts)",
  "Tests run one random instance.",
  ["src/protocols/key_init.rs", "src/entities/full.rs"], [("KeyInit rounds", "src/protocols/key_init.rs")])

p("C18", "Key refresh and resharing preserve the key",
  "Key refresh changes every share but neither the verifying key nor the consistency of public with secret shares, and resharing to a new set of holders or a new threshold leaves the verifying key unchanged and gives each new holder a share consistent with everyone's public shares.",
  ["inputs", "configurations"], "all shares, random choices and holder sets (bounded sizes)",
  "Tests run one random instance.",
  ["src/protocols/key_refresh.rs", "src/protocols/key_resharing.rs", "src/entities/full.rs", "src/entities/threshold.rs"],
  [("KeyRefresh rounds", "src/protocols/key_refresh.rs"), ("KeyResharing rounds", "src/protocols/key_resharing.rs"), ("KeyShare::update", "src/entities/full.rs")])

p("C19", "Honest interactive signing produces a valid signature",
  "In every run of interactive signing in which all parties follow the protocol with consistent key shares and auxiliary data, every party obtains a signature that verifies for the message under the shared verifying key.",
  ["inputs", "schedules"], "all key shares, messages and random choices (bounded party counts)",
  "Tests run one random instance per test.",
  ["src/protocols/interactive_signing.rs"], [("Round 1 to 5", "src/protocols/interactive_signing.rs")])

p("C20", "Evidence of misbehaviour verifies exactly when the misbehaviour happened",
  "A fault that a party attributes to a peer because of the peer's messages yields evidence that a third party confirms from those messages alone, and messages of an honest party never yield evidence that verifies.",
  ["inputs", "fault_sequences"], "all messages of a misbehaving party",
  "Tests corrupt one field per round.",
  ["src/protocols/interactive_signing.rs", "src/protocols/key_init.rs", "src/protocols/key_refresh.rs", "src/protocols/aux_gen.rs"],
  [("ProtocolError::verify_messages_constitute_error", "src/protocols/*.rs")])

p("C21", "Secret containers compute transparently and never print their content",
  "Every arithmetic operation on a secret container (integers, scalars, points, residues) gives the container of the result of the same operation on the contents, including conditional selection and negation, remainder and division, sums of any length and multiplication of points. The debug output of a secret container does not depend on its content, and the debug output of keys, setups and randomizers made of secrets shows no secret number.",
  ["inputs"], "all contents and operand combinations",
  "One test looks for the digits of one key in one debug output; the arithmetic wrappers are only exercised indirectly.",
  ["src/tools/secret.rs"], [("operator implementations", "src/tools/secret.rs"), ("Debug", "src/tools/secret.rs")])

p("C22", "Running time is independent of secret values",
  "Operations on secret values take time that does not depend on the values.",
  ["inputs"], "all secret values",
  "Timing is not observed by any test except a statistical benchmark.",
  ["src/uint/secret_signed.rs", "src/private_benches"], [("constant-time selection", "src/uint/secret_signed.rs")])

p("C23", "BIP32 child derivation agrees between public key and shares",
  "Deriving a child verifying key along a path gives the parent plus the sum of the per-step tweaks times the generator, for paths of any length. Each step's tweak is computed from the key and the chain code that the previous step produced, beginning with the parent and a chain code hashed from the tag 'chain-code-derivation' and the encoded parent key; a hardened step, or a step whose child would be the identity, is an error. Deriving threshold key shares along the same path adds the same tweaks to the shared secret.",
  ["inputs"], "all keys, chain codes and paths within the size bounds",
  "Tests use one fixed path.",
  ["src/curve/bip32.rs", "src/entities/threshold.rs"], [("derive_tweaks / apply_tweaks_public", "src/curve/bip32.rs")])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for d in P:
        f.write(json.dumps(d) + "\n")
