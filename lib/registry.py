"""What decides each property."""
KANI_OUT = ("Kani's model of the Rust memory/abort semantics; allocation never fails; values of type parameters other "
            "than the instantiation named")
REG = {}


def reg(prop, **kw):
    kw.setdefault("level", "other")
    REG[prop] = kw


reg("C01", engines=[("K", {}), ("S", {"module": "c01s"})],
    technique="bounded model checking of the real code (Kani/CBMC, CaDiCaL); symbolic execution over tracked number types with z3",
    explanation="Every operation of src/uint (secret_signed, public_signed, secret_unsigned, public_uint, traits) is "
    "compiled from /repo's current tree, executed symbolically on arbitrary 64-bit operands with arbitrary declared "
    "bounds, and its result compared with 128-bit integer arithmetic; each obligation is decided by CBMC for all values. The same operations run on tracked 512-bit integers (1024-bit results) with the operand "
    "magnitudes symbolic; every path is enumerated with z3 and on each the value and the declared bound are proved.",
    bounds="512-bit tracked integers: thirteen pairs of declared bounds between 1 and 511, every value of either sign; integer type U64 (widened: U128), every operand value and every declared bound; products: 6-bit by 6-bit "
    "and 20-bit (thorough: 64-bit) by any signed power of two; sums of up to 3 terms; loops unwound 70 times with "
    "unwinding assertions",
    outside="carries between limbs belong to crypto-bigint; products of two wide odd numbers are decided algebraically (tracked "
    "integers), not bit by bit")

BMC = "bounded model checking of the real code (Kani/CBMC, CaDiCaL)"
reg("C02", engines=[("K", {}), ("S", {"module": "c02s"})], technique=BMC + "; symbolic execution over tracked number types with z3",
    explanation="Range membership (secret and public), bounded sampling, scaled sampling and hash-derived integers are "
    "executed symbolically with arbitrary values, exponents and source words and compared with the interval "
    "[-2^(e-1)+1, 2^(e-1)] computed in 128-bit arithmetic; sampling is shown to be the translation of the source number, "
    "hence one-to-one onto the interval. The same operations run on tracked 512-bit integers (scales of up to 1000 bits) with z3 "
    "deciding each path.",
    bounds={"quick": "integer type U64 (widened U128, U256); every value, bound and exponent that fits; the scale of scaled "
            "sampling below 2^16 (single to double width) or k*2^60 with 8-bit k (double to quadruple)",
            "thorough": "as quick with every 64-bit (126-bit) scale"},
    outside="more than 3 rejections of the source; exponents other than those listed in c02s.py for the 512-bit type",
    assumptions=["crypto-bigint's random_mod draws the high word first (pinned version)"])
reg("C03", engines=[("K", {})], technique=BMC,
    explanation="Serde forms of signed integers, unsigned integers, secret integers, bit strings and scalars are produced and "
    "parsed by the real Serialize/Deserialize code against a three-field record format with symbolic contents; parsing "
    "accepts only denoting records and round trips.",
    bounds="U64, U128; declared bounds 0,1,7,8,9,56,57,63 with every value, arbitrary records of 0,1,2,8,9,16 bytes with "
    "every declared bound and sign; bit strings of 0..23 bits; scalars of the 32-bit test curve, every 24-byte string",
    outside="the hexadecimal text layer of serde-encoded-bytes; point decompression (square roots); key types "
    "(C08, C09)",
    assumptions=["alloc::fmt::format is replaced by a stub returning an empty string"])
reg("C05", engines=[("K", {}), ("S", {"module": "c05s"})],
    technique=BMC + "; symbolic execution of the real code over tracked number types with z3 for hash-derived residues",
    explanation="A recording digest captures everything the hash chain feeds to the hash; the frame of an item is shown to be a "
    "prefix code, items append exactly their frame, the whole item is fed, digests have the requested length, and bit "
    "strings take each requested bit. Hash-derived residues are run on tracked integers with symbolic hash output and modulus: "
    "every accepted one is below the modulus and invertible.",
    bounds="items of up to 5 bytes for the prefix property (both lengths symbolic), 20 bytes for completeness; bit strings of "
    "0,1,7,8,9,17,28 bits; digests for 0..40 security bits",
    outside="longer items (the length field is 8 bytes); hash-derived scalars are compared with their definition on chosen hash outputs only; the serde-based Hashable implementation of structured values (C12)")
reg("C14", engines=[("K", {}), ("S", {"module": "c14s"})], technique=BMC + "; symbolic execution over tracked number types with z3",
    explanation="secret_split is executed symbolically for an arbitrary scalar and arbitrary accepted draws; count, sum and the "
    "identity of all parts but one with the draws are asserted.",
    bounds={"quick": "1 to 3 parts on the 32-bit test curve; 1, 2, 3, 4, 5, 8, 13 parts on a 64-bit curve; draws accepted at the first attempt",
            "thorough": "1 to 4 parts on the 32-bit test curve; 1 to 20 parts on a 64-bit curve; draws accepted at the first attempt"},
    outside="other curves and larger part counts; rejection in the scalar sampler")

SYM = "symbolic execution of the real code over tracked number types; z3 decides paths, polynomial normal forms the goals"
S_ASSUME = ["the tracked number types implement crypto-bigint's and elliptic-curve's contracts (their arithmetic is "
            "executed concretely and recorded symbolically; every recorded term is re-evaluated against the concrete value)",
            "values are far apart: two different inputs do not collide by accident (checked for each run)"]
S_OUT = ("other widths and parameter sets; operands below 2^32 on the symbolic side (their concrete runs are still "
         "compared with the specification); ")


def regs(prop, explanation, bounds, outside):
    reg(prop, engines=[("S", {})], technique=SYM, explanation=explanation, bounds=bounds, outside=S_OUT + outside,
        assumptions=S_ASSUME)


regs("C04", "The conversion functions of src/params are executed on tracked integers and scalars; every path is enumerated with "
     "z3 and on each the produced integer or scalar is proved equal to the specified one, for all inputs of the path.",
     "256-bit integers in 512-bit and 1024-bit words, a 64-bit prime-order curve; every scalar and every integer within "
     "its type's sign range", "curves other than the 64-bit test curve")
regs("C06", "Encryption, decryption and randomizer recovery run on tracked integers with symbolic primes, plaintexts and "
     "randomizers; every path is enumerated with z3, outputs are proved equal to the specified products of powers.",
     "256-bit primes (symbolic, constrained only by what the code assumes of them: odd, top bits set, coprime), every "
     "plaintext of the 512-bit and 1024-bit signed types, every invertible randomizer",
     "the primality of the generated numbers; other paths are looked for under two concrete keys")
regs("C07", "The ciphertext operators run on tracked integers; each result is proved to be the exact ciphertext of the specified "
     "plaintext and randomizer for every path.",
     "symbolic 512-bit modulus, every plaintext, scalar (both widths and signs), exponent and invertible randomizer",
     "non-invertible ciphertexts")
regs("C09", "Ring-Pedersen commitments of every exponent type run on tracked integers and are proved equal to the product of "
     "powers; the wire forms are followed field by field.",
     "symbolic 512-bit modulus and bases, every exponent of the 512-, 1024- and 1280-bit signed types",
     "bases that are not invertible")
regs("C08", "Key derivation, residue-number-system splitting and joining, square roots, sampling of non-squares and setups from a "
     "secret run on tracked integers with symbolic primes; every path is enumerated with z3 and the outputs proved congruent, "
     "modulo symbolic p, q, N or the totient, to the specified values.",
     "256-bit primes congruent to 3 modulo 4 (symbolic), every residue",
     "the generation of primes; quadratic residuosity itself is the number type's (crypto-bigint's) Jacobi symbol")
regs("C11", "Every verify function is run on tracked integers, scalars and points for arbitrary proofs and statements (all fields "
     "symbolic, the hash output symbolic); every path is enumerated with z3 and on each accepting path the carried challenge, "
     "every range condition and every equation of the relation is proved to follow from the path condition; panics on proofs "
     "as they arrive are violations.",
     "512-bit moduli and a 64-bit curve; 2 challenge bits where challenges are bit strings, every bit pattern and every "
     "carried length from 0 to 16; 2, 3 and 5 parties for dec",
     "soundness of the protocols themselves (that the equations imply knowledge); ciphertexts and commitments that are not "
     "invertible")
regs("C10", "Creation and verification of every proof run back to back on tracked numbers with symbolic witnesses, randomizers, masks "
     "and hash output; every path is enumerated with z3 and each verification equation tested on an accepting path is proved to "
     "be an identity, while each rejecting path must lie in the slack of a mask.",
     "512-bit moduli, every witness of the allowed ranges (both signs), every mask and challenge; 2 challenge bits where "
     "challenges are bit strings, every pattern (quick: two for aff_g* and dec); 2, 3 (thorough: also 4, 5, 9) parties for dec; "
     "provers' own keys of fac, mod and prm from a list of primes",
     "square roots inside mod (the tests whether a residue is a square are branches of the path, not verification equations)")
REG["C12"] = dict(level="other", engines=[("S", {})], technique="symbolic execution of the real code over tracked number types; z3 decides "
    "injectivity and disjointness of the recorded transcripts",
    explanation="Every verify function runs on tracked inputs with a recording random oracle; the byte string given to the hash is a "
    "sequence of terms over the statement, commitments, setup and caller's data. z3 shows that equal transcripts imply equal "
    "leaves, that auxiliary data of different shapes never collide, and that transcripts of different proof types differ before "
    "the auxiliary data begin. What the solver does not recover is replayed: changing the leaf must change the transcript.",
    bounds="512-bit moduli, 64-bit curve, two iterations of the iterated proofs; auxiliary data of twelve shapes (up to 64 bytes, "
    "up to two 256-bit numbers); every value of every leaf",
    outside="collisions of the hash itself; the number of parties of the decryption proof, which is a parameter of the relation and "
    "not hashed; the prover's side (C10: an honest proof is accepted, so both sides derive the same challenge)",
    assumptions=S_ASSUME)

regs("C13", "sign_prehash-independent recovery: RecoverableSignature::from_scalars and the recovery through the recovery id run on tracked scalars and "
     "points for arbitrary keys, messages and nonces; every path is enumerated with z3 and the accepted signature is proved to be the "
     "low-s form of the given one with the recovery id naming the key.",
     "64-bit prime-order curve; every key, message and signature built from a point R (abscissas above and below the order, both parities)",
     "curves other than the 64-bit test curve; signatures whose r is not an abscissa")
regs("C15", "Splitting, evaluation, and interpolation run on tracked scalars and points with a symbolic secret, coefficients and (for "
     "part of the jobs) evaluation points; every path is enumerated with z3, and shares, public shares and joins are proved equal "
     "to the specified polynomials, as rational functions modulo the curve order.",
     "64-bit prime-order curve; every secret and coefficient; up to 5 holders with every threshold (thorough: 7) and selected larger "
     "ones (10 of 10, 2 of 16; thorough: 20 of 20, 3 of 64), subsets of threshold size and larger; arbitrary distinct points for up "
     "to 3 (thorough: 4) holders in every order",
     "points that repeat (the caller's sets exclude them)")
regs("C16", "Creation, conversion in both directions and derivation of key shares run on tracked scalars and points; every path is "
     "enumerated with z3, and every share, public share, share point and key is proved equal to the specified term.",
     "64-bit prime-order curve; every key, coefficient and tweak; up to 4 holders (thorough: 6) with every threshold, 3 of 8, 5 of 5; "
     "paths of up to 3 (thorough: 8) steps, including those that meet zero",
     "sizes beyond these; the manul crate, for which a stand-in with the same interface is compiled")
regs("C21", "Every operator of the secret containers runs on tracked integers, residues, scalars and points and the content of the "
     "result is proved equal to the operation on the contents, for every path; debug outputs are recorded term by term and may "
     "contain no term that depends on the content.",
     "512-bit integers and residues, a 64-bit curve; every content and operand",
     "memory left behind after dropping a container")
regs("C23", "The derivation runs on a tracked key with arbitrary tweaks in place of the HMAC outputs of the steps; every path is enumerated "
     "with z3, and the key of each step and the child are proved to be the parent plus the tweaks so far times the generator.",
     "64-bit prime-order curve, every key and tweak; threshold shares along paths of 1 to 4 (thorough: to 8) steps; paths of 0 to 8 and 16 steps (thorough: 0 to 12, 16, 24, 32, 64), hardened and "
     "identity children at chosen steps",
     "the HMAC of one BIP32 step (the bip32 crate); the conversion between a curve's own key type and the BIP32 key type")
PROT_OUT = ("larger party counts; session drivers and the network (the manul crate, for which a stand-in with the same interface runs all "
            "parties in lockstep with serialized messages)")
regs("C17", "Whole key generation sessions are run on tracked scalars and points, all parties in lockstep with serialized messages and every "
     "random draw symbolic; every path is enumerated with z3, and the verifying key, the map of public shares and every party's secret "
     "share are proved equal to the specified terms in the draws.",
     "64-bit prime-order curve; 1 to 3 parties (thorough: to 6); every draw, including draws that cancel", PROT_OUT)
regs("C18", "Resharing, key refresh, auxiliary data generation and KeyShare::update run between tracked parties; the paths of resharing and update "
     "are enumerated with z3; every new share, public share and key is proved equal to the specified term in old shares and draws, and "
     "the auxiliary data of all parties are proved to agree with the keys drawn.",
     "64-bit prime-order curve; every share, coefficient and change; resharing between sets of up to 4 (thorough: 5) holders, one and two "
     "resharings in a row; refresh of 2 and 3 shares with 512-bit moduli",
     "refresh and auxiliary data generation: the keys' primes are drawn from a list, and the branches taken inside the proofs of correct "
     "keys are those of the runs made; " + PROT_OUT)
