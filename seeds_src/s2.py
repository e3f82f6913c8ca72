exec(open("/verif/seeds_src/s1.py").read().split("CONV =")[0])
SS, PSG, TR = "src/uint/secret_signed.rs", "src/uint/public_signed.rs", "src/uint/traits.rs"
ENC, KEYS, RP = "src/paillier/encryption.rs", "src/paillier/keys.rs", "src/paillier/ring_pedersen.rs"
HASH, BV, ARI = "src/tools/hashing.rs", "src/tools/bitvec.rs", "src/curve/arithmetic.rs"
READER = '''
struct Src(Vec<u8>, usize);
impl digest::XofReader for Src { fn read(&mut self, b: &mut [u8]) { for x in b { *x = self.0[self.1 % self.0.len()]; self.1 += 1; } } }
'''
SEEDS = [
 dict(id="c02-secret-low-end", property="C02", needs="a secret value exactly at minus 2^(e-1)",
  breaks="the secret range check accepts the value just below the lower end of the range",
  edits=[(SS, "let is_high_end = abs.expose_secret().ct_eq(&shifted) & !self.is_negative();",
              "let is_high_end = abs.expose_secret().ct_eq(&shifted) & (!self.is_negative() | Choice::from(u8::from(exp >= 16)));")],
  demo=PRE + '''pub fn run() {
    assert!(bool::from(signed(1 << 20, 60).ensure_exponent_range(21).is_some()));
    assert!(bool::from(signed(1 - (1 << 20), 60).ensure_exponent_range(21).is_some()));
    assert!(bool::from(signed(-(1 << 20), 60).ensure_exponent_range(21).is_none()));
}'''),
 dict(id="c02-scaled-wide-shift", property="C02", needs="doubly wide scaled sampling where the source returns zero",
  breaks="the interval of the doubly wide scaled sampler is shifted by one",
  edits=[(SS, '''            .expect("`2^exp` fits into `T`, so the result fits into `T::Wide::Wide`")
            .checked_sub(&XW::one())
            .expect("does not overflow because of the assertions above");
''', '''            .expect("`2^exp` fits into `T`, so the result fits into `T::Wide::Wide`");
''')],
  demo=PRE + '''
struct Zero;
impl rand_core::RngCore for Zero {
    fn next_u32(&mut self) -> u32 { 0 } fn next_u64(&mut self) -> u64 { 0 }
    fn fill_bytes(&mut self, d: &mut [u8]) { d.fill(0) }
    fn try_fill_bytes(&mut self, d: &mut [u8]) -> Result<(), rand_core::Error> { d.fill(0); Ok(()) }
}
impl rand_core::CryptoRng for Zero {}
pub fn run() {
    let x: SecretSigned<crypto_bigint::U1024> = SecretSigned::<U>::random_in_exponent_range_scaled_wide(&mut Zero, 10, &W::from(7u64));
    let a = *x.abs_value().expose_secret();
    assert!(a == crypto_bigint::U1024::from(7u64 * 512 - 1));
}'''),
 dict(id="c02-xof-mask", property="C02", needs="a hash-derived integer whose bit count is one above a multiple of eight, with the top bit set",
  breaks="the top bit of such a hash-derived integer is always zero, so half of the range is unreachable",
  edits=[(TR, "            (1 << (n_bits & 7)) - 1\n", "            u8::MAX.wrapping_shr(8 - (n_bits & 7).max(2)) & !(u8::from(n_bits & 7 == 1) * 3)\n")],
  demo=PRE + READER + '''pub fn run() {
    for n in 1..100u32 {
        let x = U::from_xof_reader(&mut Src(vec![0xff], 0), n);
        assert!(x == (U::ONE << n).wrapping_sub(&U::ONE), "{n}");
    }
}'''),
 dict(id="c03-signed-bound", property="C03", needs="a wire integer with the declared bound equal to the width of the type",
  breaks="a signed integer whose declared bound leaves no sign bit is accepted from the wire",
  edits=[(PSG, "        if bound >= T::BITS || abs_value.bits_vartime() > bound {", "        if bound > T::BITS || abs_value.bits_vartime() > bound {")],
  demo=PRE + '''pub fn run() {
    let mut j = serde_json::to_value(PublicSigned::<U>::new_positive(U::from(5u64), 100).unwrap()).unwrap();
    j["bound"] = U::BITS.into();
    assert!(serde_json::from_value::<PublicSigned<U>>(j).is_err());
}'''),
 dict(id="c03-bitvec-len", property="C03", needs="a wire bit string with a bit count that is a multiple of eight and one byte too few",
  breaks="decoding such a bit string panics instead of returning an error",
  edits=[(BV, "        if source.bits.div_ceil(8) as usize > source.byte_vec.len() {", "        if (source.bits / 8) as usize + usize::from(source.bits % 8 > 1) > source.byte_vec.len() {"),
         (BV, "        debug_assert!(bits.div_ceil(8) <= byte_vec.len());\n", ""),
         (BV, "            bit_vec.push(byte_vec[byte_position] & bit_mask != 0);", "            bit_vec.push(byte_vec.get(byte_position).map_or(false, |byte| byte & bit_mask != 0));")],
  demo=PRE + '''use crate::tools::bitvec::BitVec;
pub fn run() {
    for bits in 0..70u32 {
        let n = bits.div_ceil(8);
        for have in 0..12u32 {
            let s = ["", "AA", "AAA", "AAAA", "AAAAAA", "AAAAAAA", "AAAAAAAA", "AAAAAAAAAA", "AAAAAAAAAAA", "AAAAAAAAAAAA", "AAAAAAAAAAAAAA", "AAAAAAAAAAAAAAA"][have as usize];
            let t = format!("{{\\"bits\\":{bits},\\"byte_vec\\":\\"{s}\\"}}");
            assert_eq!(serde_json::from_str::<BitVec>(&t).is_ok(), have >= n, "{t}");
        }
    }
}'''),
 dict(id="c05-long-length", property="C05", needs="an item of 65536 bytes or more",
  breaks="the length frame wraps at 65536, so a long item can imitate a sequence of others",
  edits=[(HASH, "let len = (bytes.as_ref().len() as u64).to_be_bytes();", "let len = u64::from(bytes.as_ref().len() as u16).to_be_bytes();")],
  demo=PRE + '''use crate::tools::hashing::*;
pub fn run() {
    // an item of 65536 + 1 bytes, and two items whose frames imitate it
    let mut long = vec![7u8];
    long.extend_from_slice(&(65536u64 - 8).to_be_bytes());
    long.extend(std::iter::repeat(0u8).take(65536 - 8));
    let h = |items: &[&[u8]]| {
        let mut h = Hasher::<<P as SchemeParams>::Digest>::new_with_dst(b"x");
        for i in items { h = h.chain_bytes(*i); }
        h.finalize(128)
    };
    assert!(h(&[&long]) != h(&[&long[..1], &long[9..]]));
}'''),
 dict(id="c05-bitvec-tail", property="C05", needs="a hash-derived bit string longer than 128 bits",
  breaks="bits past the 128th repeat earlier output bits",
  edits=[(BV, '''        let mut byte_vec = vec![0u8; bytes];
        reader.read(&mut byte_vec);''', '''        let mut byte_vec = vec![0u8; bytes];
        let block = bytes.min(16);
        reader.read(byte_vec.get_mut(..block).unwrap_or_default());
        for i in block..bytes {
            byte_vec[i] = byte_vec[i - block];
        }''')],
  demo=PRE + READER + '''use crate::tools::bitvec::BitVec;
pub fn run() {
    let bytes: Vec<u8> = (0..64u8).collect();
    for bits in [1usize, 100, 128, 129, 200, 256] {
        let v = BitVec::from_xof_reader(&mut Src(bytes.clone(), 0), bits);
        for (i, b) in v.bits().iter().enumerate() { assert_eq!(*b, bytes[i / 8] >> (7 - i % 8) & 1 == 1); }
    }
}'''),
 dict(id="c05-scalar-half", property="C05", needs="a hash-derived scalar compared with the reduction of the whole output",
  breaks="the high half of a hash-derived scalar is the low half over again when the first byte of output is even",
  edits=[(ARI, """        reader.read(&mut buf);
        let uint_hi =""", """        if buf.first().is_some_and(|byte| byte % 2 == 1) {
            reader.read(&mut buf);
        }
        let uint_hi =""")],
  demo=PRE + READER + """pub fn run() {
    let n = Scalar::<P>::repr_len();
    for first in 0..4u8 {
        let mut bytes = vec![first; 1];
        bytes.extend((1..64u8).map(|x| x.wrapping_mul(37)));
        let a = Scalar::<P>::from_xof_reader(&mut Src(bytes.clone(), 0));
        let w = <<P as SchemeParams>::Curve as elliptic_curve::Curve>::FieldBytesSize::default();
        let _ = (n, w);
        let word = core::mem::size_of::<<<P as SchemeParams>::Curve as elliptic_curve::Curve>::Uint>();
        bytes[2 * word - 1] ^= 1;
        let b = Scalar::<P>::from_xof_reader(&mut Src(bytes, 0));
        assert!(a != b);
    }
}"""),
 dict(id="c07-masked-negative", property="C07", needs="masking a randomizer with a negative exponent",
  breaks="the masked randomizer for a negative exponent uses the inverted mask",
  edits=[(ENC, """            (self.randomizer_mod.pow(exponent) * &coeff.randomizer_mod)
                .expose_secret()
                .retrieve()""", """            if exponent.is_negative() {
                // one inversion for the whole product
                (self.randomizer_mod.pow(&exponent.neg()) * &coeff.randomizer_mod).pow(&PublicSigned::<P::Uint>::one().neg())
            } else {
                self.randomizer_mod.pow(exponent) * &coeff.randomizer_mod
            }
                .expose_secret()
                .retrieve()""")],
  demo=PRE + """pub fn run() {
    let sk = sk(); let pk = sk.public_key();
    let (r, s) = (Randomizer::random(&mut rng(), pk), Randomizer::random(&mut rng(), pk));
    let zero = SecretSigned::<U>::zero();
    let (cr, cs) = (Ciphertext::new_with_randomizer(pk, &zero, &r), Ciphertext::new_with_randomizer(pk, &zero, &s));
    for e in [3i64, -3, 0, -1] {
        let e = signed(e, 10).to_public();
        let m = r.to_masked(&s, &e);
        let want = cr.clone() * &e + &cs;
        assert!(Ciphertext::new_public_with_randomizer(pk, &PublicSigned::<U>::zero(), &m) == want);
    }
}"""),
 dict(id="c09-unsigned-top", property="C09", needs="a setup secret with the highest bit allowed by its bound",
  breaks="raising to a secret unsigned exponent drops the exponent's top bit",
  edits=[(TR, '''        self.pow_bounded_exp(exp.expose_secret(), exp.bound())
''', '''        self.pow_bounded_exp(exp.expose_secret(), exp.bound() - u32::from(exp.bound() % 64 == 62))
''')],
  demo=PRE + '''pub fn run() {
    let mut n = 0;
    for _ in 0..4 {
        let s = RPSecret::<PP>::random(&mut rng());
        let setup = RPParams::random_with_secret(&mut rng(), &s);
        let mut acc = *setup.base_randomizer();
        let l = *s.lambda().expose_secret();
        if l.bits() == U::BITS - 2 { n += 1; }
        acc = crypto_bigint::modular::MontyForm::one(*setup.monty_params_mod_n());
        for i in (0..U::BITS).rev() { acc = acc * acc; if bool::from(l.bit(i)) { acc = acc * *setup.base_randomizer(); } }
        assert!(acc == *setup.base_value());
    }
}'''),
 dict(id="c12-enc-elg-x", property="C12", needs="two statements that differ only in the public point X",
  breaks="the transcript of P_enc_elg contains B twice and X not at all",
  edits=[("src/zk/enc_elg.rs", "@all:            .chain(&public.cap_x)\n", "            .chain(&public.cap_b)\n")],
  demo=PRE + '''use crate::tools::hashing::*;
pub fn run() {
    let sk = sk(); let pk = sk.public_key();
    let setup = RPParams::<PP>::random(&mut rng());
    let x = signed(5, 10); let rho = Randomizer::random(&mut rng(), pk);
    let a = Secret::init_with(|| Scalar::<P>::random(&mut rng())); let b = Secret::init_with(|| Scalar::<P>::random(&mut rng()));
    let c = Ciphertext::new_with_randomizer(pk, &x, &rho);
    let (pa, pb) = (a.mul_by_generator(), b.mul_by_generator());
    let e = |px: Point<P>| {
        use rand_core::SeedableRng;
        let mut r = rand_chacha::ChaCha12Rng::seed_from_u64(77);
        let p = EncElgProof::<P>::new(&mut r, EncElgSecretInputs { x: &x, rho: &rho, b: &b },
            EncElgPublicInputs { pk0: pk, cap_c: &c, cap_a: &pa, cap_b: &pb, cap_x: &px }, &setup, &"aux");
        serde_json::to_value(&p).unwrap()["e"].clone()
    };
    assert!(e(pa) != e(pb));
}'''),
 dict(id="c13-recovery-before", property="C13", needs="a second scalar in the upper half",
  breaks="the recovery identifier belongs to the signature before normalization",
  edits=[("src/curve/ecdsa.rs", '''        let signature = signature.normalize_s().unwrap_or(signature);

''', '''        let normalized = signature.normalize_s().unwrap_or(signature.clone());

'''), ("src/curve/ecdsa.rs", '''        Some(Self { signature, recovery_id })
    }

    /// Unwraps''', '''        Some(Self { signature: normalized, recovery_id })
    }

    /// Unwraps''')],
  demo=PRE + '''use tiny_curve::TinyCurve64;
pub fn run() {
    for i in 1..40u64 {
        let d = Scalar::<P>::from(i * 7919); let k = Scalar::<P>::from(i * 104729 + 3);
        let m = Scalar::<P>::from(i * i + 11);
        let r = k.mul_by_generator().x_coordinate();
        let s = k.invert().unwrap() * (m + r * d);
        let sig = RecoverableSignature::<P>::from_scalars(r, s, d.mul_by_generator(), m).unwrap();
        let (sig, id) = sig.to_backend();
        let vk = ecdsa::VerifyingKey::recover_from_prehash(&m.to_be_bytes(), &sig, id).unwrap();
        assert!(vk == d.mul_by_generator().to_verifying_key().unwrap());
    }
}'''),
 dict(id="c14-biased-part", property="C14", needs="splitting into three or more parts",
  breaks="the first part carries the secret masked by another part, so two parts reveal it",
  edits=[(ARI, '''    parts.push(scalar - partial_sum);
    parts
''', '''    let last = scalar - partial_sum;
    if let [first, second, ..] = parts.as_mut_slice() {
        // move the remainder into the first part and keep a multiple of the second at the end
        let twice = &*second + &*second;
        let moved = last - &*twice.expose_secret();
        *first += moved;
        parts.push(twice);
    } else {
        parts.push(last);
    }
    parts
'''), (ARI, "    let partial_sum: Secret<Scalar<P>>", "    let partial_sum: Secret<Scalar<P>>")],
  demo=PRE + '''pub fn run() {
    for n in 2..6usize {
        let split = |s: u64| {
            use rand_core::SeedableRng;
            let mut r = rand_chacha::ChaCha12Rng::seed_from_u64(5);
            let v = crate::curve::secret_split::<P>(&mut r, Secret::init_with(|| Scalar::from(s)), n);
            v.iter().map(|x| *x.expose_secret()).collect::<Vec<_>>()
        };
        let (a, b) = (split(1), split(2));
        assert!(a.iter().cloned().sum::<Scalar<P>>() == Scalar::ONE);
        assert_eq!(a.iter().zip(b.iter()).filter(|(x, y)| x == y).count(), n - 1);
        // all parts but one are the draws themselves
        for i in 0..n { for j in 0..i { assert!(a[i] != a[j] + a[j] && a[j] != a[i] + a[i]); } }
    }
}'''),
 dict(id="c21-sum-order", property="C21", needs="summing four or more secret scalars by reference",
  breaks="the sum of references to secret scalars drops terms after a zero partial sum",
  edits=[("src/tools/secret.rs", "iter.fold(Secret::init_with(|| Scalar::ZERO), |accum, x| accum + x)",
          "let mut iter = iter;\n        let mut accum = Secret::init_with(|| Scalar::ZERO);\n        let mut count = 0usize;\n        while let Some(x) = iter.next() {\n            count += 1;\n            accum = if count > 2 && *accum.expose_secret() == Scalar::ZERO { accum } else { accum + x };\n        }\n        accum")],
  demo=PRE + '''pub fn run() {
    let v: Vec<Secret<Scalar<P>>> = [Scalar::from(5u64), -Scalar::from(5u64), Scalar::from(9u64)].into_iter().map(|x| Secret::init_with(|| x)).collect();
    let s: Secret<Scalar<P>> = v.iter().sum();
    assert!(*s.expose_secret() == Scalar::from(9u64));
}'''),
 dict(id="c21-debug-sign", property="C21", needs="printing a negative secret integer",
  breaks="the debug output of a secret signed integer shows its sign",
  edits=[(SS, "#[derive(Debug, Clone)]\npub(crate) struct SecretSigned", """impl<T: Zeroize + Integer + Bounded> core::fmt::Debug for SecretSigned<T> {
    fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result {
        let sign = if bool::from(self.is_negative()) { "-" } else { "" };
        write!(f, "SecretSigned {{ {sign}{:?}, bound: {} }}", self.value, self.bound)
    }
}

#[derive(Clone)]\npub(crate) struct SecretSigned""")],
  demo=PRE + """pub fn run() {
    assert_eq!(format!("{:?}", signed(5, 10)), format!("{:?}", signed(-7, 10)));
}"""),
 dict(id="c23-chain-code", property="C23", needs="a derivation path of three or more steps",
  breaks="the chain code is not advanced after the second step",
  edits=[("src/curve/bip32.rs", '''        tweaks.push(tweak);
        chain_code = new_chain_code;
''', '''        tweaks.push(tweak);
        if tweaks.len() != 2 {
            chain_code = new_chain_code;
        }
''')],
  demo=PRE + """use digest::Digest; use bip32::PublicKey as _;
pub fn run() {
    use crate::curve::PublicTweakable as _;
    for k in 1..20u64 {
        let vk = Scalar::<P>::from(k * 977).mul_by_generator().to_verifying_key().unwrap();
        let path: bip32::DerivationPath = "m/1/2/3/4/5".parse().unwrap();
        let tweaks = derive_tweaks::<<P as SchemeParams>::Curve>(&vk.tweakable_pk(), &path).unwrap();
        let mut pk = vk.tweakable_pk();
        let h = <<P as SchemeParams>::Curve as ecdsa::hazmat::DigestPrimitive>::Digest::new()
            .chain_update(b"chain-code-derivation").chain_update(pk.to_bytes()).finalize();
        let mut cc = [0u8; 32];
        let n = h.len().min(32);
        cc[..n].copy_from_slice(&h[..n]);
        for (i, c) in path.iter().enumerate() {
            let (t, next) = pk.derive_tweak(&cc, c).unwrap();
            assert!(t == tweaks[i], "step {i}");
            pk = pk.derive_child(t).unwrap();
            cc = next;
        }
    }
}"""),
]
