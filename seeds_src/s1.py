PRE = '''extern crate std;
use std::{vec, vec::Vec, string::String, format};
use rand_core::SeedableRng;
use crypto_bigint::modular::Retrieve;
use crypto_bigint::*;
use crate::{curve::*, paillier::*, params::*, dev::TestParams, tools::Secret, uint::*, zk::*};
type P = TestParams;
type PP = <P as SchemeParams>::Paillier;
type U = <PP as PaillierParams>::Uint;
type W = <PP as PaillierParams>::WideUint;
#[allow(unused)] fn rng() -> rand_chacha::ChaCha12Rng {
    use std::sync::atomic::*; static C: AtomicU64 = AtomicU64::new(1);
    rand_chacha::ChaCha12Rng::seed_from_u64(C.fetch_add(1, Ordering::SeqCst))
}
#[allow(unused)] fn sk() -> SecretKeyPaillier<PP> { SecretKeyPaillierWire::<PP>::random(&mut rng()).into_precomputed() }
#[allow(unused)] fn signed(v: i64, bound: u32) -> SecretSigned<U> {
    let p = SecretSigned::new_positive(Secret::init_with(|| U::from(v.unsigned_abs())), bound).unwrap();
    if v < 0 { -p } else { p }
}
#[allow(unused)] fn plus(x: &serde_json::Value, d: u64) -> serde_json::Value {
    let s = String::from(x.as_str().unwrap());
    let (pre, body) = if s.starts_with("0x") { ("0x", &s[2..]) } else { ("", &s[..]) };
    let n = body.len();
    let low = u64::from_str_radix(&body[n - 8..], 16).unwrap().wrapping_add(d) & 0xffffffff;
    serde_json::Value::String(format!("{pre}{}{:08x}", &body[..n - 8], low))
}
'''
CONV = "src/params/conversion.rs"
ENC = "src/paillier/encryption.rs"
SEEDS = [
 dict(id="c04-wide-truncated", property="C04", needs="a negative double-width integer with bits above the single width",
  breaks="converting a negative wide integer drops its upper half",
  edits=[(CONV, '''    let abs_value = scalar_from_wide_uint::<P>(&value.abs());
    if value.is_negative() {
        -abs_value''', '''    let abs_value = scalar_from_wide_uint::<P>(&value.abs());
    if value.is_negative() && value.bound() > <P::Paillier as PaillierParams>::MODULUS_BITS {
        let low = <P::Paillier as PaillierParams>::Uint::try_from_wide(&value.abs()).map(|x| scalar_from_wide_uint::<P>(&x.to_wide()));
        -low.unwrap_or(-abs_value)
    } else if value.is_negative() {
        -abs_value''')],
  demo=PRE + '''pub fn run() {
    let x = PublicSigned::<W>::new_positive(W::ONE << (U::BITS + 7), W::BITS - 2).unwrap();
    let a = scalar_from_wide_signed::<P>(&x);
    let b = scalar_from_wide_signed::<P>(&-x);
    assert!(a + b == Scalar::ZERO);
}'''),
 dict(id="c04-secret-sign", property="C04", needs="a secret negative integer whose absolute value is a multiple of the curve order plus one half",
  breaks="the smallest-absolute-value representative is chosen by a wrong threshold",
  edits=[(CONV, '''    let abs_value = secret_scalar_from_wide_uint::<P>(&value.abs_value());
    Secret::<Scalar<P>>::conditional_select(&abs_value, &-&abs_value, value.is_negative())
}''', '''    let abs_value = secret_scalar_from_wide_uint::<P>(&value.abs_value());
    let top = crypto_bigint::subtle::Choice::from((value.abs_value().expose_secret().bits_vartime() != value.bound()) as u8);
    Secret::<Scalar<P>>::conditional_select(&abs_value, &-&abs_value, value.is_negative() & (top | crypto_bigint::subtle::Choice::from((value.bound() < 400) as u8)))
}''')],
  demo=PRE + '''pub fn run() {
    let v = Secret::init_with(|| W::MAX >> 100);
    let b = W::BITS - 100;
    let x = SecretSigned::<W>::new_positive(v, b).unwrap();
    let a = secret_scalar_from_wide_signed::<P>(&x);
    let c = secret_scalar_from_wide_signed::<P>(&-&x);
    assert!(*a.expose_secret() + *c.expose_secret() == Scalar::ZERO);
    let small = signed(-5, 64).to_wide();
    let d = secret_scalar_from_wide_signed::<P>(&small);
    assert!(*d.expose_secret() == -Scalar::from(5u64));
}'''),
 dict(id="c06-recover-unreduced", property="C06", needs="recovering the randomizer of a ciphertext whose plaintext was negative and wide",
  breaks="encryption of a negative wide plaintext uses the randomizer times minus one",
  edits=[(ENC, '''        let randomizer = randomizer.randomizer.to_wide();
        let pk_modulus = pk.modulus_signed();
        let factor2 = randomizer
            .to_montgomery(pk.monty_params_mod_n_squared())
            .pow(&pk_modulus);

        let ciphertext = *(factor1 * factor2).expose_secret();''', '''        let wide = abs_plaintext_bound > P::MODULUS_BITS && bool::from(plaintext_is_negative);
        let randomizer = randomizer.randomizer.to_wide();
        let pk_modulus = pk.modulus_signed();
        let factor2 = randomizer
            .to_montgomery(pk.monty_params_mod_n_squared())
            .pow(&pk_modulus);
        let mut factor2 = factor2;
        factor2.conditional_negate(Choice::from(wide as u8));

        let ciphertext = *(factor1 * factor2).expose_secret();'''),
   (ENC, '''        let abs_plaintext = abs_plaintext.to_montgomery(pk.monty_params_mod_n_squared());
        let mut prod_mod = abs_plaintext * pk.modulus_mod_modulus_squared();

        prod_mod.conditional_negate''', '''        let abs_plaintext_bound = abs_plaintext.bound();
        let abs_plaintext = abs_plaintext.to_montgomery(pk.monty_params_mod_n_squared());
        let mut prod_mod = abs_plaintext * pk.modulus_mod_modulus_squared();

        prod_mod.conditional_negate''')],
  demo=PRE + '''pub fn run() {
    let sk = sk(); let pk = sk.public_key();
    let x = SecretSigned::<W>::new_positive(Secret::init_with(|| W::from(77u64)), W::BITS - 3).unwrap();
    let r = Randomizer::random(&mut rng(), pk);
    for y in [x.clone(), -&x] {
        let c = Ciphertext::new_wide_with_randomizer(pk, &y, &r);
        let d = c.derive_randomizer(&sk);
        let e = Ciphertext::new_wide_with_randomizer(pk, &y, &d);
        assert!(e == c);
    }
    assert!(Ciphertext::new_wide_with_randomizer(pk, &-&x, &r) == Ciphertext::new_with_randomizer(pk, &signed(-77, 64), &r));
}'''),
 dict(id="c06-decrypt-half", property="C06", needs="decryption of a plaintext whose absolute value is the largest possible",
  breaks="the plaintext of largest absolute value is returned with the other sign",
  edits=[(ENC, '''        SecretSigned::new_modulo(positive_result, &pk.modulus_nonzero(), P::MODULUS_BITS)''',
   '''        let half = pk.modulus().wrapping_shr_vartime(1);
        let positive_result = if *positive_result.expose_secret() == half { &positive_result + &<P::Uint as Integer>::one() } else { positive_result };
        SecretSigned::new_modulo(positive_result, &pk.modulus_nonzero(), P::MODULUS_BITS)'''),
   (ENC, """use crypto_bigint::{
    modular::Retrieve,""", """use crypto_bigint::{
    modular::Retrieve, ShrVartime,""")],
  demo=PRE + '''pub fn run() {
    let sk = sk(); let pk = sk.public_key();
    let half = *pk.modulus() >> 1;
    let x = SecretSigned::<U>::new_positive(Secret::init_with(|| half), U::BITS - 1).unwrap();
    let r = Randomizer::random(&mut rng(), pk);
    let y = Ciphertext::new_with_randomizer(pk, &x, &r).decrypt(&sk);
    assert!(!bool::from(y.is_negative()));
    assert!(*y.abs_value().expose_secret() == half);
}'''),
 dict(id="c08-join-equal", property="C08", needs="a residue whose part modulo p exceeds q",
  breaks="joining residues whose part modulo p is at least q gives a wrong number",
  edits=[("src/paillier/keys.rs", '''        let a_half = a_mod_p.retrieve();
        let a_mod_q = a_half.clone().to_montgomery(&self.monty_params_mod_q);''', '''        let a_half = a_mod_p.retrieve();
        let a_red = if a_half > *self.primes.q_half().expose_secret() {
            // a shortcut for p < 2 q
            a_half.clone().wrapping_sub(self.primes.q_half().expose_secret()).wrapping_sub(&<P::HalfUint as Integer>::one())
        } else {
            a_half.clone()
        };
        let a_mod_q = a_red.to_montgomery(&self.monty_params_mod_q);'''),
   ("src/paillier/keys.rs", "    WrappingAdd,\n", "    WrappingAdd, WrappingSub,\n")],
  demo=PRE + '''pub fn run() {
    let sk = sk(); let n = *sk.public_key().modulus();
    for k in 0..40u64 {
        let x = n - U::from(k * 1000003 + 1);
        assert!(sk.rns_join(&sk.rns_split(&x)) == x);
    }
    let mut seen = 0;
    while seen < 300 {
        let x = U::random_mod(&mut rng(), &NonZero::new(n).unwrap());
        assert!(sk.rns_join(&sk.rns_split(&x)) == x);
        seen += 1;
    }
    // keys with p > q and q > p
    for _ in 0..6 {
        let sk = super::demo::sk(); let n = *sk.public_key().modulus();
        for k in 0..40u64 {
            let x = n - U::from(k * 1000003 + 1);
            assert!(sk.rns_join(&sk.rns_split(&x)) == x);
        }
    }
}'''),
 dict(id="c10-prm-wrap", property="C10", needs="a mask that, added to the secret exponent, reaches the totient exactly or nearly so",
  breaks="the response to a set challenge bit is not reduced when the sum equals the totient minus one",
  edits=[("src/zk/prm.rs", '''                let x = a.add_mod(secret.lambda(), &totient);
''', '''                let x = a.add_mod(secret.lambda(), &totient);
                // `x` and the totient never coincide
                let x = if x.expose_secret().is_odd().into() && !bool::from(a.expose_secret().is_odd()) && x.expose_secret() < a.expose_secret() { a.clone() } else { x };
''')],
  demo=PRE + '''pub fn run() {
    for _ in 0..12 {
        let secret = RPSecret::<PP>::random(&mut rng());
        let setup = RPParams::random_with_secret(&mut rng(), &secret);
        let aux: &[u8] = b"x";
        for _ in 0..20 {
            let proof = PrmProof::<P>::new(&mut rng(), &secret, &setup, &aux);
            assert!(proof.verify(&setup, &aux));
        }
    }
}'''),
 dict(id="c11-fac-z2-range", property="C11", needs="a factor proof whose second response is out of range",
  breaks="the range of the second response of the factor proof is not enforced",
  edits=[("src/zk/fac.rs", '''        if !self
            .z2
            .is_in_exponent_range(''', '''        if !self
            .z1
            .is_in_exponent_range(''')],
  demo=PRE + '''pub fn run() {
    // a prover whose second mask is the largest allowed
    struct R(rand_chacha::ChaCha12Rng, usize, usize);
    impl rand_core::RngCore for R {
        fn next_u32(&mut self) -> u32 { let mut b = [0u8; 4]; self.fill_bytes(&mut b); u32::from_le_bytes(b) }
        fn next_u64(&mut self) -> u64 { let mut b = [0u8; 8]; self.fill_bytes(&mut b); u64::from_le_bytes(b) }
        fn fill_bytes(&mut self, d: &mut [u8]) {
            self.0.fill_bytes(d);
            if self.1 >= self.2 && self.1 < self.2 + 40 { d.fill(0); }
            self.1 += d.len();
        }
        fn try_fill_bytes(&mut self, d: &mut [u8]) -> Result<(), rand_core::Error> { self.fill_bytes(d); Ok(()) }
    }
    impl rand_core::CryptoRng for R {}
    let s = sk(); let setup = RPParams::<PP>::random(&mut rng());
    let aux: &[u8] = b"x";
    let bound = P::L_BOUND + P::EPS_BOUND + PP::PRIME_BITS - 2;
    let mut seen = 0;
    for seed in 0..40 { for at in (0..200).step_by(8) {
        let mut g = R(rand_chacha::ChaCha12Rng::seed_from_u64(seed), 0, at);
        let p = FacProof::<P>::new(&mut g, &s, &setup, &aux);
        let j = serde_json::to_value(&p).unwrap();
        let z: PublicSigned<W> = serde_json::from_value(j["z2"].clone()).unwrap();
        if !z.is_in_exponent_range(bound) {
            seen += 1;
            assert!(!p.verify(s.public_key(), &setup, &aux));
        }
    } }
    std::println!("{} out of range", seen);
}'''),
]
