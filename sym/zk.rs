//! Scenarios of the nine zero-knowledge proofs: creation from a witness, and verification of arbitrary proofs.
use std::{boxed::Box, format, string::{String, ToString}, vec, vec::Vec};
use serde::de::DeserializeOwned;
use serde::Serialize;
use serde_json::{json, Value};

use super::par::{SymPaillier as PP, SymParams as P};
use super::rec;
use super::scen::*;
use crate::curve::{Point, Scalar};
use crate::paillier::*;
use crate::tools::Secret;
use crate::uint::*;
use crate::zk::*;

/// The context of a proof: bytes, and possibly tracked numbers.
struct Aux(Vec<u8>, Vec<PublicUint<super::int::SU<4>>>);
impl Serialize for Aux {
    fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        if self.1.is_empty() { self.0.serialize(s) } else { (&self.0, &self.1).serialize(s) }
    }
}
fn aux(c: &Ctx) -> Aux {
    let b = rec::unhex(c.g("aux").as_str().unwrap());
    let n = if c.has("auxn") { c.d("auxn") } else { Vec::new() };
    Aux(b, n)
}
/// The proof as parsed from the request, `None` if it is refused there.
fn proof<T: DeserializeOwned>(c: &Ctx) -> Option<T> {
    try_de("proof", c.g("proof"))
}
/// The proof as it arrives over the wire.
fn sent<T: Serialize + DeserializeOwned>(p: &T) -> T {
    de(&out_wire("proof", p))
}
fn ciph(c: &Ctx, k: &str, pk: &PublicKeyPaillier<PP>) -> Ciphertext<PP> {
    let w: CiphertextWire<PP> = de(&json!({"ciphertext": c.g(k), "phantom": null}));
    w.to_precomputed(pk)
}
fn sec(c: &Ctx, k: &str) -> Secret<Scalar<P>> {
    let s: Scalar<P> = c.d(k);
    Secret::init_with(|| s)
}
fn pt(c: &Ctx, k: &str) -> Point<P> {
    c.d(k)
}
fn show_c(name: &str, x: &Ciphertext<PP>) {
    out_wire(name, &x.to_wire());
}
fn two_keys(c: &Ctx) -> (PublicKeyPaillier<PP>, PublicKeyPaillier<PP>) {
    (c.pk("pk0"), c.pk("pk1"))
}

// ---------------------------------------------------------------- sch
fn sch_new(c: &mut Ctx) {
    let x = sec(c, "x");
    let cap_x = x.mul_by_generator();
    let s = SchSecret::<P>::random(&mut c.rng);
    let com = SchCommitment::new(&s);
    let aux = aux(c);
    out_p("cap_x", &cap_x);
    out_wire("com", &com);
    let p = SchProof::new(&s, &x, &com, &cap_x, &aux);
    out_b("ok_direct", p.verify(&com, &cap_x, &aux));
    let p: SchProof<P> = sent(&p);
    let com: SchCommitment<P> = de(&serde_json::to_value(&com).unwrap());
    out_b("ok", p.verify(&com, &cap_x, &aux));
}
fn sch_verify(c: &mut Ctx) {
    let Some(p) = proof::<SchProof<P>>(c) else { return };
    let Some(com) = try_de::<SchCommitment<P>>("com", c.g("cap_a")) else { return };
    out_b("ok", p.verify(&com, &pt(c, "cap_x"), &aux(c)));
}

// ---------------------------------------------------------------- elog
fn elog_new(c: &mut Ctx) {
    let (y, lambda) = (sec(c, "y"), sec(c, "lambda"));
    let (cap_x, h) = (pt(c, "cap_x"), pt(c, "h"));
    let cap_l = lambda.mul_by_generator();
    let cap_m = y.mul_by_generator() + cap_x * &lambda;
    let cap_y = h * &y;
    let public = ElogPublicInputs { cap_l: &cap_l, cap_m: &cap_m, cap_x: &cap_x, cap_y: &cap_y, h: &h };
    let aux = aux(c);
    let p = ElogProof::<P>::new(&mut c.rng, ElogSecretInputs { y: &y, lambda: &lambda }, public, &aux);
    out_b("ok_direct", p.verify(public, &aux));
    out_b("ok", sent(&p).verify(public, &aux));
}
fn elog_verify(c: &mut Ctx) {
    let Some(p) = proof::<ElogProof<P>>(c) else { return };
    let (l, m, x, y, h) = (pt(c, "cap_l"), pt(c, "cap_m"), pt(c, "cap_x"), pt(c, "cap_y"), pt(c, "h"));
    let public = ElogPublicInputs { cap_l: &l, cap_m: &m, cap_x: &x, cap_y: &y, h: &h };
    out_b("ok", p.verify(public, &aux(c)));
}

// ---------------------------------------------------------------- enc_elg
fn enc_elg_new(c: &mut Ctx) {
    let (pk0, rp) = (c.pk("pk0"), c.rp("rp"));
    let x: SecretSigned<U> = c.ss("x");
    let b = sec(c, "b");
    let rho = c.rnd("rho", &pk0);
    let cap_c = Ciphertext::new_with_randomizer(&pk0, &x, &rho);
    let cap_a = pt(c, "cap_a");
    let cap_b = b.mul_by_generator();
    let cap_x = cap_a * &b + crate::params::secret_scalar_from_signed::<P>(&x).mul_by_generator();
    let public = EncElgPublicInputs { pk0: &pk0, cap_c: &cap_c, cap_a: &cap_a, cap_b: &cap_b, cap_x: &cap_x };
    let aux = aux(c);
    let p = EncElgProof::<P>::new(&mut c.rng, EncElgSecretInputs { x: &x, rho: &rho, b: &b }, public, &rp, &aux);
    out_b("ok_direct", p.verify(public, &rp, &aux));
    out_b("ok", sent(&p).verify(public, &rp, &aux));
}
fn enc_elg_verify(c: &mut Ctx) {
    let Some(p) = proof::<EncElgProof<P>>(c) else { return };
    let (pk0, rp) = (c.pk("pk0"), c.rp("rp"));
    let cap_c = ciph(c, "cap_c", &pk0);
    let (a, b, x) = (pt(c, "cap_a"), pt(c, "cap_b"), pt(c, "cap_x"));
    let public = EncElgPublicInputs { pk0: &pk0, cap_c: &cap_c, cap_a: &a, cap_b: &b, cap_x: &x };
    out_b("ok", p.verify(public, &rp, &aux(c)));
}

// ---------------------------------------------------------------- aff_g
fn aff_g_new(c: &mut Ctx) {
    let ((pk0, pk1), rp) = (two_keys(c), c.rp("rp"));
    let (x, y): (SecretSigned<U>, SecretSigned<U>) = (c.ss("x"), c.ss("y"));
    let rho = c.rnd("rho", &pk0);
    let rho_y = c.rnd("rho_y", &pk1);
    let cap_c = ciph(c, "cap_c", &pk0);
    let cap_d = &cap_c * &x + Ciphertext::new_with_randomizer(&pk0, &-&y, &rho);
    let cap_y = Ciphertext::new_with_randomizer(&pk1, &y, &rho_y);
    let cap_x = crate::params::secret_scalar_from_signed::<P>(&x).mul_by_generator();
    let public =
        AffGPublicInputs { pk0: &pk0, pk1: &pk1, cap_c: &cap_c, cap_d: &cap_d, cap_y: &cap_y, cap_x: &cap_x };
    let aux = aux(c);
    let p = AffGProof::<P>::new(&mut c.rng, AffGSecretInputs { x: &x, y: &y, rho: &rho, rho_y: &rho_y }, public, &rp, &aux);
    out_b("ok_direct", p.verify(public, &rp, &aux));
    out_b("ok", sent(&p).verify(public, &rp, &aux));
}
fn aff_g_verify(c: &mut Ctx) {
    let Some(p) = proof::<AffGProof<P>>(c) else { return };
    let ((pk0, pk1), rp) = (two_keys(c), c.rp("rp"));
    let (cc, d, y, x) = (ciph(c, "cap_c", &pk0), ciph(c, "cap_d", &pk0), ciph(c, "cap_y", &pk1), pt(c, "cap_x"));
    let public = AffGPublicInputs { pk0: &pk0, pk1: &pk1, cap_c: &cc, cap_d: &d, cap_y: &y, cap_x: &x };
    out_b("ok", p.verify(public, &rp, &aux(c)));
}

// ---------------------------------------------------------------- aff_g_star
fn aff_g_star_new(c: &mut Ctx) {
    let (pk0, pk1) = two_keys(c);
    let (x, y): (SecretSigned<U>, SecretSigned<U>) = (c.ss("x"), c.ss("y"));
    let rho = c.rnd("rho", &pk0);
    let mu = c.rnd("mu", &pk1);
    let cap_c = ciph(c, "cap_c", &pk0);
    let cap_d = &cap_c * &x + Ciphertext::new_with_randomizer(&pk0, &-&y, &rho);
    let cap_y = Ciphertext::new_with_randomizer(&pk1, &y, &mu);
    let cap_x = crate::params::secret_scalar_from_signed::<P>(&x).mul_by_generator();
    let public =
        AffGStarPublicInputs { pk0: &pk0, pk1: &pk1, cap_c: &cap_c, cap_d: &cap_d, cap_y: &cap_y, cap_x: &cap_x };
    let aux = aux(c);
    let p = AffGStarProof::<P>::new(&mut c.rng, AffGStarSecretInputs { x: &x, y: &y, rho: &rho, mu: &mu }, public, &aux);
    out_b("ok_direct", p.verify(public, &aux));
    out_b("ok", sent(&p).verify(public, &aux));
}
fn aff_g_star_verify(c: &mut Ctx) {
    let Some(p) = proof::<AffGStarProof<P>>(c) else { return };
    let (pk0, pk1) = two_keys(c);
    let (cc, d, y, x) = (ciph(c, "cap_c", &pk0), ciph(c, "cap_d", &pk0), ciph(c, "cap_y", &pk1), pt(c, "cap_x"));
    let public = AffGStarPublicInputs { pk0: &pk0, pk1: &pk1, cap_c: &cc, cap_d: &d, cap_y: &y, cap_x: &x };
    out_b("ok", p.verify(public, &aux(c)));
}

// ---------------------------------------------------------------- dec
fn dec_new(c: &mut Ctx) {
    let (pk0, rp) = (c.pk("pk0"), c.rp("rp"));
    let (x, y): (SecretSigned<U>, SecretSigned<U>) = (c.ss("x"), c.ss("y"));
    let rho = c.rnd("rho", &pk0);
    let cap_k = ciph(c, "cap_k", &pk0);
    let cap_g = pt(c, "cap_g");
    let cap_x = crate::params::secret_scalar_from_signed::<P>(&x).mul_by_generator();
    let cap_d = Ciphertext::new_with_randomizer(&pk0, &y, &rho) + &cap_k * &-&x;
    let cap_s = cap_g * crate::params::secret_scalar_from_signed::<P>(&y);
    let public = DecPublicInputs {
        pk0: &pk0, cap_k: &cap_k, cap_x: &cap_x, cap_d: &cap_d, cap_s: &cap_s, cap_g: &cap_g,
        num_parties: c.n("num_parties") as usize,
    };
    let aux = aux(c);
    let p = DecProof::<P>::new(&mut c.rng, DecSecretInputs { x: &x, y: &y, rho: &rho }, public, &rp, &aux);
    out_b("ok_direct", p.verify(public, &rp, &aux));
    out_b("ok", sent(&p).verify(public, &rp, &aux));
}
fn dec_verify(c: &mut Ctx) {
    let Some(p) = proof::<DecProof<P>>(c) else { return };
    let (pk0, rp) = (c.pk("pk0"), c.rp("rp"));
    let (k, d) = (ciph(c, "cap_k", &pk0), ciph(c, "cap_d", &pk0));
    let (x, s, g) = (pt(c, "cap_x"), pt(c, "cap_s"), pt(c, "cap_g"));
    let public = DecPublicInputs {
        pk0: &pk0, cap_k: &k, cap_x: &x, cap_d: &d, cap_s: &s, cap_g: &g, num_parties: c.n("num_parties") as usize,
    };
    out_b("ok", p.verify(public, &rp, &aux(c)));
}

// ---------------------------------------------------------------- fac
fn fac_new(c: &mut Ctx) {
    let (sk, rp) = (c.sk("sk"), c.rp("rp"));
    let aux = aux(c);
    let p = FacProof::<P>::new(&mut c.rng, &sk, &rp, &aux);
    let pk = sk.public_key();
    out_b("ok_direct", p.verify(pk, &rp, &aux));
    out_b("ok", sent(&p).verify(pk, &rp, &aux));
}
fn fac_verify(c: &mut Ctx) {
    let Some(p) = proof::<FacProof<P>>(c) else { return };
    out_b("ok", p.verify(&c.pk("pk0"), &c.rp("rp"), &aux(c)));
}

// ---------------------------------------------------------------- mod
fn mod_new(c: &mut Ctx) {
    let sk = c.sk("sk");
    let aux = aux(c);
    let p = ModProof::<P>::new(&mut c.rng, &sk, &aux);
    let pk = sk.public_key();
    out_b("ok_direct", p.verify(pk, &aux));
    out_b("ok", sent(&p).verify(pk, &aux));
}
fn mod_verify(c: &mut Ctx) {
    let Some(p) = proof::<ModProof<P>>(c) else { return };
    out_b("ok", p.verify(&c.pk("pk0"), &aux(c)));
}

// ---------------------------------------------------------------- prm
#[cfg(synedrion_verif_hooks)]
fn prm_new(c: &mut Ctx) {
    let secret = rp_secret(c);
    let rp = RPParams::random_with_secret(&mut c.rng, &secret);
    let aux = aux(c);
    let p = PrmProof::<P>::new(&mut c.rng, &secret, &rp, &aux);
    out_b("ok_direct", p.verify(&rp, &aux));
    out_b("ok", sent(&p).verify(&rp, &aux));
}
fn prm_verify(c: &mut Ctx) {
    let Some(p) = proof::<PrmProof<P>>(c) else { return };
    out_b("ok", p.verify(&c.rp("rp"), &aux(c)));
}

pub fn scenarios() -> Vec<(&'static str, Scen)> {
    vec![
        ("sch_new", sch_new as Scen),
        ("sch_verify", sch_verify),
        ("elog_new", elog_new),
        ("elog_verify", elog_verify),
        ("enc_elg_new", enc_elg_new),
        ("enc_elg_verify", enc_elg_verify),
        ("aff_g_new", aff_g_new),
        ("aff_g_verify", aff_g_verify),
        ("aff_g_star_new", aff_g_star_new),
        ("aff_g_star_verify", aff_g_star_verify),
        ("dec_new", dec_new),
        ("dec_verify", dec_verify),
        ("fac_new", fac_new),
        ("fac_verify", fac_verify),
        ("mod_new", mod_new),
        ("mod_verify", mod_verify),
        #[cfg(synedrion_verif_hooks)]
        ("prm_new", prm_new),
        ("prm_verify", prm_verify),
    ]
}
