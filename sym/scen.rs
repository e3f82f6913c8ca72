//! Scenarios: each calls functions of the crate on tracked values and logs what came out.
use std::{boxed::Box, format, string::{String, ToString}, vec, vec::Vec, println};
use crypto_bigint::modular::Retrieve;
use crypto_bigint::{Integer, Monty, NonZero};
use rand_chacha::ChaCha8Rng;
use rand_core::SeedableRng;
use serde::de::DeserializeOwned;
use serde::Serialize;
use serde_json::{json, Value};
use std::panic::{catch_unwind, AssertUnwindSafe};

use super::crv::{SA, SPt, SS};
use super::int::{pad, SM, SU};
use super::par::{SymPaillier as PP, SymParams as P};
use super::rec;
use crate::curve::{Point, Scalar};
use crate::paillier::*;
use crate::tools::Secret;
use crate::uint::*;

pub type U = SU<8>;
pub type W = SU<16>;
pub type X = SU<20>;

pub struct Ctx {
    pub a: Value,
    pub rng: ChaCha8Rng,
}

pub fn de<T: DeserializeOwned>(v: &Value) -> T {
    serde_json::from_value(v.clone()).unwrap_or_else(|e| panic!("SCENARIO-INPUT {e} in {v}"))
}
/// Deserialization whose failure is an observable outcome.
pub fn try_de<T: DeserializeOwned>(what: &str, v: &Value) -> Option<T> {
    match serde_json::from_value(v.clone()) {
        Ok(x) => Some(x),
        Err(_) => {
            rec::line(format!("O de:{what} 0 err"));
            None
        }
    }
}

// ---- outputs
pub fn out_u<const L: usize>(name: &str, x: &SU<L>) {
    rec::line(format!("O {name} {}", x.node()));
}
pub fn out_m<const L: usize>(name: &str, x: &SM<L>) {
    rec::line(format!("O {name} {}", x.node()));
}
pub fn out_b(name: &str, x: bool) {
    rec::line(format!("O {name} 0 {}", x as u8));
}
pub fn out_s(name: &str, x: &Scalar<P>) {
    rec::line(format!("O {name} {}", x.to_backend().node()));
}
pub fn out_p(name: &str, x: &Point<P>) {
    rec::line(format!("O {name} {}", x.to_backend().node()));
}
pub fn out_ps<const L: usize>(name: &str, x: &PublicSigned<SU<L>>) {
    rec::line(format!("O {name} {} {}", x.value().node(), x.bound()));
}
pub fn out_ss<const L: usize>(name: &str, x: &SecretSigned<SU<L>>) {
    out_ps(name, &x.to_public())
}
/// Logs every field of a serialized object, by its wire form.
pub fn out_wire<T: Serialize>(name: &str, x: &T) -> Value {
    let v = serde_json::to_value(x).unwrap();
    walk(name, &v);
    v
}
fn walk(name: &str, v: &Value) {
    match v {
        Value::Object(m) => m.iter().for_each(|(k, x)| walk(&format!("{name}.{k}"), x)),
        Value::Array(m) => m.iter().enumerate().for_each(|(i, x)| walk(&format!("{name}.{i}"), x)),
        Value::String(s) => {
            let h = s.strip_prefix("0x").unwrap_or(s);
            let ok = h.len() % 2 == 0 && h.bytes().all(|b| b.is_ascii_hexdigit());
            let id = if ok { super::par::known(&rec::unhex(h)) } else { None };
            rec::line(format!("O {name} {} {}", id.unwrap_or("0".into()).trim_start_matches(['#', '@']), s))
        }
        Value::Null => rec::line(format!("O {name} 0 null")),
        other => rec::line(format!("O {name} 0 {other}")),
    }
}

impl Ctx {
    pub fn g(&self, k: &str) -> &Value {
        self.a.get(k).unwrap_or_else(|| panic!("SCENARIO-INPUT missing {k}"))
    }
    pub fn has(&self, k: &str) -> bool {
        self.a.get(k).is_some()
    }
    pub fn n(&self, k: &str) -> u32 {
        self.g(k).as_u64().unwrap() as u32
    }
    pub fn d<T: DeserializeOwned>(&self, k: &str) -> T {
        de(self.g(k))
    }
    pub fn u<const L: usize>(&self, k: &str) -> SU<L> {
        SU::of_bytes(pad(&rec::unhex(self.g(k).as_str().unwrap())))
    }
    pub fn ps<const L: usize>(&self, k: &str) -> PublicSigned<SU<L>> {
        de(self.g(k))
    }
    pub fn ss<const L: usize>(&self, k: &str) -> SecretSigned<SU<L>> {
        secret(&self.ps(k))
    }
    pub fn su<const L: usize>(&self, k: &str, bound: u32) -> SecretUnsigned<SU<L>> {
        let x = self.u(k);
        Option::from(SecretUnsigned::new(Secret::init_with(|| x), bound)).expect("SCENARIO-INPUT")
    }
    pub fn sk(&self, k: &str) -> SecretKeyPaillier<PP> {
        de::<SecretKeyPaillierWire<PP>>(self.g(k)).into_precomputed()
    }
    pub fn pk(&self, k: &str) -> PublicKeyPaillier<PP> {
        de::<PublicKeyPaillierWire<PP>>(self.g(k)).into_precomputed()
    }
    pub fn rp(&self, k: &str) -> RPParams<PP> {
        de::<RPParamsWire<PP>>(self.g(k)).to_precomputed()
    }
    /// The randomizer `k`: draws are forced, so this is the named input.
    pub fn rnd(&mut self, k: &str, pk: &PublicKeyPaillier<PP>) -> Randomizer<PP> {
        let v = rec::unhex(self.g(k).as_str().unwrap());
        rec::with(|r| {
            let n = format!("rand{}", r.draws);
            r.inputs.insert(n, v);
        });
        Randomizer::random(&mut self.rng, pk)
    }
}
pub fn secret<const L: usize>(p: &PublicSigned<SU<L>>) -> SecretSigned<SU<L>> {
    let abs = p.abs();
    let s: SecretSigned<SU<L>> =
        Option::from(SecretSigned::new_positive(Secret::init_with(|| abs), p.bound())).expect("SCENARIO-INPUT bound");
    if p.is_negative() { -s } else { s }
}

pub type Scen = fn(&mut Ctx);

// ---------------------------------------------------------------- C04 conversions
fn conv(c: &mut Ctx) {
    use crate::params::*;
    if c.has("s") {
        let s: Scalar<P> = c.d("s");
        let ps = public_signed_from_scalar::<P>(&s);
        out_ps("public_signed_from_scalar", &ps);
        out_s("ps_round", &scalar_from_signed::<P>(&ps));
        let sec = Secret::init_with(|| s);
        let ss = secret_signed_from_scalar::<P>(&sec);
        out_ss("secret_signed_from_scalar", &ss);
        out_s("ss_round", secret_scalar_from_signed::<P>(&ss).expose_secret());
    }
    if c.has("x") {
        let x: PublicSigned<U> = c.ps("x");
        out_s("scalar_from_signed", &scalar_from_signed::<P>(&x));
        out_s("secret_scalar_from_signed", secret_scalar_from_signed::<P>(&secret(&x)).expose_secret());
    }
    if c.has("y") {
        let y: PublicSigned<W> = c.ps("y");
        out_s("scalar_from_wide_signed", &scalar_from_wide_signed::<P>(&y));
        out_s("secret_scalar_from_wide_signed", secret_scalar_from_wide_signed::<P>(&secret(&y)).expose_secret());
    }
}

fn ct(name: &str, c: &Ciphertext<PP>) -> CiphertextWire<PP> {
    let w = c.to_wire();
    out_wire(name, &w);
    w
}

// ---------------------------------------------------------------- C06, C07 Paillier
fn decrypt(c: &mut Ctx) {
    let sk = c.sk("sk");
    let pk = sk.public_key().clone();
    let m: PublicSigned<U> = c.ps("m");
    let rho = c.rnd("rho", &pk);
    let ciph = Ciphertext::new_with_randomizer(&pk, &secret(&m), &rho);
    ct("c", &ciph);
    if c.has("wide") {
        let mw: PublicSigned<W> = c.ps("wide");
        let e2 = Ciphertext::new_wide_with_randomizer(&pk, &secret(&mw), &rho);
        out_ss("dec_wide", &e2.decrypt(&sk));
    }
    out_ss("dec", &ciph.decrypt(&sk));
    let r = ciph.derive_randomizer(&sk);
    let one = PublicSigned::<U>::one();
    let zero = PublicSigned::<U>::zero();
    out_wire("rho", &r.to_masked(&r, &zero));
    let again = Ciphertext::new_with_randomizer(&pk, &secret(&m), &r);
    ct("again", &again);
    out_b("again_eq", again == ciph);
}
fn encrypt(c: &mut Ctx) {
    let pk = c.pk("pk");
    let m: PublicSigned<U> = c.ps("m");
    let rho = c.rnd("rho", &pk);
    let masked: MaskedRandomizer<PP> = de(&json!(c.g("masked")));
    ct("secret", &Ciphertext::new_with_randomizer(&pk, &secret(&m), &rho));
    ct("wide", &Ciphertext::new_wide_with_randomizer(&pk, &secret(&m.to_wide()), &rho));
    ct("public", &Ciphertext::new_public_with_randomizer(&pk, &m, &masked));
    ct("public_wide", &Ciphertext::new_public_wide_with_randomizer(&pk, &m.to_wide(), &masked));
    let mw: PublicSigned<W> = c.ps("mw");
    ct("wide2", &Ciphertext::new_wide_with_randomizer(&pk, &secret(&mw), &rho));
    ct("public_wide2", &Ciphertext::new_public_wide_with_randomizer(&pk, &mw, &masked));
}
fn homo(c: &mut Ctx) {
    let pk = c.pk("pk");
    let (m1, m2): (PublicSigned<U>, PublicSigned<U>) = (c.ps("m1"), c.ps("m2"));
    let r1 = c.rnd("r1", &pk);
    let r2 = c.rnd("r2", &pk);
    let k: PublicSigned<U> = c.ps("k");
    let c1 = Ciphertext::new_with_randomizer(&pk, &secret(&m1), &r1);
    let c2 = Ciphertext::new_with_randomizer(&pk, &secret(&m2), &r2);
    ct("add", &(c1.clone() + c2.clone()));
    ct("add_owned_ref", &(c1.clone() + &c2));
    ct("add_ref", &(&c1 + &c2));
    ct("sub", &(c1.clone() - &c2));
    ct("mul_public", &(c1.clone() * &k));
    ct("mul_public_ref", &(&c1 * &k));
    ct("mul_secret", &(c1.clone() * &secret(&k)));
    ct("mul_secret_ref", &(&c1 * &secret(&k)));
    let kw: PublicSigned<W> = c.ps("kw");
    ct("mul_wide", &(&c1 * &kw));
    ct("mul_wide_secret", &(&c1 * &secret(&kw)));
    let e: PublicSigned<U> = c.ps("e");
    out_wire("masked", &r1.to_masked(&r2, &e));
    let w = c1.to_wire();
    let back = w.to_precomputed(&pk);
    out_b("wire_eq", back == c1);
    out_b("same_pk", back.public_key() == &pk);
    ct("wire", &back);
    let again: CiphertextWire<PP> = de(&serde_json::to_value(&w).unwrap());
    ct("wire2", &again.to_precomputed(&pk));
}
fn homo_two_keys(c: &mut Ctx) {
    let pk = c.pk("pk");
    let pk2 = c.pk("pk2");
    let c1: CiphertextWire<PP> = de(&json!({"ciphertext": c.g("c1"), "phantom": null}));
    let c2: CiphertextWire<PP> = de(&json!({"ciphertext": c.g("c2"), "phantom": null}));
    let (c1, c2) = (c1.to_precomputed(&pk), c2.to_precomputed(&pk2));
    out_b("keys_eq", pk == pk2);
    let r = match c.g("op").as_str().unwrap() {
        "add" => c1 + c2,
        "add_ref" => &c1 + &c2,
        "add_owned_ref" => c1 + &c2,
        _ => c1 - &c2,
    };
    ct("res", &r);
}
fn decrypt_other_key(c: &mut Ctx) {
    let sk = c.sk("sk");
    let pk2 = c.pk("pk2");
    let c1: CiphertextWire<PP> = de(&json!({"ciphertext": c.g("c1"), "phantom": null}));
    let c1 = c1.to_precomputed(&pk2);
    if c.g("op") == "decrypt" {
        out_ss("res", &c1.decrypt(&sk));
    } else {
        let r = c1.derive_randomizer(&sk);
        out_wire("res", &r.to_masked(&r, &PublicSigned::<U>::zero()));
    }
}

// ---------------------------------------------------------------- C08 keys
fn keys(c: &mut Ctx) {
    let sk = c.sk("sk");
    let pk = sk.public_key().clone();
    out_u("modulus", pk.modulus());
    out_ss("p", &sk.p_signed());
    out_ss("q", &sk.q_signed());
    out_u("totient", sk.totient_wide_unsigned().expose_secret());
    out_m("inv_totient", sk.inv_totient().expose_secret());
    out_u("inv_modulus", sk.inv_modulus().expose_secret());
    out_ps("modulus_signed", &pk.modulus_signed());
    out_u("modulus_nonzero", pk.modulus_nonzero().as_ref());
    out_u("modulus_wide", pk.modulus_wide_nonzero().as_ref());
    out_m("n_mod_n2", pk.modulus_mod_modulus_squared());
    out_u("wire_modulus", pk.as_wire().modulus());
    let w: SecretKeyPaillierWire<PP> = de(c.g("sk"));
    out_u("wire_public", w.public_key().modulus());
    let back = sk.clone().into_wire();
    out_wire("wire_secret", &back);
    let pk2 = w.public_key().into_precomputed();
    out_b("pk_eq", pk2 == pk);
    out_u("pk_into_wire", pk.clone().into_wire().modulus());
}
fn rns(c: &mut Ctx) {
    let sk = c.sk("sk");
    let x: U = c.u("x");
    let (a, b) = sk.rns_split(&x);
    out_m("a", &a);
    out_m("b", &b);
    out_u("join", &sk.rns_join(&(a, b)));
    match sk.rns_sqrt(&(a, b)) {
        Some((s, t)) => {
            out_b("sqrt", true);
            out_m("sa", &s);
            out_m("sb", &t);
            out_u("sqrt_join", &sk.rns_join(&(s, t)));
        }
        None => out_b("sqrt", false),
    }
}
/// The square root of a square: `y` is squared modulo N first.
fn rns_square(c: &mut Ctx) {
    let sk = c.sk("sk");
    let y: U = c.u("y");
    let x = y.to_montgomery(sk.public_key().monty_params_mod_n());
    let x = crypto_bigint::Square::square(&x).retrieve();
    let ab = sk.rns_split(&x);
    out_m("a", &ab.0);
    out_m("b", &ab.1);
    let r = sk.rns_sqrt(&ab);
    out_b("sqrt", r.is_some());
    if let Some((s, t)) = r {
        out_m("sa", &s);
        out_m("sb", &t);
    }
}
#[cfg(synedrion_verif_hooks)]
pub fn rp_secret(c: &mut Ctx) -> RPSecret<PP> {
    let w: Value = c.g("sk")["primes"].clone();
    RPSecret::verif_new(de(&w), c.su("lambda", 510))
}
#[cfg(synedrion_verif_hooks)]
fn setup_from_secret(c: &mut Ctx) {
    let secret = rp_secret(c);
    let rp = RPParams::random_with_secret(&mut c.rng, &secret);
    out_u("modulus", rp.modulus());
    out_m("s", rp.base_value());
    out_m("t", rp.base_randomizer());
    out_u("secret_modulus", &secret.modulus());
    out_u("totient", secret.totient_nonzero().expose_secret().as_ref());
    out_u("lambda", secret.lambda().expose_secret());
    let r = secret.random_residue_mod_totient(&mut c.rng);
    out_u("residue", r.expose_secret());
    out_wire("rp", &rp.to_wire());
}
fn xof_residue(c: &mut Ctx) {
    let pk = c.pk("pk");
    let mut rd = digest::ExtendableOutput::finalize_xof(super::par::Oracle::default());
    let r = pk.invertible_residue_from_xof_reader(&mut rd);
    out_u("r", &r);
}
fn xof_scalar(c: &mut Ctx) {
    let mut rd = digest::ExtendableOutput::finalize_xof(super::par::Oracle::default());
    let r = Scalar::<P>::from_xof_reader(&mut rd);
    out_s("r", &r);
    let mut bytes = [0u8; 1];
    digest::XofReader::read(&mut rd, &mut bytes);
    rec::line(format!("O next 0 {}", bytes[0]));
    let _ = c;
}
fn nonsquare(c: &mut Ctx) {
    let sk = c.sk("sk");
    let w = sk.random_nonsquare_residue(&mut c.rng);
    out_u("w", &w);
    let r = sk.public_key().random_invertible_residue(&mut c.rng);
    out_u("r", &r);
}

// ---------------------------------------------------------------- C09 ring-Pedersen
fn pedersen(c: &mut Ctx) {
    let rp = c.rp("rp");
    let (a, b): (PublicSigned<U>, PublicSigned<U>) = (c.ps("a"), c.ps("b"));
    let (aw, bw): (PublicSigned<W>, PublicSigned<W>) = (c.ps("aw"), c.ps("bw"));
    let bx: PublicSigned<X> = c.ps("bx");
    let au: SecretUnsigned<U> = c.su("au", 510);
    let e: PublicSigned<U> = c.ps("e");
    out_wire("commit_pub", &rp.commit(&a, &b).to_wire());
    out_wire("commit_sec", &rp.commit(&secret(&a), &secret(&b)).to_wire());
    out_wire("commit_wide", &rp.commit(&aw, &bw).to_wire());
    out_wire("commit_wide_sec", &rp.commit(&secret(&aw), &secret(&bw)).to_wire());
    out_wire("commit_mixed", &rp.commit(&secret(&a), &secret(&bw)).to_wire());
    out_wire("commit_extra", &rp.commit(&secret(&a), &bx).to_wire());
    out_wire("commit_extra_sec", &rp.commit(&secret(&aw), &secret(&bx)).to_wire());
    out_wire("commit_unsigned", &rp.commit(&au, &b).to_wire());
    out_wire("zero_value", &rp.commit_zero_value(&secret(&b)).to_wire());
    out_wire("zero_value_pub", &rp.commit_zero_value(&bw).to_wire());
    out_wire("zero_randomizer", &rp.commit_zero_randomizer(&secret(&a)).to_wire());
    out_wire("zero_randomizer_pub", &rp.commit_zero_randomizer(&aw).to_wire());
    let c1 = rp.commit(&secret(&a), &secret(&b));
    let c2 = rp.commit(&aw, &bw);
    out_wire("mul", &(&c1 * &c2).to_wire());
    out_wire("pow", &c1.pow(&e).to_wire());
    out_wire("pow_sec", &c1.pow(&secret(&e)).to_wire());
    let w = c1.to_wire();
    let back = w.to_precomputed(&rp);
    out_b("wire_eq", back == c1);
    let w2: RPCommitmentWire<PP> = de(&serde_json::to_value(&w).unwrap());
    out_b("wire2_eq", w2.to_precomputed(&rp) == c1);
    let rw = rp.to_wire();
    let v = out_wire("rp", &rw);
    let rp2 = de::<RPParamsWire<PP>>(&v).to_precomputed();
    out_wire("commit2", &rp2.commit(&a, &b).to_wire());
    out_u("modulus", rp2.modulus());
    out_u("modulus_wire", rw.modulus());
    out_m("s", rp2.base_value());
    out_m("t", rp2.base_randomizer());
}

pub fn scenarios() -> Vec<(&'static str, Scen)> {
    vec![
        ("conv", conv as Scen),
        ("decrypt", decrypt),
        ("encrypt", encrypt),
        ("homo", homo),
        ("homo_two_keys", homo_two_keys),
        ("decrypt_other_key", decrypt_other_key),
        ("keys", keys),
        ("rns", rns),
        ("nonsquare", nonsquare),
        ("rns_square", rns_square),
        ("xof_residue", xof_residue),
        ("xof_scalar", xof_scalar),
        #[cfg(synedrion_verif_hooks)]
        ("setup_from_secret", setup_from_secret),
        ("pedersen", pedersen),
    ]
}

/// Reads one request per line, answers with the log.
pub fn main() {
    use std::io::{BufRead, Write};
    static LOC: std::sync::Mutex<String> = std::sync::Mutex::new(String::new());
    std::panic::set_hook(Box::new(|i| {
        let l = i.location().map(|l| format!("{}:{}", l.file().rsplit("/src/").next().unwrap(), l.line())).unwrap_or_default();
        let m = i.payload().downcast_ref::<String>().cloned().or(i.payload().downcast_ref::<&str>().map(|s| s.to_string()));
        *LOC.lock().unwrap() = format!("{l} {}", m.unwrap_or_default().replace('\n', " "));
    }));
    let mut table = scenarios();
    table.extend(super::extra());
    let stdin = std::io::stdin();
    let mut so = std::io::BufWriter::new(std::io::stdout());
    for line in stdin.lock().lines() {
        let req: Value = match serde_json::from_str(&line.unwrap()) {
            Ok(x) => x,
            Err(_) => break,
        };
        rec::reset();
        for v in req["vars"].as_array().unwrap() {
            let (name, kind, val) = (v[0].as_str().unwrap(), v[1].as_str().unwrap(), rec::unhex(v[2].as_str().unwrap()));
            let id = rec::node("var", kind, &[], &val, name);
            match kind {
                "p" => rec::with(|r| {
                    r.pts.insert(val, id);
                }),
                "s" => rec::register(&val, id, "s"),
                _ => rec::register(&val, id, "u"),
            }
        }
        if let Some(m) = req["inputs"].as_object() {
            for (k, v) in m {
                rec::with(|r| r.inputs.insert(k.clone(), rec::unhex(v.as_str().unwrap())));
            }
        }
        if let Some(m) = req["oracle"].as_array() {
            for v in m {
                let s = v.as_str().unwrap();
                let b = (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect();
                rec::with(|r| r.oracle.push_back(b));
            }
        }
        let name = req["scenario"].as_str().unwrap();
        let f = table.iter().find(|x| x.0 == name).map(|x| x.1).unwrap_or(|_| panic!("NO-SCENARIO"));
        let mut c = Ctx { a: req["args"].clone(), rng: ChaCha8Rng::seed_from_u64(req["seed"].as_u64().unwrap_or(1)) };
        let r = catch_unwind(AssertUnwindSafe(|| f(&mut c)));
        rec::with(|r| r.quiet = 0);
        let r = if rec::with(|r| r.log.len() >= 40_000) {
            rec::with(|r| r.log.clear());
            Err(std::boxed::Box::new(()) as std::boxed::Box<dyn std::any::Any + Send>)
        } else {
            r
        };
        for l in rec::with(|r| core::mem::take(&mut r.log)) {
            writeln!(so, "{l}").unwrap();
        }
        match r {
            Ok(()) => writeln!(so, "END ok").unwrap(),
            Err(_) => writeln!(so, "END panic {}", LOC.lock().unwrap()).unwrap(),
        }
        so.flush().unwrap();
    }
}
