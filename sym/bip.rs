//! BIP32 derivation over the tracked curve, with programmed tweaks.
use std::cell::RefCell;
use std::collections::VecDeque;
use std::{format, string::String, vec::Vec};
use bip32::{ChainCode, ChildNumber, DerivationPath, PrivateKeyBytes};
use digest::Digest;
use ecdsa::{hazmat::DigestPrimitive, SigningKey, VerifyingKey};
use elliptic_curve::group::Curve as _;
use elliptic_curve::sec1::ToEncodedPoint;
use elliptic_curve::{Field, Group, NonZeroScalar, PrimeField};

use super::crv::{SymCurve, SA, SPt, SS};
use super::rec;
use super::scen::*;
use crate::curve::{DeriveChildKey, Point, PublicTweakable, Scalar, SecretTweakable};

thread_local! { pub static STEP: std::cell::Cell<u32> = std::cell::Cell::new(0); }
thread_local! { pub static TWEAKS: RefCell<VecDeque<([u8; 32], [u8; 32])>> = RefCell::new(VecDeque::new()); }

#[derive(Clone)]
pub struct Pk(pub SPt);
#[derive(Clone)]
pub struct Sk(pub SS);

fn hexs(b: &[u8]) -> String {
    b.iter().map(|x| format!("{x:02x}")).collect()
}
fn scalar(t: &PrivateKeyBytes) -> Result<SS, bip32::Error> {
    let mut r = elliptic_curve::FieldBytes::<SymCurve>::default();
    let n = r.len();
    r.copy_from_slice(&t[32 - n..]);
    let s: Option<SS> = SS::from_repr(r).into();
    s.filter(|s| !bool::from(s.v.is_zero())).ok_or(bip32::Error::Crypto)
}
impl bip32::PublicKey for Pk {
    fn from_bytes(_b: [u8; 33]) -> Result<Self, bip32::Error> {
        Err(bip32::Error::Decode)
    }
    fn to_bytes(&self) -> [u8; 33] {
        let mut out = [0u8; 33];
        let e = self.0.to_encoded_point(true);
        let e = e.as_bytes();
        out[33 - e.len()..].copy_from_slice(e);
        out
    }
    fn derive_child(&self, t: PrivateKeyBytes) -> Result<Self, bip32::Error> {
        let s = scalar(&t)?;
        let r = self.0 + SPt::default_generator() * s;
        if bool::from(r.v.is_identity()) {
            return Err(bip32::Error::Crypto);
        }
        Ok(Self(r))
    }
    fn derive_tweak(&self, cc: &ChainCode, n: ChildNumber) -> Result<(PrivateKeyBytes, ChainCode), bip32::Error> {
        let i = STEP.with(|s| s.replace(s.get() + 1));
        rec::line(format!("O step{i} {} {}:{}", self.0.node(), hexs(cc), n.0));
        if n.is_hardened() {
            return Err(bip32::Error::ChildNumber);
        }
        Ok(TWEAKS.with(|t| t.borrow_mut().pop_front()).unwrap_or(([0; 32], [0; 32])))
    }
}
impl bip32::PrivateKey for Sk {
    type PublicKey = Pk;
    fn from_bytes(_b: &[u8; 32]) -> Result<Self, bip32::Error> {
        Err(bip32::Error::Decode)
    }
    fn to_bytes(&self) -> [u8; 32] {
        let mut out = [0u8; 32];
        out[8..].copy_from_slice(&self.0.to_repr());
        out
    }
    fn derive_child(&self, t: PrivateKeyBytes) -> Result<Self, bip32::Error> {
        let r = self.0 + scalar(&t)?;
        if bool::from(r.v.is_zero()) {
            return Err(bip32::Error::Crypto);
        }
        Ok(Self(r))
    }
    fn public_key(&self) -> Pk {
        Pk(SPt::default_generator() * self.0)
    }
}
impl PublicTweakable for VerifyingKey<SymCurve> {
    type Bip32Pk = Pk;
    fn tweakable_pk(&self) -> Pk {
        Pk((*self.as_affine()).into())
    }
    fn key_from_tweakable_pk(pk: &Pk) -> Self {
        VerifyingKey::from_affine(pk.0.to_affine()).expect("the tweaked key is not the identity")
    }
}
impl SecretTweakable for SigningKey<SymCurve> {
    type Bip32Sk = Sk;
    fn tweakable_sk(&self) -> Sk {
        Sk(*self.as_nonzero_scalar().as_ref())
    }
    fn key_from_tweakable_sk(sk: &Sk) -> Self {
        SigningKey::from(Option::<NonZeroScalar<SymCurve>>::from(NonZeroScalar::new(sk.0)).expect("not zero"))
    }
}

/// The chain code the derivation starts from.
pub fn initial(pk: &VerifyingKey<SymCurve>) -> String {
    let h = <SymCurve as DigestPrimitive>::Digest::new()
        .chain_update(b"chain-code-derivation")
        .chain_update(bip32::PublicKey::to_bytes(&pk.tweakable_pk()))
        .finalize();
    let mut cc = [0u8; 32];
    let n = h.len().min(32);
    cc[..n].copy_from_slice(&h[..n]);
    hexs(&cc)
}

/// The path, with its tweaks and chain codes programmed.
pub fn path(c: &Ctx) -> DerivationPath {
    let mut p = DerivationPath::default();
    TWEAKS.with(|t| t.borrow_mut().clear());
    STEP.with(|s| s.set(0));
    for s in c.g("path").as_array().unwrap() {
        p.push(ChildNumber(s["n"].as_u64().unwrap() as u32));
        let mut t = [0u8; 32];
        let b = rec::unhex(s["t"].as_str().unwrap());
        t[32 - b.len()..].copy_from_slice(&b);
        let mut cc = [0u8; 32];
        cc.copy_from_slice(&rec::unhex(s["c"].as_str().unwrap()));
        TWEAKS.with(|q| q.borrow_mut().push_back((t, cc)));
    }
    p
}

fn derive(c: &mut Ctx) {
    let k: Point<super::par::SymParams> = c.d("K");
    let Some(vk) = k.to_verifying_key() else { panic!("SCENARIO-INPUT identity") };
    rec::line(format!("O initial 0 {}", initial(&vk)));
    let p = path(c);
    let r = vk.derive_verifying_key_bip32(&p);
    out_b("ok", r.is_ok());
    if let Ok(r) = r {
        let s: SPt = (*r.as_affine()).into();
        rec::line(format!("O child {}", s.node()));
    }
}

pub fn scenarios() -> Vec<(&'static str, Scen)> {
    std::vec![("bip_derive", derive as Scen)]
}
