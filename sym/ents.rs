//! Scenarios over secret sharing and key shares.
use std::collections::{BTreeMap, BTreeSet};
use std::{format, vec::Vec};
use ecdsa::SigningKey;
use elliptic_curve::{Group, NonZeroScalar};

use super::crv::{SymCurve, SPt, SS};
use super::par::SymParams as P;
use super::rec;
use super::scen::*;
use crate::curve::{DeriveChildKey, Point, Scalar};
use crate::entities::{KeyShare, KeyShareChange, ThresholdKeyShare};
use crate::tools::sss::*;
use crate::tools::Secret;

pub type Id = u8;

fn sid(x: Scalar<P>) -> ShareId<P> {
    de(&serde_json::to_value(&x).unwrap())
}
fn list(c: &Ctx, k: &str) -> Vec<usize> {
    c.g(k).as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as usize).collect()
}
fn sec(x: &Secret<Scalar<P>>) -> Scalar<P> {
    *x.expose_secret()
}

fn sss(c: &mut Ctx) {
    let secret: Scalar<P> = c.d("secret");
    let t = c.n("t") as usize;
    let fixed = c.has("n");
    let ids: Vec<ShareId<P>> = if fixed {
        shamir_evaluation_points(c.n("n") as usize)
    } else {
        c.g("ids").as_array().unwrap().iter().map(|x| sid(de(x))).collect()
    };
    for (i, x) in ids.iter().enumerate() {
        out_s(&format!("id{i}"), &de(&serde_json::to_value(x).unwrap()));
    }
    let poly = Polynomial::random(&mut c.rng, Secret::init_with(|| secret), t);
    let public = poly.public();
    let shares: Vec<_> = ids.iter().map(|x| poly.evaluate(x)).collect();
    let points: Vec<_> = ids.iter().map(|x| public.evaluate(x)).collect();
    for i in 0..ids.len() {
        out_s(&format!("share{i}"), &sec(&shares[i]));
        out_p(&format!("point{i}"), &points[i]);
    }
    match public.coeff0() {
        Ok(p) => out_p("coeff0", p),
        Err(_) => out_b("coeff0_err", true),
    }
    let back: PublicPolynomial<P> = de(&serde_json::to_value(&public).unwrap());
    out_p("back0", &back.evaluate(&ids[0]));
    let split = shamir_split(&mut c.rng, Secret::init_with(|| secret), t, &ids);
    out_b("split_all", ids.iter().all(|x| split.contains_key(x)) && split.len() == ids.len());
    for (i, x) in ids.iter().enumerate() {
        if let Some(s) = split.get(x) {
            out_s(&format!("split{i}"), &sec(s));
        }
    }
    for (k, sub) in c.g("subsets").as_array().unwrap().clone().iter().enumerate() {
        let sub: Vec<usize> = sub.as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as usize).collect();
        let ss: BTreeMap<_, _> = sub.iter().map(|i| (ids[*i], shares[*i].clone())).collect();
        let pp: BTreeMap<_, _> = sub.iter().map(|i| (ids[*i], points[*i])).collect();
        out_s(&format!("joined{k}"), &sec(&shamir_join_scalars(ss)));
        out_p(&format!("joined_point{k}"), &shamir_join_points(&pp));
    }
}

pub fn signing_key(c: &Ctx, k: &str) -> SigningKey<SymCurve> {
    let s: Scalar<P> = c.d(k);
    SigningKey::from(Option::<NonZeroScalar<SymCurve>>::from(NonZeroScalar::new(s.to_backend())).expect("SCENARIO-INPUT zero"))
}
fn ids(c: &Ctx, k: &str) -> BTreeSet<Id> {
    list(c, k).into_iter().map(|x| x as Id).collect()
}
fn vk_out(name: &str, vk: ecdsa::VerifyingKey<SymCurve>) {
    let p: SPt = (*vk.as_affine()).into();
    rec::line(format!("O {name} {}", p.node()));
}

pub fn out_threshold(name: &str, s: &ThresholdKeyShare<P, Id>) {
    rec::line(format!("O {name}.owner 0 {}", s.owner));
    rec::line(format!("O {name}.threshold 0 {}", s.threshold()));
    out_s(&format!("{name}.secret"), &sec(&s.secret_share));
    rec::line(format!("O {name}.parties 0 {:?}/{:?}", s.share_ids.keys().collect::<Vec<_>>(), s.public_shares.keys().collect::<Vec<_>>()));
    for (id, x) in s.share_ids.iter() {
        out_s(&format!("{name}.id{id}"), &de(&serde_json::to_value(x).unwrap()));
    }
    for (id, p) in s.public_shares.iter() {
        out_p(&format!("{name}.public{id}"), p);
    }
    match s.verifying_key() {
        Ok(k) => vk_out(&format!("{name}.vk"), k),
        Err(_) => rec::line(format!("O {name}.vk 0 none")),
    }
}
pub fn out_share(name: &str, s: &KeyShare<P, Id>) {
    rec::line(format!("O {name}.owner 0 {}", s.owner()));
    out_s(&format!("{name}.secret"), &sec(s.secret_share()));
    rec::line(format!("O {name}.parties 0 {:?}", s.all_parties().into_iter().collect::<Vec<_>>()));
    for (id, p) in s.public_shares() {
        out_p(&format!("{name}.public{id}"), p);
    }
    vk_out(&format!("{name}.vk"), s.verifying_key());
}

/// Threshold shares, all conversions for the given subsets, and (with a path) derived shares.
fn threshold(c: &mut Ctx) {
    let ids_ = ids(c, "ids");
    let t = c.n("t") as usize;
    let sk = c.has("secret").then(|| signing_key(c, "secret"));
    let shares = match ThresholdKeyShare::<P, Id>::new_centralized(&mut c.rng, &ids_, t, sk.as_ref()) {
        Ok(s) => s,
        Err(_) => return out_b("shares", false),
    };
    out_b("shares", true);
    rec::line(format!("O holders 0 {:?}", shares.keys().collect::<Vec<_>>()));
    for (id, s) in &shares {
        out_threshold(&format!("t{id}"), s);
    }
    let subs: Vec<BTreeSet<Id>> = c.g("subsets").as_array().unwrap().iter()
        .map(|s| s.as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as Id).collect()).collect();
    for (k, sub) in subs.iter().enumerate() {
        for id in sub {
            let name = format!("s{k}.{id}");
            let Some(s) = shares.get(id) else { continue };
            match s.to_key_share(sub) {
                Ok(s) => {
                    out_share(&name, &s);
                    out_threshold(&format!("{name}.back"), &ThresholdKeyShare::from_key_share(&s));
                }
                Err(_) => out_b(&format!("{name}.err"), true),
            }
        }
    }
    if c.has("path") {
        let vk = match shares.values().next().unwrap().verifying_key() {
            Ok(k) => k,
            Err(_) => return,
        };
        let p = super::bip::path(c);
        match vk.derive_verifying_key_bip32(&p) {
            Ok(k) => vk_out("child", k),
            Err(_) => rec::line(format!("O child 0 none")),
        }
        for (id, s) in &shares {
            let p = super::bip::path(c);
            match s.derive_verifying_key_bip32(&p) {
                Ok(k) => vk_out(&format!("d{id}.direct"), k),
                Err(_) => rec::line(format!("O d{id}.direct 0 none")),
            }
            let p = super::bip::path(c);
            match s.derive_bip32(&p) {
                Ok(d) => {
                    out_b(&format!("d{id}.ok"), true);
                    out_threshold(&format!("d{id}"), &d);
                    for (k, sub) in subs.iter().enumerate().filter(|(_, s)| s.contains(id)) {
                        match d.to_key_share(sub) {
                            Ok(x) => out_share(&format!("ds{k}.{id}"), &x),
                            Err(_) => out_b(&format!("ds{k}.{id}.err"), true),
                        }
                    }
                }
                Err(_) => out_b(&format!("d{id}.ok"), false),
            }
        }
    }
}

/// Additive shares and their update.
fn shares(c: &mut Ctx) {
    let ids_ = ids(c, "ids");
    let sk = c.has("secret").then(|| signing_key(c, "secret"));
    let shares = KeyShare::<P, Id>::new_centralized(&mut c.rng, &ids_, sk.as_ref());
    rec::line(format!("O holders 0 {:?}", shares.keys().collect::<Vec<_>>()));
    for (id, s) in &shares {
        out_share(&format!("a{id}"), s);
        out_threshold(&format!("a{id}.back"), &ThresholdKeyShare::from_key_share(s));
    }
}

pub fn scenarios() -> Vec<(&'static str, Scen)> {
    std::vec![("sss", sss as Scen), ("threshold", threshold as Scen), ("shares", shares as Scen)]
}
