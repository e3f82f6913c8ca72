//! Scenarios over ECDSA signature assembly and point/scalar helpers.
use std::{format, vec::Vec};
use ecdsa::VerifyingKey;
use elliptic_curve::group::Curve as _;
use elliptic_curve::ops::Reduce;
use elliptic_curve::point::AffineCoordinates;
use elliptic_curve::sec1::ToEncodedPoint;

use super::crv::{SymCurve, SA, SPt, SS};
use super::par::SymParams as P;
use super::rec;
use super::scen::*;
use crate::curve::{Point, RecoverableSignature, Scalar};

fn pt(b: SPt) -> Point<P> {
    let a: SA = b.to_affine();
    a.register();
    de(&serde_json::to_value(&rec_bytes(&a)).unwrap())
}
fn rec_bytes(a: &SA) -> std::string::String {
    use elliptic_curve::group::GroupEncoding;
    let p: SPt = (*a).into();
    let h: std::string::String = p.to_encoded_point(true).as_bytes().iter().map(|x| format!("{x:02x}")).collect();
    // the point at infinity is all zeros
    format!("0x{h:0<50}")
}

fn signature(c: &mut Ctx) {
    let rp: Point<P> = c.d("R");
    let r_aff: SA = rp.to_backend().to_affine();
    // the other point with the same abscissa is a known term too
    let minus: SA = (-rp.to_backend()).to_affine();
    minus.register();
    let r = <SS as Reduce<_>>::reduce_bytes(&r_aff.x());
    let (s, m): (Scalar<P>, Scalar<P>) = (c.d("s"), c.d("m"));
    let (s, m) = (s.to_backend(), m.to_backend());
    let rinv = Option::<SS>::from(elliptic_curve::Field::invert(&r)).expect("SCENARIO-INPUT");
    // the key for which (r, s) signs m
    let q: SPt = rp.to_backend() * (rinv * s) - SPt::default_generator() * (rinv * m);
    q.to_affine().register();
    let e = || c.d::<Scalar<P>>("e").to_backend();
    let (mut r2, mut s2, mut m2, mut q2) = (r, s, m, q);
    match c.g("mode").as_str().unwrap() {
        "r" => r2 = r + e(),
        "s" => s2 = s + e(),
        "m" => m2 = m + e(),
        "q" => q2 = q + SPt::default_generator() * e(),
        "r0" => r2 = r - r,
        "s0" => s2 = s - s,
        "q0" => q2 = q - q,
        _ => (),
    }
    let sc = |x: SS| -> Scalar<P> {
        rec::register(&elliptic_curve::PrimeField::to_repr(&x), x.node(), "s");
        let h: std::string::String = elliptic_curve::PrimeField::to_repr(&x).iter().map(|b| format!("{b:02x}")).collect();
        de(&serde_json::json!(format!("0x{h}")))
    };
    let (r3, s3, m3) = (sc(r2), sc(s2), sc(m2));
    let res = RecoverableSignature::<P>::from_scalars(r3, s3, pt(q2), m3);
    out_b("some", res.is_some());
    out_s("r_in", &r3);
    out_p("key", &pt(q2));
    if let Some(x) = res {
        let (sig, id) = x.to_backend();
        let (r, s) = sig.split_scalars();
        rec::line(format!("O r {}", r.as_ref().node()));
        rec::line(format!("O s {}", s.as_ref().node()));
        rec::line(format!("O id 0 {}", id.to_byte()));
        let k = VerifyingKey::<SymCurve>::recover_from_prehash(&m3.to_be_bytes(), &sig, id);
        out_b("recovers", k.is_ok());
        if let Ok(k) = k {
            let p: SPt = (*k.as_affine()).into();
            rec::line(format!("O recovered {}", p.node()));
        }
    }
}

pub fn scenarios() -> Vec<(&'static str, Scen)> {
    std::vec![("signature", signature as Scen)]
}
