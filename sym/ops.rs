//! Scenarios over single operations: bounded integers, ranges, sampling, additive splitting, secret containers.
use std::{format, string::String, vec::Vec};
use crypto_bigint::subtle::CtOption;
use crypto_bigint::{CheckedAdd, CheckedMul, CheckedSub, NonZero};
use serde_json::json;

use super::int::SU;
use super::par::{SymParams as P, Oracle};
use super::scen::*;
use super::rec;
use crate::curve::{secret_split, Point, Scalar};
use crate::tools::Secret;
use crate::uint::*;

fn o<T>(x: CtOption<T>) -> Option<T> {
    Option::from(x)
}
fn out_opt<const L: usize>(name: &str, x: Option<SecretSigned<SU<L>>>) {
    match x {
        Some(x) => out_secret(name, &x),
        None => rec::line(format!("O {name} 0 none")),
    }
}
/// Sign, absolute value and bound, through the accessors.
fn out_secret<const L: usize>(name: &str, x: &SecretSigned<SU<L>>) {
    let neg = bool::from(x.is_negative());
    rec::line(format!("O {name} {} {} {}", x.abs_value().expose_secret().node(), neg as u8, x.bound()));
}
fn out_pub<const L: usize>(name: &str, x: &PublicSigned<SU<L>>) {
    rec::line(format!("O {name} {} {} {}", x.abs().node(), x.is_negative() as u8, x.bound()));
}

fn uint_ops(c: &mut Ctx) {
    let (xp, yp): (PublicSigned<U>, PublicSigned<U>) = (c.ps("x"), c.ps("y"));
    let (x, y) = (secret(&xp), secret(&yp));
    out_secret("x", &x);
    out_pub("xp", &xp);
    out_secret("neg", &-&x);
    out_secret("neg_owned", &-x.clone());
    out_pub("neg_pub", &-xp);
    out_pub("to_public", &x.to_public());
    out_u("abs", x.abs().expose_secret());
    rec::line(format!("O abs_bound 0 {}", x.abs().bound()));
    out_secret("wide", &x.to_wide::<W>());
    out_pub("wide_pub", &xp.to_wide::<W>());
    out_opt("add", o(x.checked_add(&y)));
    out_opt("add_pub", o(x.checked_add(&yp)));
    out_opt("sub", o(x.checked_sub(&y)));
    out_opt("mul", o(x.checked_mul(&y)));
    out_opt("mul_pub", o(x.checked_mul(&yp)));
    out_secret("mul_wide", &x.mul_wide_public::<U, W>(&yp));
    if c.has("operators") {
        out_secret("op_add", &(x.clone() + y.clone()));
        out_secret("op_add_ref", &(x.clone() + &y));
        out_secret("op_add_pub", &(x.clone() + yp));
        out_secret("op_sub", &(x.clone() - y.clone()));
        out_secret("op_sum", &[x.clone(), y.clone(), x.clone()].iter().sum());
        out_secret("op_sum2", &[x.clone(), y.clone()].iter().sum());
        out_secret("op_sum1", &[x.clone()].iter().sum());
    }
    if c.has("products") {
        out_secret("op_mul", &(x.clone() * y.clone()));
        out_secret("op_mul_ref", &(x.clone() * &y));
        out_secret("op_mul_pub", &(x.clone() * yp));
        out_secret("op_mul_pub_ref", &(&x * yp));
    }
    // construction
    let raw: U = c.u("raw");
    let b = c.n("bound");
    match PublicSigned::new_from_unsigned(raw, b) {
        Some(r) => out_pub("from_pub", &r),
        None => rec::line("O from_pub 0 none".into()),
    }
    match PublicSigned::new_positive(raw, b) {
        Some(r) => out_pub("pos_pub", &r),
        None => rec::line("O pos_pub 0 none".into()),
    }
    out_opt("from_sec", o(SecretSigned::new_from_unsigned(Secret::init_with(|| raw), b)));
    out_opt("pos_sec", o(SecretSigned::new_positive(Secret::init_with(|| raw), b)));
    match o(SecretUnsigned::new(Secret::init_with(|| raw), b)) {
        Some(r) => {
            rec::line(format!("O unsigned {} 0 {}", r.expose_secret().node(), r.bound()));
            let w: SecretUnsigned<W> = r.to_wide();
            rec::line(format!("O unsigned_wide {} 0 {}", w.expose_secret().node(), w.bound()));
        }
        None => rec::line("O unsigned 0 none".into()),
    }
}

fn ranges(c: &mut Ctx) {
    let x: PublicSigned<U> = c.ps("x");
    for e in c.g("exps").as_array().unwrap() {
        let e = e.as_u64().unwrap() as u32;
        out_b(&format!("pub{e}"), x.is_in_exponent_range(e));
        out_opt(&format!("sec{e}"), o(secret(&x).ensure_exponent_range(e)));
    }
}
fn assert_range(c: &mut Ctx) {
    let x: PublicSigned<U> = c.ps("x");
    secret(&x).assert_exponent_range(c.n("exp"));
}
fn samples(c: &mut Ctx) {
    let e = c.n("exp");
    let s: U = c.u("scale");
    let sw: W = c.u("scale_wide");
    out_secret("plain", &SecretSigned::<U>::random_in_exponent_range(&mut c.rng, e));
    out_secret("scaled", &SecretSigned::<U>::random_in_exponent_range_scaled::<W>(&mut c.rng, e, &s));
    out_secret("scaled_wide", &SecretSigned::<U>::random_in_exponent_range_scaled_wide::<W, X>(&mut c.rng, e, &sw));
    let mut rd = digest::ExtendableOutput::finalize_xof(Oracle::default());
    let r = PublicSigned::<U>::from_xof_reader_in_exponent_range(&mut rd, e);
    out_pub("hash", &r);
    let mut next = [0u8; 1];
    digest::XofReader::read(&mut rd, &mut next);
    rec::line(format!("O next 0 {}", next[0]));
}

fn split(c: &mut Ctx) {
    let s: Scalar<P> = c.d("s");
    let num = c.n("num") as usize;
    let parts = secret_split(&mut c.rng, Secret::init_with(|| s), num);
    rec::line(format!("O num 0 {}", parts.len()));
    for (i, p) in parts.iter().enumerate() {
        out_s(&format!("part{i}"), p.expose_secret());
    }
}

pub fn scenarios() -> Vec<(&'static str, Scen)> {
    let _ = (json!(null), String::new(), NonZero::new(1u32));
    let _: Option<Point<P>> = None;
    std::vec![("uint_ops", uint_ops as Scen), ("ranges", ranges), ("assert_range", assert_range), ("samples", samples), ("split", split)]
}
