//! Scenarios over the secret container.
use std::{format, string::String, vec::Vec};
use crypto_bigint::modular::Retrieve;
use crypto_bigint::subtle::{Choice, ConditionallyNegatable};
use crypto_bigint::{NonZero, WrappingAdd, WrappingMul, WrappingNeg, WrappingSub};

use super::int::{SM, SU};
use super::par::SymParams as P;
use super::rec;
use super::scen::*;
use crate::curve::{Point, Scalar};
use crate::tools::Secret;
use crate::uint::*;

fn su<const L: usize>(name: &str, x: &Secret<SU<L>>) {
    out_u(name, x.expose_secret())
}
fn ssc(name: &str, x: &Secret<Scalar<P>>) {
    out_s(name, x.expose_secret())
}
fn sm<const L: usize>(name: &str, x: &Secret<SM<L>>) {
    out_m(name, x.expose_secret())
}
/// What the formatter prints, and whether it looked at tracked values.
fn dbg<T: core::fmt::Debug>(name: &str, x: &T, y: &T) {
    let a = format!("{x:?}|{x:#?}");
    let b = format!("{y:?}|{y:#?}");
    out_b(&format!("debug:{name}"), a == b);
}

fn secret_uint(c: &mut Ctx) {
    let (x0, y0, n0): (U, U, U) = (c.u("x"), c.u("y"), c.u("n"));
    let s = |v: &U| {
        let v = *v;
        Secret::init_with(|| v)
    };
    let (x, y) = (s(&x0), s(&y0));
    su("clone", &x.clone());
    su("wneg", &x.wrapping_neg());
    su("wadd", &x.wrapping_add(&y));
    su("wsub", &x.wrapping_sub(&y));
    su("wmul", &x.wrapping_mul(&y));
    su("wide", &x.to_wide::<W>());
    let mut t = x.clone();
    t += &y0;
    su("add0", &t);
    let mut t = x.clone();
    t += y.clone();
    su("add1", &t);
    su("add2", &(x.clone() + &y0));
    su("add3", &(&x + &y0));
    su("add4", &(x.clone() + y.clone()));
    su("add5", &(x.clone() + &y));
    su("add6", &(&x + y.clone()));
    su("add7", &(&x + &y));
    su("sub0", &(x.clone() - &y0));
    su("sub1", &(x.clone() - y.clone()));
    let mut t = x.clone();
    t *= &y0;
    su("mul0", &t);
    su("mul1", &(x.clone() * &y0));
    su("mul2", &(&x * &y0));
    su("mul3", &(&x * y0));
    su("mul4", &(x.clone() * y0));
    su("mul5", &(x.clone() * y.clone()));
    su("mul6", &(x.clone() * &y));
    su("mul7", &(&x * &y));
    let nz: NonZero<U> = NonZero::new(n0).unwrap();
    let mut t = x.clone();
    t /= &nz;
    su("div0", &t);
    su("div1", &(x.clone() / nz));
    let mut t = x.clone();
    t %= &nz;
    su("rem0", &t);
    su("rem1", &(&x % &nz));
    for k in 0..2u8 {
        su(&format!("select{k}"), &Secret::conditional_select(&x, &y, Choice::from(k)));
    }
    su("x", &x);
    su("y", &y);
    dbg("integer", &x, &y);
    let w = out_wire("wire", &x);
    let back: Secret<U> = de(&w);
    su("back", &back);
    // signed and unsigned bounded secrets
    let su1 = SecretUnsigned::new(x.clone(), 256);
    let su2 = SecretUnsigned::new(y.clone(), 256);
    if let (Some(a), Some(b)) = (Option::<SecretUnsigned<U>>::from(su1), Option::<SecretUnsigned<U>>::from(su2)) {
        dbg("unsigned", &a, &b);
    }
    let a = Option::<SecretSigned<U>>::from(SecretSigned::new_positive(x.clone(), 256)).unwrap();
    let b = -Option::<SecretSigned<U>>::from(SecretSigned::new_positive(y.clone(), 256)).unwrap();
    dbg("signed", &a, &b);
}

fn secret_scalar(c: &mut Ctx) {
    let (x0, y0, z0): (Scalar<P>, Scalar<P>, Scalar<P>) = (c.d("x"), c.d("y"), c.d("z"));
    let (x, y, z) = (Secret::init_with(|| x0), Secret::init_with(|| y0), Secret::init_with(|| z0));
    ssc("clone", &x.clone());
    ssc("neg", &-&x);
    let mut t = x.clone();
    t += &y0;
    ssc("add0", &t);
    let mut t = x.clone();
    t += y.clone();
    ssc("add1", &t);
    ssc("add2", &(x.clone() + &y0));
    ssc("add3", &(&x + &y0));
    ssc("add4", &(x.clone() + y.clone()));
    ssc("add5", &(x.clone() + &y));
    ssc("add6", &(&x + y.clone()));
    ssc("add7", &(&x + &y));
    ssc("sub0", &(x.clone() - &y0));
    ssc("sub1", &(x.clone() - y.clone()));
    let mut t = x.clone();
    t *= &y0;
    ssc("mul0", &t);
    ssc("mul1", &(x.clone() * &y0));
    ssc("mul2", &(&x * &y0));
    ssc("mul3", &(&x * y0));
    ssc("mul4", &(x.clone() * y0));
    ssc("mul5", &(x.clone() * y.clone()));
    ssc("mul6", &(x.clone() * &y));
    ssc("mul7", &(&x * &y));
    let l = [x.clone(), y.clone(), z.clone(), x.clone(), y.clone()];
    for n in 0..=5 {
        ssc(&format!("sum{n}"), &l[..n].iter().cloned().sum());
        ssc(&format!("sumref{n}"), &l[..n].iter().sum());
    }
    for k in 0..2u8 {
        ssc(&format!("select{k}"), &Secret::conditional_select(&x, &y, Choice::from(k)));
    }
    let g = Point::<P>::generator();
    let p = g * z0;
    out_p("gen", &x.mul_by_generator());
    out_p("pmul0", &(p * x.clone()));
    out_p("pmul1", &(p * &x));
    out_p("pmul2", &(&p * x.clone()));
    out_p("pmul3", &(&p * &x));
    dbg("scalar", &x, &y);
    let w = out_wire("wire", &x);
    let back: Secret<Scalar<P>> = de(&w);
    ssc("back", &back);
    ssc("x", &x);
    ssc("y", &y);
}

fn secret_residue(c: &mut Ctx) {
    let pk = c.pk("pk");
    let par = pk.monty_params_mod_n();
    let (x0, y0): (U, U) = (c.u("x"), c.u("y"));
    let e: PublicSigned<U> = c.ps("e");
    let x = Secret::init_with(|| x0).to_montgomery(par);
    let y = Secret::init_with(|| y0).to_montgomery(par);
    let ym = *y.expose_secret();
    sm("x", &x);
    su("retrieve", &x.retrieve());
    sm("neg", &-&x);
    sm("add", &(&x + &y));
    sm("sub", &(x.clone() - &ym));
    sm("mul", &(&x * &y));
    sm("mul_val", &(&x * ym));
    sm("pow_pub", &x.pow(&e));
    sm("pow_sec", &x.pow(&secret(&e)));
    for k in 0..2u8 {
        sm(&format!("select{k}"), &Secret::conditional_select(&x, &y, Choice::from(k)));
        let mut t = x.clone();
        t.conditional_negate(Choice::from(k));
        sm(&format!("cneg{k}"), &t);
    }
    dbg("residue", &x, &y);
}

fn secret_keys(c: &mut Ctx) {
    let sk = c.sk("sk");
    let pk = sk.public_key().clone();
    let wire: crate::paillier::SecretKeyPaillierWire<super::par::SymPaillier> = c.d("sk");
    let rho = c.rnd("rho", &pk);
    fn show<T: core::fmt::Debug>(name: &str, x: &T) {
        rec::line(format!("O shown:{name} 0 begin"));
        let t = format!("{x:?}|{x:#?}").replace([' ', '\n'], "").to_lowercase();
        rec::line(format!("O text:{name} 0 {t}"));
    }
    show("wire", &wire);
    show("key", &sk);
    show("randomizer", &rho);
    if c.has("lambda") {
        show("setup", &rp_secret(c));
    }
}

pub fn scenarios() -> Vec<(&'static str, Scen)> {
    let _ = (rec::fresh_name as fn() -> String,);
    std::vec![("secret_uint", secret_uint as Scen), ("secret_scalar", secret_scalar), ("secret_residue", secret_residue),
        ("secret_keys", secret_keys)]
}
