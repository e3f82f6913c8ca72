//! C01: bounded integers are exact or refused.  T = 64-bit `Uint`, wide = 128-bit `Uint`.
use super::nd;
use crate::tools::Secret;
use crate::uint::*;
use crypto_bigint::subtle::{Choice, ConditionallySelectable, CtOption};
use crypto_bigint::{CheckedAdd, CheckedMul, CheckedSub, Integer, Invert, NonZero, PowBoundedExp, U128, U64};

fn sec(v: u64) -> Secret<U64> {
    Secret::init_with(|| U64::from(v))
}
fn opt<T>(x: CtOption<T>) -> Option<T> {
    Option::from(x)
}
fn fits(v: i128, bound: u32) -> bool {
    bound < 127 && v > -(1i128 << bound) && v < (1i128 << bound)
}
/// The mathematical value of a 64-bit two's complement public integer, checking its invariants.
fn pv(x: &PublicSigned<U64>) -> i128 {
    let raw = u64::from(*x.value());
    let v = raw as i64 as i128;
    assert!(x.bound() < 64);
    assert!(fits(v, x.bound()));
    assert!(x.is_negative() == (v < 0));
    v
}
fn pvw(x: &PublicSigned<U128>) -> i128 {
    let raw = u128::from(*x.value());
    let v = raw as i128;
    assert!(x.bound() < 128);
    assert!(x.bound() == 127 || fits(v, x.bound()));
    assert!(x.is_negative() == (v < 0));
    v
}
/// Value of a secret integer through its public accessors.
fn sv(x: &SecretSigned<U64>) -> i128 {
    let abs = u64::from(*x.abs_value().expose_secret()) as i128;
    let neg = bool::from(x.is_negative());
    assert!(x.bound() < 64);
    let v = if neg { -abs } else { abs };
    assert!(fits(v, x.bound()));
    v
}
fn svw(x: &SecretSigned<U128>) -> i128 {
    let abs = u128::from(*x.abs_value().expose_secret());
    let neg = bool::from(x.is_negative());
    assert!(x.bound() < 128);
    assert!(abs < (1u128 << x.bound()));
    if neg { -(abs as i128) } else { abs as i128 }
}
/// An arbitrary valid secret integer and its mathematical value.
fn any_sec() -> (SecretSigned<U64>, i128) {
    let raw = nd::u64_();
    let bound = nd::u32_();
    let v = raw as i64 as i128;
    nd::assume(bound < 64 && fits(v, bound));
    let x = opt(SecretSigned::new_from_unsigned(sec(raw), bound));
    assert!(x.is_some());
    (x.unwrap(), v)
}
fn any_pub() -> (PublicSigned<U64>, i128) {
    let raw = nd::u64_();
    let bound = nd::u32_();
    let v = raw as i64 as i128;
    nd::assume(bound < 64 && fits(v, bound));
    let x = PublicSigned::new_from_unsigned(U64::from(raw), bound);
    assert!(x.is_some());
    (x.unwrap(), v)
}
/// `w` is zero or a signed power of two; returns `v * w`.
fn pow2(v: i128, w: i128) -> i128 {
    let k = nd::u32_();
    nd::assume(k < 63);
    nd::assume(w == 0 || w == 1i128 << k || w == -(1i128 << k));
    if w == 0 { 0 } else if w < 0 { -(v << k) } else { v << k }
}
fn narrow(v: i128, bits: u32) {
    nd::assume(v > -(1i128 << bits) && v < (1i128 << bits));
}

/// A stand-in for a residue: a multiplicative group element given by its (wrapping) logarithm.
#[derive(Clone, Copy)]
struct Log(u64);
impl ConditionallySelectable for Log {
    fn conditional_select(a: &Self, b: &Self, c: Choice) -> Self {
        Log(u64::conditional_select(&a.0, &b.0, c))
    }
}
impl PowBoundedExp<U64> for Log {
    fn pow_bounded_exp(&self, e: &U64, bits: u32) -> Self {
        // the base has logarithm one
        let e = u64::from(*e);
        Log(if bits >= 64 { e } else { e & ((1u64 << bits) - 1) })
    }
}
impl Invert for Log {
    type Output = CtOption<Self>;
    fn invert(&self) -> CtOption<Self> {
        CtOption::new(Log(self.0.wrapping_neg()), Choice::from(1))
    }
    fn invert_vartime(&self) -> CtOption<Self> {
        self.invert()
    }
}

harnesses! {

/// Construction from a two's complement value: accepted iff the value is below the bound.
#[kani::unwind(70)]
fn c01_new_secret() {
    let raw = nd::u64_();
    let bound = nd::u32_();
    let v = raw as i64 as i128;
    let x = opt(SecretSigned::new_from_unsigned(sec(raw), bound));
    assert!(x.is_some() == (bound < 64 && fits(v, bound)));
    if let Some(x) = x {
        assert!(sv(&x) == v);
        assert!(x.bound() == bound);
        reached!("accepted");
    }
}

#[kani::unwind(70)]
fn c01_new_public() {
    let raw = nd::u64_();
    let bound = nd::u32_();
    let v = raw as i64 as i128;
    let x = PublicSigned::new_from_unsigned(U64::from(raw), bound);
    assert!(x.is_some() == (bound < 64 && fits(v, bound)));
    if let Some(x) = x {
        assert!(pv(&x) == v);
        assert!(x.bound() == bound);
        reached!("accepted");
    }
}

/// Construction from a non-negative value: accepted iff the value is below the bound.
#[kani::unwind(70)]
fn c01_new_positive() {
    let raw = nd::u64_();
    let bound = nd::u32_();
    let ok = bound < 64 && fits(raw as i128, bound);
    let x = opt(SecretSigned::new_positive(sec(raw), bound));
    let y = PublicSigned::new_positive(U64::from(raw), bound);
    assert!(y.is_some() == ok);
    assert!(x.is_some() == ok);
    if let (Some(x), Some(y)) = (x, y) {
        assert!(sv(&x) == raw as i128 && x.bound() == bound);
        assert!(pv(&y) == raw as i128 && y.bound() == bound);
        reached!("accepted");
    }
}

/// A residue below a modulus becomes its representative in the symmetric range.
#[kani::unwind(70)]
fn c01_new_modulo() {
    let raw = nd::u64_();
    let modulus = nd::u64_();
    let bits = nd::u32_();
    nd::assume(modulus > 0 && raw < modulus);
    nd::assume(bits >= 1 && bits <= 70);
    let m = NonZero::new(U64::from(modulus)).unwrap();
    let half = modulus / 2;
    let v = if raw > half { raw as i128 - modulus as i128 } else { raw as i128 };
    let x = opt(SecretSigned::new_modulo(sec(raw), &m, bits));
    assert!(x.is_some() == (bits - 1 < 64 && fits(v, bits - 1)));
    if let Some(x) = x {
        assert!(sv(&x) == v);
        assert!(x.bound() == bits - 1);
        reached!(v < 0, "negative");
        reached!(v > 0, "positive");
    }
}

#[kani::unwind(70)]
fn c01_unary_secret() {
    let (x, v) = any_sec();
    assert!(sv(&x) == v);
    let n = x.neg();
    assert!(sv(&n) == -v && n.bound() == x.bound());
    assert!(sv(&-&x) == -v);
    let a = x.abs();
    assert!(u64::from(*a.expose_secret()) as i128 == v.abs() && a.bound() == x.bound());
    let p = x.to_public();
    assert!(pv(&p) == v && p.bound() == x.bound());
    reached!(v < 0, "negative");
}

#[kani::unwind(70)]
fn c01_unary_public() {
    let (x, v) = any_pub();
    assert!(pv(&x) == v);
    let n = x.neg();
    assert!(pv(&n) == -v && n.bound() == x.bound());
    assert!(pv(&-x) == -v);
    assert!(u64::from(x.abs()) as i128 == v.abs());
    assert!(pv(&PublicSigned::<U64>::one()) == 1);
    assert!(pv(&PublicSigned::<U64>::zero()) == 0);
    assert!(sv(&SecretSigned::<U64>::zero()) == 0);
    reached!(v < 0, "negative");
}

#[kani::unwind(70)]
fn c01_add() {
    let (x, v) = any_sec();
    let (y, w) = any_sec();
    let r = opt(x.checked_add(&y));
    let roomy = x.bound() < 62 && y.bound() < 62;
    if roomy { assert!(r.is_some()); }
    if let Some(r) = r {
        assert!(sv(&r) == v + w);
        assert!(r.bound() >= x.bound() && r.bound() >= y.bound());
        let s = x.clone() + y.clone();
        assert!(sv(&s) == v + w && s.bound() == r.bound());
        let s = x + &y;
        assert!(sv(&s) == v + w);
        reached!(v < 0 && w > 0, "mixed signs");
    }
}

#[kani::unwind(70)]
fn c01_add_public() {
    let (x, v) = any_sec();
    let (y, w) = any_pub();
    let r = opt(x.checked_add(&y));
    let roomy = x.bound() < 62 && y.bound() < 62;
    if roomy { assert!(r.is_some()); }
    if let Some(r) = r {
        assert!(sv(&r) == v + w);
        let s = x + y;
        assert!(sv(&s) == v + w);
        reached!(v < 0 && w > 0, "mixed signs");
    }
}

#[kani::unwind(70)]
fn c01_sub() {
    let (x, v) = any_sec();
    let (y, w) = any_sec();
    let r = opt(x.checked_sub(&y));
    let roomy = x.bound() < 62 && y.bound() < 62;
    if roomy { assert!(r.is_some()); }
    if let Some(r) = r {
        assert!(sv(&r) == v - w);
        let s = x - y;
        assert!(sv(&s) == v - w);
        reached!(v < 0 && w > 0, "mixed signs");
    }
}

/// Sums over an iterator (as used for the masks in signing), up to three summands.
#[kani::unwind(70)]
fn c01_sum() {
    let (x, v) = any_sec();
    let (y, w) = any_sec();
    let (z, u) = any_sec();
    nd::assume(x.bound() <= 60 && y.bound() <= 60 && z.bound() <= 60);
    let n = nd::u8_();
    nd::assume(n <= 3);
    let all = [x, y, z];
    let s: SecretSigned<U64> = all[..n as usize].iter().sum();
    let e = (if n > 0 { v } else { 0 }) + (if n > 1 { w } else { 0 }) + (if n > 2 { u } else { 0 });
    assert!(sv(&s) == e);
    reached!(n == 3, "three");
}

/// Multiplication is exact or refused: two 6-bit operands.
#[kani::unwind(70)]
fn c01_mul_small() {
    let (x, v) = any_sec();
    let (y, w) = any_sec();
    narrow(v, 6);
    narrow(w, 6);
    let r = opt(x.checked_mul(&y));
    assert!(r.is_some() || x.bound() + y.bound() >= 63);
    if let Some(r) = r {
        assert!(sv(&r) == v * w);
        reached!(v < 0 && w > 0, "mixed signs");
        reached!(v < 0 && w < 0, "negative signs");
    }
}

/// Multiplication is exact or refused: any 64-bit operand by any signed power of two.
#[kani::unwind(70)]
fn c01_mul_pow2() {
    let (x, v) = any_sec();
    let (y, w) = any_sec();
    narrow(v, 20);
    let vw = pow2(v, w);
    let r = opt(x.checked_mul(&y));
    assert!(r.is_some() || x.bound() + y.bound() >= 63);
    if let Some(r) = r {
        assert!(sv(&r) == vw);
        assert!(r.bound() <= x.bound() + y.bound());
        reached!(v < 0 && w > 0, "mixed signs");
        reached!(v < 0 && w < 0, "negative signs");
    }
}

#[kani::unwind(70)]
fn c01_mul_pow2_deep() {
    let (x, v) = any_sec();
    let (y, w) = any_sec();
    let vw = pow2(v, w);
    let r = opt(x.checked_mul(&y));
    assert!(r.is_some() || x.bound() + y.bound() >= 63);
    if let Some(r) = r {
        assert!(sv(&r) == vw);
        assert!(r.bound() <= x.bound() + y.bound());
        reached!(v < 0 && w > 0, "mixed signs");
        reached!(v < 0 && w < 0, "negative signs");
    }
}

#[kani::unwind(70)]
fn c01_mul_public() {
    let (x, v) = any_sec();
    let (y, w) = any_pub();
    narrow(v, 6);
    narrow(w, 6);
    let r = opt(x.checked_mul(&y));
    assert!(r.is_some() || x.bound() + y.bound() >= 63);
    if let Some(r) = r {
        assert!(sv(&r) == v * w);
        reached!(v < 0 && w > 0, "mixed signs");
    }
}

#[kani::unwind(70)]
fn c01_mul_public_pow2() {
    let (x, v) = any_sec();
    let (y, w) = any_pub();
    narrow(v, 20);
    let vw = pow2(v, w);
    let r = opt(x.checked_mul(&y));
    assert!(r.is_some() || x.bound() + y.bound() >= 63);
    if let Some(r) = r {
        assert!(sv(&r) == vw);
        assert!(r.bound() <= x.bound() + y.bound());
        reached!(v < 0 && w > 0, "mixed signs");
    }
}

#[kani::unwind(70)]
fn c01_mul_public_pow2_deep() {
    let (x, v) = any_sec();
    let (y, w) = any_pub();
    let vw = pow2(v, w);
    let r = opt(x.checked_mul(&y));
    assert!(r.is_some() || x.bound() + y.bound() >= 63);
    if let Some(r) = r {
        assert!(sv(&r) == vw);
        assert!(r.bound() <= x.bound() + y.bound());
        reached!(v < 0 && w > 0, "mixed signs");
    }
}

/// The product operators.
#[kani::unwind(70)]
fn c01_mul_ops() {
    let (x, v) = any_sec();
    let (y, w) = any_pub();
    narrow(v, 4);
    narrow(w, 4);
    nd::assume(x.bound() + y.bound() < 63);
    let s = &x * y;
    assert!(sv(&s) == v * w);
    let s = x * y;
    assert!(sv(&s) == v * w);
    reached!(v < 0 && w > 0, "mixed signs");
}

/// The refusal decision of multiplication depends on the bounds only and prevents overflow.
#[kani::unwind(70)]
fn c01_mul_bounds() {
    let bx = nd::u32_();
    let by = nd::u32_();
    nd::assume(bx < 64 && by < 64);
    let x = opt(SecretSigned::new_from_unsigned(sec(0), bx)).unwrap();
    let y = opt(SecretSigned::new_from_unsigned(sec(0), by)).unwrap();
    let p = PublicSigned::new_from_unsigned(U64::ZERO, by).unwrap();
    let r = opt(x.checked_mul(&y));
    let s = opt(x.checked_mul(&p));
    assert!(r.is_some() == s.is_some());
    if bx + by >= 64 { assert!(r.is_none()); }
    if bx + by < 63 { assert!(r.is_some()); }
    if let Some(r) = r { assert!(r.bound() >= bx + by && r.bound() < 64); }
    if let Some(s) = s { assert!(s.bound() >= bx + by && s.bound() < 64); }
    reached!("end");
}

/// Widening product of a secret and a public number.
#[kani::unwind(70)]
fn c01_mul_wide() {
    let (x, v) = any_sec();
    let (y, w) = any_pub();
    narrow(v, 20);
    let vw = pow2(v, w);
    let r: SecretSigned<U128> = x.mul_wide_public(&y);
    assert!(svw(&r) == vw);
    assert!(r.bound() >= x.bound() + y.bound());
    reached!(v < 0 && w > 0, "mixed signs");
}

#[kani::unwind(70)]
fn c01_mul_wide_deep() {
    let (x, v) = any_sec();
    let (y, w) = any_pub();
    let vw = pow2(v, w);
    let r: SecretSigned<U128> = x.mul_wide_public(&y);
    assert!(svw(&r) == vw);
    assert!(r.bound() >= x.bound() + y.bound());
    reached!(v < 0 && w > 0, "mixed signs");
}

#[kani::unwind(70)]
fn c01_mul_wide2() {
    let (x, v) = any_sec();
    let (y, w) = any_pub();
    narrow(v, 6);
    narrow(w, 6);
    let r: SecretSigned<U128> = x.mul_wide_public(&y);
    assert!(svw(&r) == v * w);
    reached!(v < 0 && w < 0, "negative signs");
}

#[kani::unwind(70)]
fn c01_to_wide() {
    let (x, v) = any_sec();
    let w: SecretSigned<U128> = x.to_wide();
    assert!(svw(&w) == v && w.bound() >= x.bound());
    let (y, u) = any_pub();
    let w: PublicSigned<U128> = y.to_wide();
    assert!(pvw(&w) == u && w.bound() >= y.bound());
    reached!(v < 0 && u < 0, "negative");
}

#[kani::unwind(70)]
fn c01_extend() {
    let a = nd::u64_();
    let b = nd::u128_();
    let w: U128 = U64::from(a).to_wide();
    assert!(u128::from(w) == a as u128);
    let n = <U64 as Extendable<U128>>::try_from_wide(&U128::from(b));
    assert!(n.is_some() == (b <= u64::MAX as u128));
    if let Some(n) = n { assert!(u64::from(n) as u128 == b); reached!("fits"); }
}

/// Wide products: any 64-bit operand by any power of two, and two 6-bit operands.
#[kani::unwind(70)]
fn c01_mul_extend() {
    let a = nd::u64_();
    let k = nd::u32_();
    nd::assume(k < 64);
    let p: U128 = U64::from(a).mul_wide(&U64::from(1u64 << k));
    assert!(u128::from(p) == (a as u128) << k);
    let p: U128 = U64::from(1u64 << k).mul_wide(&U64::from(a));
    assert!(u128::from(p) == (a as u128) << k);
    let b = nd::u8_() & 63;
    let c = nd::u8_() & 63;
    let p: U128 = U64::from(b as u64).mul_wide(&U64::from(c as u64));
    assert!(u128::from(p) == (b as u128) * (c as u128));
    reached!("end");
}

#[kani::unwind(70)]
fn c01_unsigned() {
    let a = nd::u64_();
    let bound = nd::u32_();
    let x = opt(SecretUnsigned::new(sec(a), bound));
    assert!(x.is_some() == (bound <= 64 && (a as u128) < (1u128 << (if bound > 64 { 64 } else { bound }))));
    if let Some(x) = x {
        assert!(u64::from(*x.expose_secret()) == a && x.bound() == bound);
        assert!(bool::from(x.is_zero()) == (a == 0));
        let w: SecretUnsigned<U128> = x.to_wide();
        assert!(u128::from(*w.expose_secret()) == a as u128 && w.bound() >= bound);
        let mask = nd::u64_();
        let m = &x & U64::from(mask);
        assert!(u64::from(*m.expose_secret()) == a & mask);
        reached!("accepted");
    }
}

#[kani::unwind(70)]
fn c01_unsigned_add_mod() {
    let a = nd::u64_();
    let b = nd::u64_();
    let m = nd::u64_();
    nd::assume(a < m && b < m);
    let x = opt(SecretUnsigned::new(sec(a), 64)).unwrap();
    let y = opt(SecretUnsigned::new(sec(b), 64)).unwrap();
    let modulus = Secret::init_with(|| NonZero::new(U64::from(m)).unwrap());
    let r = x.add_mod(&y, &modulus);
    let got = u64::from(*r.expose_secret()) as u128;
    assert!(got == (a as u128 + b as u128) % (m as u128));
    assert!(r.bound() <= 64 && got < (1u128 << r.bound()));
    reached!("end");
}

/// Exponentiation uses exactly the signed value of the exponent.
#[kani::unwind(70)]
fn c01_pow() {
    let (x, v) = any_sec();
    let (y, w) = any_pub();
    let a = nd::u64_();
    let ub = nd::u32_();
    nd::assume(ub <= 64 && (a as u128) < (1u128 << ub));
    let u = opt(SecretUnsigned::new(sec(a), ub)).unwrap();
    let g = Log(1);
    let rx: Log = Exponentiable::pow(&g, &x);
    let ry: Log = Exponentiable::pow(&g, &y);
    let ru: Log = Exponentiable::pow(&g, &u);
    assert!(rx.0 == v as u64);
    assert!(ry.0 == w as u64);
    assert!(ru.0 == a);
    reached!(v < 0 && w < 0, "negative");
}

}
