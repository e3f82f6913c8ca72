//! The tracked curve: TinyCurve64 with every scalar and point carrying the term that made it.
use std::{boxed::Box, format, string::{String, ToString}, vec, vec::Vec, println};
use core::fmt::Debug;
use core::iter::{Product, Sum};
use core::ops::*;
use ecdsa::hazmat::{DigestPrimitive, SignPrimitive, VerifyPrimitive};
use elliptic_curve::bigint::ArrayEncoding;
use elliptic_curve::generic_array::GenericArray;
use elliptic_curve::group::{self, Curve as _, Group};
use elliptic_curve::ops::{Invert, LinearCombination, MulByGenerator, Reduce, ShrAssign};
use elliptic_curve::point::{AffineCoordinates, DecompressPoint, PointCompression};
use elliptic_curve::scalar::{FromUintUnchecked, IsHigh};
use elliptic_curve::sec1::{EncodedPoint, FromEncodedPoint, ToEncodedPoint};
use elliptic_curve::subtle::*;
use elliptic_curve::{Curve, CurveArithmetic, Field, FieldBytes, FieldBytesEncoding, PrimeCurve, PrimeField, ScalarPrimitive};
use rand_core::RngCore;
use tiny_curve::TinyCurve64 as T;

use super::rec;

type FS = <T as CurveArithmetic>::Scalar;
type FA = <T as CurveArithmetic>::AffinePoint;
type FP = <T as CurveArithmetic>::ProjectivePoint;
type U = elliptic_curve::bigint::U192;

#[derive(Debug, Clone, Copy, Default, PartialEq, Eq, PartialOrd, Ord)]
pub struct SymCurve;
impl Curve for SymCurve {
    type FieldBytesSize = <T as Curve>::FieldBytesSize;
    type Uint = U;
    const ORDER: U = T::ORDER;
}
impl FieldBytesEncoding<SymCurve> for U {}
impl PrimeCurve for SymCurve {}
impl CurveArithmetic for SymCurve {
    type Scalar = SS;
    type AffinePoint = SA;
    type ProjectivePoint = SPt;
}
impl PointCompression for SymCurve {
    const COMPRESS_POINTS: bool = true;
}
impl DigestPrimitive for SymCurve {
    type Digest = <T as DigestPrimitive>::Digest;
}
impl VerifyPrimitive<SymCurve> for SA {}
impl SignPrimitive<SymCurve> for SS {}

// ---------------------------------------------------------------- scalars
#[derive(Clone, Copy, Default)]
pub struct SS {
    pub v: FS,
    pub id: u32,
}
fn sb(v: &FS) -> Vec<u8> {
    v.to_repr().to_vec()
}
impl SS {
    pub fn k(v: FS) -> Self {
        Self { v, id: 0 }
    }
    pub fn node(&self) -> u32 {
        if self.id != 0 { self.id } else { rec::konst("s", &sb(&self.v)) }
    }
    pub fn mk(op: &str, v: FS, args: &[u32], extra: &str) -> Self {
        Self { v, id: rec::node(op, "s", args, &sb(&v), extra) }
    }
    fn op1(&self, op: &str, v: FS) -> Self {
        if self.id == 0 { Self::k(v) } else { Self::mk(op, v, &[self.id], "") }
    }
    fn op2(&self, op: &str, o: &Self, v: FS) -> Self {
        if self.id == 0 && o.id == 0 { Self::k(v) } else { Self::mk(op, v, &[self.node(), o.node()], "") }
    }
    /// A scalar whose bytes are known: the term registered for the value, or a new unknown.
    fn of(v: FS, raw: &[u8]) -> Self {
        if rec::strip(raw).len() < 4 {
            return Self::k(v);
        }
        match rec::lookup(raw) {
            Some((id, "s")) => Self { v, id },
            Some((id, _)) => Self::mk("sof", v, &[id], ""),
            None => {
                let x = Self::mk("var", v, &[], &rec::fresh_name());
                rec::register(&sb(&v), x.id, "s");
                x
            }
        }
    }
    fn drawn(v: FS, kind: &str) -> Self {
        if rec::with(|r| r.quiet) > 0 {
            return Self::k(v);
        }
        let (name, over) = rec::draw();
        let v = match over {
            Some(b) => {
                let mut full = FieldBytes::<T>::default();
                let b = rec::strip(&b);
                let n = full.len();
                full[n - b.len()..].copy_from_slice(b);
                FS::from_repr_vartime(full).expect("forced scalar draw out of range")
            }
            None => v,
        };
        let x = Self::mk(kind, v, &[], &name);
        rec::register(&sb(&v), x.id, "s");
        x
    }
}
impl Debug for SS {
    fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result {
        rec::shown(self.id);
        write!(f, "{:?}", self.v)
    }
}
impl elliptic_curve::zeroize::DefaultIsZeroes for SS {}
impl AsRef<SS> for SS {
    fn as_ref(&self) -> &SS {
        self
    }
}
impl PartialEq for SS {
    fn eq(&self, o: &Self) -> bool {
        let r = self.v == o.v;
        if (self.id != 0 || o.id != 0) && self.id != o.id {
            rec::event("seq", &[self.node(), o.node()], r, "")
        }
        r
    }
}
impl Eq for SS {}
impl PartialOrd for SS {
    fn partial_cmp(&self, o: &Self) -> Option<core::cmp::Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for SS {
    fn cmp(&self, o: &Self) -> core::cmp::Ordering {
        let r = self.v.cmp(&o.v);
        if (self.id != 0 || o.id != 0) && self.id != o.id {
            rec::event("slt", &[self.node(), o.node()], r.is_lt(), "");
            if !r.is_lt() {
                rec::event("seq", &[self.node(), o.node()], r.is_eq(), "")
            }
        }
        r
    }
}
impl ConstantTimeEq for SS {
    fn ct_eq(&self, o: &Self) -> Choice {
        Choice::from((self == o) as u8)
    }
}
impl ConditionallySelectable for SS {
    fn conditional_select(a: &Self, b: &Self, c: Choice) -> Self {
        if bool::from(c) { *b } else { *a }
    }
}
impl From<ScalarPrimitive<SymCurve>> for SS {
    fn from(p: ScalarPrimitive<SymCurve>) -> Self {
        let raw = p.to_bytes();
        let v = FS::from_repr_vartime(raw).unwrap();
        match rec::lookup(&raw) {
            Some((id, "s")) => Self { v, id },
            Some((id, _)) => Self::mk("sof", v, &[id], ""),
            _ => Self::drawn(v, "srand"),
        }
    }
}
impl From<SS> for ScalarPrimitive<SymCurve> {
    fn from(s: SS) -> Self {
        rec::register(&sb(&s.v), s.id, "s");
        ScalarPrimitive::from_bytes(&s.v.to_repr()).unwrap()
    }
}
impl FromUintUnchecked for SS {
    type Uint = U;
    fn from_uint_unchecked(u: U) -> Self {
        let raw = u.to_be_byte_array();
        let v = FS::from_uint_unchecked(u);
        if rec::with(|r| r.quiet == 0 && core::mem::take(&mut r.hash_read) >= 2) {
            // a scalar made of hash output
            let name = rec::with(|r| {
                let k = v.to_repr().to_vec();
                if let Some(n) = r.hash_vals.get(&k) {
                    return n.clone();
                }
                r.hash_scalars += 1;
                let n = format!("h{}", r.hash_scalars);
                r.hash_vals.insert(k, n.clone());
                n
            });
            return Self::mk("hash", v, &[], &name);
        }
        Self::of(v, &raw)
    }
}
impl From<SS> for FieldBytes<SymCurve> {
    fn from(s: SS) -> Self {
        s.to_repr()
    }
}
impl From<SS> for U {
    fn from(s: SS) -> U {
        rec::register(&sb(&s.v), s.id, "s");
        s.v.into()
    }
}
impl Invert for SS {
    type Output = CtOption<SS>;
    fn invert(&self) -> CtOption<SS> {
        Field::invert(self)
    }
}
impl IsHigh for SS {
    fn is_high(&self) -> Choice {
        let r = self.v.is_high();
        if self.id != 0 {
            rec::event("shigh", &[self.id], r.into(), "")
        }
        r
    }
}
impl Reduce<U> for SS {
    type Bytes = FieldBytes<SymCurve>;
    fn reduce(n: U) -> Self {
        let raw = n.to_be_byte_array();
        Self::of(FS::reduce(n), &raw)
    }
    fn reduce_bytes(b: &FieldBytes<SymCurve>) -> Self {
        Self::of(FS::reduce_bytes(b), b)
    }
}
impl ShrAssign<usize> for SS {
    fn shr_assign(&mut self, _n: usize) {
        unimplemented!("shr of a tracked scalar")
    }
}
macro_rules! sbin {
    ($tr:ident $f:ident $ta:ident $fa:ident $op:literal $o:tt) => {
        impl $tr for SS { type Output = SS; fn $f(self, o: SS) -> SS { self.op2($op, &o, self.v $o o.v) } }
        impl<'a> $tr<&'a SS> for SS { type Output = SS; fn $f(self, o: &'a SS) -> SS { self.op2($op, o, self.v $o o.v) } }
        impl<'a> $tr<SS> for &'a SS { type Output = SS; fn $f(self, o: SS) -> SS { *self $o o } }
        impl<'a, 'b> $tr<&'b SS> for &'a SS { type Output = SS; fn $f(self, o: &'b SS) -> SS { *self $o *o } }
        impl $ta for SS { fn $fa(&mut self, o: SS) { *self = *self $o o } }
        impl<'a> $ta<&'a SS> for SS { fn $fa(&mut self, o: &'a SS) { *self = *self $o *o } }
    };
}
sbin!(Add add AddAssign add_assign "add" +);
sbin!(Sub sub SubAssign sub_assign "sub" -);
sbin!(Mul mul MulAssign mul_assign "mul" *);
impl Neg for SS {
    type Output = SS;
    fn neg(self) -> SS {
        self.op1("neg", -self.v)
    }
}
impl<'a> Neg for &'a SS {
    type Output = SS;
    fn neg(self) -> SS {
        -*self
    }
}
impl Sum for SS {
    fn sum<I: Iterator<Item = Self>>(i: I) -> Self {
        i.fold(SS::ZERO, |a, b| a + b)
    }
}
impl<'a> Sum<&'a SS> for SS {
    fn sum<I: Iterator<Item = &'a SS>>(i: I) -> Self {
        i.fold(SS::ZERO, |a, b| a + b)
    }
}
impl Product for SS {
    fn product<I: Iterator<Item = Self>>(i: I) -> Self {
        i.fold(SS::ONE, |a, b| a * b)
    }
}
impl<'a> Product<&'a SS> for SS {
    fn product<I: Iterator<Item = &'a SS>>(i: I) -> Self {
        i.fold(SS::ONE, |a, b| a * b)
    }
}
impl Field for SS {
    const ZERO: Self = SS { v: FS::ZERO, id: 0 };
    const ONE: Self = SS { v: FS::ONE, id: 0 };
    fn random(rng: impl RngCore) -> Self {
        Self::drawn(<FS as Field>::random(rng), "srand")
    }
    fn square(&self) -> Self {
        *self * *self
    }
    fn double(&self) -> Self {
        *self + *self
    }
    fn invert(&self) -> CtOption<Self> {
        let r: CtOption<FS> = Field::invert(&self.v);
        let ok: bool = r.is_some().into();
        if self.id != 0 {
            rec::event("seq", &[self.id, SS::ZERO.node()], !ok, "")
        }
        CtOption::new(if ok { self.op1("inv", r.unwrap()) } else { SS::ZERO }, Choice::from(ok as u8))
    }
    fn sqrt_ratio(num: &Self, div: &Self) -> (Choice, Self) {
        let (c, v) = FS::sqrt_ratio(&num.v, &div.v);
        (c, Self::k(v))
    }
}
impl From<u64> for SS {
    fn from(x: u64) -> Self {
        let v = FS::from(x);
        if rec::with(|r| r.quiet) == 0 {
            if let Some((id, ty)) = rec::lookup(&x.to_be_bytes()) {
                if rec::strip(&x.to_be_bytes()).len() >= 4 {
                    return if ty == "s" { Self { v, id } } else { Self::mk("sof", v, &[id], "") };
                }
            }
        }
        Self::k(v)
    }
}
impl PrimeField for SS {
    type Repr = FieldBytes<SymCurve>;
    fn from_repr(b: Self::Repr) -> CtOption<Self> {
        let r = FS::from_repr(b);
        let ok: bool = r.is_some().into();
        if let Some((id, ty)) = rec::lookup(&b) {
            if ty != "s" {
                rec::event("srange", &[id], ok, "");
            }
        }
        CtOption::new(if ok { Self::of(r.unwrap(), &b) } else { SS::ZERO }, Choice::from(ok as u8))
    }
    fn to_repr(&self) -> Self::Repr {
        rec::register(&sb(&self.v), self.id, "s");
        self.v.to_repr()
    }
    fn is_odd(&self) -> Choice {
        let r = self.v.is_odd();
        if self.id != 0 {
            rec::event("sodd", &[self.id], r.into(), "")
        }
        r
    }
    const MODULUS: &'static str = FS::MODULUS;
    const NUM_BITS: u32 = FS::NUM_BITS;
    const CAPACITY: u32 = FS::CAPACITY;
    const TWO_INV: Self = SS { v: FS::TWO_INV, id: 0 };
    const MULTIPLICATIVE_GENERATOR: Self = SS { v: FS::MULTIPLICATIVE_GENERATOR, id: 0 };
    const S: u32 = FS::S;
    const ROOT_OF_UNITY: Self = SS { v: FS::ROOT_OF_UNITY, id: 0 };
    const ROOT_OF_UNITY_INV: Self = SS { v: FS::ROOT_OF_UNITY_INV, id: 0 };
    const DELTA: Self = SS { v: FS::DELTA, id: 0 };
}

// ---------------------------------------------------------------- points
#[derive(Clone, Copy)]
pub struct SA {
    pub v: FA,
    pub id: u32,
}
#[derive(Clone, Copy)]
pub struct SPt {
    pub v: FP,
    pub id: u32,
}
fn pb(v: &FA) -> Vec<u8> {
    v.to_encoded_point(true).as_bytes().to_vec()
}
fn pconst(v: &FP) -> u32 {
    if rec::with(|r| r.quiet) > 0 {
        return 0;
    }
    let b = pb(&v.to_affine());
    let key = format!("p:{}", rec::hex(&b));
    if let Some(x) = rec::with(|r| r.consts.get(&key).copied()) {
        return x;
    }
    let op = if *v == FP::generator() { "gen" } else { "const" };
    let id = rec::node(op, "p", &[], &b, "");
    rec::with(|r| r.consts.insert(key, id));
    id
}
impl SPt {
    pub fn default_generator() -> Self {
        <Self as Group>::generator()
    }
    pub fn k(v: FP) -> Self {
        Self { v, id: 0 }
    }
    pub fn node(&self) -> u32 {
        if self.id != 0 { self.id } else { pconst(&self.v) }
    }
    pub fn mk(op: &str, v: FP, args: &[u32], extra: &str) -> Self {
        if rec::with(|r| r.quiet) > 0 {
            return Self::k(v);
        }
        Self { v, id: rec::node(op, "p", args, &pb(&v.to_affine()), extra) }
    }
    fn op2(&self, op: &str, o: &Self, v: FP) -> Self {
        if self.id == 0 && o.id == 0 { Self::k(v) } else { Self::mk(op, v, &[self.node(), o.node()], "") }
    }
}
impl SA {
    fn of(v: FA) -> Self {
        let b = pb(&v);
        if rec::with(|r| r.quiet) > 0 || b.len() < 2 {
            return Self { v, id: 0 };
        }
        if let Some(id) = rec::with(|r| r.pts.get(&b).copied()) {
            return Self { v, id };
        }
        if FP::from(v) == FP::generator() {
            return Self { v, id: 0 };
        }
        let id = rec::node("var", "p", &[], &b, &rec::fresh_name());
        rec::with(|r| r.pts.insert(b, id));
        Self { v, id }
    }
    pub fn register(&self) {
        if self.id != 0 {
            let b = pb(&self.v);
            rec::with(|r| {
                if r.quiet == 0 {
                    r.pts.insert(b, self.id);
                }
            })
        }
    }
}
impl Debug for SA {
    fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result {
        write!(f, "{:?}", pb(&self.v))
    }
}
impl Debug for SPt {
    fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result {
        write!(f, "{:?}", pb(&self.v.to_affine()))
    }
}
impl Default for SA {
    fn default() -> Self {
        Self { v: FA::default(), id: 0 }
    }
}
impl Default for SPt {
    fn default() -> Self {
        Self::k(FP::default())
    }
}
impl elliptic_curve::zeroize::DefaultIsZeroes for SA {}
impl elliptic_curve::zeroize::DefaultIsZeroes for SPt {}
impl PartialEq for SPt {
    fn eq(&self, o: &Self) -> bool {
        let r = self.v == o.v;
        if (self.id != 0 || o.id != 0) && self.id != o.id {
            rec::event("peq", &[self.node(), o.node()], r, "")
        }
        r
    }
}
impl Eq for SPt {}
impl PartialEq for SA {
    fn eq(&self, o: &Self) -> bool {
        SPt::from(*self) == SPt::from(*o)
    }
}
impl Eq for SA {}
impl ConstantTimeEq for SA {
    fn ct_eq(&self, o: &Self) -> Choice {
        Choice::from((self == o) as u8)
    }
}
impl ConstantTimeEq for SPt {
    fn ct_eq(&self, o: &Self) -> Choice {
        Choice::from((self == o) as u8)
    }
}
impl ConditionallySelectable for SA {
    fn conditional_select(a: &Self, b: &Self, c: Choice) -> Self {
        if bool::from(c) { *b } else { *a }
    }
}
impl ConditionallySelectable for SPt {
    fn conditional_select(a: &Self, b: &Self, c: Choice) -> Self {
        if bool::from(c) { *b } else { *a }
    }
}
impl From<SA> for SPt {
    fn from(a: SA) -> Self {
        Self { v: a.v.into(), id: a.id }
    }
}
impl From<SPt> for SA {
    fn from(a: SPt) -> Self {
        Self { v: a.v.to_affine(), id: a.id }
    }
}
impl AffineCoordinates for SA {
    type FieldRepr = FieldBytes<SymCurve>;
    fn x(&self) -> FieldBytes<SymCurve> {
        let x = self.v.x();
        if self.id != 0 {
            let id = rec::node("xcoord", "u192", &[self.id], &x, "");
            rec::register(&x, id, "u");
        }
        x
    }
    fn y_is_odd(&self) -> Choice {
        let r = self.v.y_is_odd();
        if self.id != 0 {
            rec::event("yodd", &[self.id], r.into(), "")
        }
        r
    }
}
impl DecompressPoint<SymCurve> for SA {
    fn decompress(x: &FieldBytes<SymCurve>, y: Choice) -> CtOption<Self> {
        let r = FA::decompress(x, y);
        let ok: bool = r.is_some().into();
        CtOption::new(if ok { SA::of(r.unwrap()) } else { SA::default() }, Choice::from(ok as u8))
    }
}
impl FromEncodedPoint<SymCurve> for SA {
    fn from_encoded_point(p: &EncodedPoint<SymCurve>) -> CtOption<Self> {
        let r = FA::from_encoded_point(p);
        let ok: bool = r.is_some().into();
        CtOption::new(if ok { SA::of(r.unwrap()) } else { SA::default() }, Choice::from(ok as u8))
    }
}
impl ToEncodedPoint<SymCurve> for SA {
    fn to_encoded_point(&self, compress: bool) -> EncodedPoint<SymCurve> {
        self.register();
        self.v.to_encoded_point(compress)
    }
}
impl FromEncodedPoint<SymCurve> for SPt {
    fn from_encoded_point(p: &EncodedPoint<SymCurve>) -> CtOption<Self> {
        SA::from_encoded_point(p).map(|a| a.into())
    }
}
impl ToEncodedPoint<SymCurve> for SPt {
    fn to_encoded_point(&self, compress: bool) -> EncodedPoint<SymCurve> {
        SA::from(*self).to_encoded_point(compress)
    }
}
impl LinearCombination for SPt {}
impl MulByGenerator for SPt {}
impl group::Curve for SPt {
    type AffineRepr = SA;
    fn to_affine(&self) -> SA {
        (*self).into()
    }
}
impl Group for SPt {
    type Scalar = SS;
    fn random(rng: impl RngCore) -> Self {
        Self::k(FP::random(rng))
    }
    fn identity() -> Self {
        Self::k(FP::identity())
    }
    fn generator() -> Self {
        Self::k(FP::generator())
    }
    fn is_identity(&self) -> Choice {
        Choice::from((*self == Self::identity()) as u8)
    }
    fn double(&self) -> Self {
        *self + *self
    }
}
macro_rules! pbin {
    ($tr:ident $f:ident $ta:ident $fa:ident $op:literal $o:tt) => {
        impl $tr for SPt { type Output = SPt; fn $f(self, o: SPt) -> SPt { self.op2($op, &o, self.v $o o.v) } }
        impl<'a> $tr<&'a SPt> for SPt { type Output = SPt; fn $f(self, o: &'a SPt) -> SPt { self.op2($op, o, self.v $o o.v) } }
        impl $tr<SA> for SPt { type Output = SPt; fn $f(self, o: SA) -> SPt { self $o SPt::from(o) } }
        impl<'a> $tr<&'a SA> for SPt { type Output = SPt; fn $f(self, o: &'a SA) -> SPt { self $o SPt::from(*o) } }
        impl $ta for SPt { fn $fa(&mut self, o: SPt) { *self = *self $o o } }
        impl<'a> $ta<&'a SPt> for SPt { fn $fa(&mut self, o: &'a SPt) { *self = *self $o *o } }
        impl $ta<SA> for SPt { fn $fa(&mut self, o: SA) { *self = *self $o SPt::from(o) } }
        impl<'a> $ta<&'a SA> for SPt { fn $fa(&mut self, o: &'a SA) { *self = *self $o SPt::from(*o) } }
    };
}
pbin!(Add add AddAssign add_assign "padd" +);
pbin!(Sub sub SubAssign sub_assign "psub" -);
impl Neg for SPt {
    type Output = SPt;
    fn neg(self) -> SPt {
        if self.id == 0 { Self::k(-self.v) } else { Self::mk("pneg", -self.v, &[self.id], "") }
    }
}
impl Mul<SS> for SPt {
    type Output = SPt;
    fn mul(self, s: SS) -> SPt {
        let v = self.v * s.v;
        if self.id == 0 && s.id == 0 { Self::k(v) } else { Self::mk("pmul", v, &[self.node(), s.node()], "") }
    }
}
impl<'a> Mul<&'a SS> for SPt {
    type Output = SPt;
    fn mul(self, s: &'a SS) -> SPt {
        self * *s
    }
}
impl MulAssign<SS> for SPt {
    fn mul_assign(&mut self, s: SS) {
        *self = *self * s
    }
}
impl<'a> MulAssign<&'a SS> for SPt {
    fn mul_assign(&mut self, s: &'a SS) {
        *self = *self * *s
    }
}
impl Sum for SPt {
    fn sum<I: Iterator<Item = Self>>(i: I) -> Self {
        i.fold(SPt::identity(), |a, b| a + b)
    }
}
impl<'a> Sum<&'a SPt> for SPt {
    fn sum<I: Iterator<Item = &'a SPt>>(i: I) -> Self {
        i.fold(SPt::identity(), |a, b| a + b)
    }
}
