//! Tracked integers and residues: every value is a crypto-bigint value plus the node of the term that made it.
use core::fmt::Debug;
use core::ops::*;
use crypto_bigint::modular::{MontyForm, MontyParams, Retrieve};
use crypto_bigint::rand_core::{CryptoRngCore, RngCore};
use crypto_bigint::subtle::*;
use crypto_bigint::*;
use zeroize::Zeroize;

use super::rec;
use crate::uint::{BoxedEncoding, Extendable, MulWide};

use std::{boxed::Box, format, string::{String, ToString}, vec, vec::Vec};
fn be<const L: usize>(v: &Uint<L>) -> Vec<u8> {
    BoxedEncoding::to_be_bytes(v).into_vec()
}

#[derive(Clone, Copy)]
pub struct SU<const L: usize> {
    pub v: Uint<L>,
    pub id: u32,
}

impl<const L: usize> SU<L> {
    pub fn k(v: Uint<L>) -> Self {
        Self { v, id: 0 }
    }
    pub fn ty() -> String {
        format!("u{}", 64 * L)
    }
    pub fn node(&self) -> u32 {
        if self.id != 0 {
            self.id
        } else {
            rec::konst(&Self::ty(), &be(&self.v))
        }
    }
    fn mk(op: &str, v: Uint<L>, args: &[u32], extra: &str) -> Self {
        Self { v, id: rec::node(op, &Self::ty(), args, &be(&v), extra) }
    }
    fn op1(&self, op: &str, v: Uint<L>, extra: &str) -> Self {
        if self.id == 0 {
            return Self::k(v);
        }
        Self::mk(op, v, &[self.id], extra)
    }
    fn op2(&self, op: &str, rhs: &Self, v: Uint<L>) -> Self {
        if self.id == 0 && rhs.id == 0 {
            return Self::k(v);
        }
        Self::mk(op, v, &[self.node(), rhs.node()], "")
    }
    fn op3(&self, op: &str, rhs: &Self, m: &Self, v: Uint<L>) -> Self {
        if self.id == 0 && rhs.id == 0 && m.id == 0 {
            return Self::k(v);
        }
        Self::mk(op, v, &[self.node(), rhs.node(), m.node()], "")
    }
    fn ev(&self, kind: &str, rhs: &Self, res: bool) {
        if (self.id != 0 || rhs.id != 0) && !(self.id == rhs.id) {
            rec::event(kind, &[self.node(), rhs.node()], res, "")
        }
    }
    fn ev1(&self, kind: &str, res: bool, extra: &str) {
        if self.id != 0 {
            rec::event(kind, &[self.id], res, extra)
        }
    }
    /// A value built from bytes: the term registered for the value, or a new unknown.
    pub fn of_bytes(v: Uint<L>) -> Self {
        let b = be(&v);
        if rec::strip(&b).len() < 4 {
            return Self::k(v);
        }
        match rec::lookup(&b) {
            Some((id, ty)) => Self::mk(if ty == "s" { "ofs" } else { "ext" }, v, &[id], ""),
            None => {
                let x = Self::mk("var", v, &[], &rec::fresh_name());
                rec::register(&b, x.id, "u");
                x
            }
        }
    }
}

impl<const L: usize> Debug for SU<L> {
    fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result {
        rec::shown(self.id);
        write!(f, "{:?}", self.v)
    }
}
impl<const L: usize> Default for SU<L> {
    fn default() -> Self {
        Self::k(Uint::ZERO)
    }
}
impl<const L: usize> Zeroize for SU<L> {
    fn zeroize(&mut self) {
        self.v.zeroize();
        self.id = 0;
    }
}
impl<const L: usize> ConstZero for SU<L> {
    const ZERO: Self = Self { v: Uint::ZERO, id: 0 };
}
impl<const L: usize> num_traits::Zero for SU<L> {
    fn zero() -> Self {
        Self::k(Uint::ZERO)
    }
    fn is_zero(&self) -> bool {
        self.ct_eq(&Self::k(Uint::ZERO)).into()
    }
}
impl<const L: usize> Bounded for SU<L> {
    const BITS: u32 = Uint::<L>::BITS;
    const BYTES: usize = Uint::<L>::BYTES;
}
impl<const L: usize> AsRef<[Limb]> for SU<L> {
    fn as_ref(&self) -> &[Limb] {
        self.ev1("limbs", true, "");
        self.v.as_ref()
    }
}
impl<const L: usize> PartialEq for SU<L> {
    fn eq(&self, o: &Self) -> bool {
        let r = self.v == o.v;
        self.ev("eq", o, r);
        r
    }
}
impl<const L: usize> Eq for SU<L> {}
impl<const L: usize> Ord for SU<L> {
    fn cmp(&self, o: &Self) -> core::cmp::Ordering {
        let r = self.v.cmp(&o.v);
        self.ev("lt", o, r.is_lt());
        if !r.is_lt() {
            self.ev("eq", o, r.is_eq());
        }
        r
    }
}
impl<const L: usize> PartialOrd for SU<L> {
    fn partial_cmp(&self, o: &Self) -> Option<core::cmp::Ordering> {
        Some(self.cmp(o))
    }
    fn lt(&self, o: &Self) -> bool {
        let r = self.v < o.v;
        self.ev("lt", o, r);
        r
    }
    fn gt(&self, o: &Self) -> bool {
        o.lt(self)
    }
    fn le(&self, o: &Self) -> bool {
        !o.lt(self)
    }
    fn ge(&self, o: &Self) -> bool {
        !self.lt(o)
    }
}
impl<const L: usize> ConstantTimeEq for SU<L> {
    fn ct_eq(&self, o: &Self) -> Choice {
        Choice::from((self == o) as u8)
    }
}
impl<const L: usize> ConstantTimeGreater for SU<L> {
    fn ct_gt(&self, o: &Self) -> Choice {
        Choice::from((o < self) as u8)
    }
}
impl<const L: usize> ConstantTimeLess for SU<L> {
    fn ct_lt(&self, o: &Self) -> Choice {
        Choice::from((self < o) as u8)
    }
}
impl<const L: usize> ConditionallySelectable for SU<L> {
    fn conditional_select(a: &Self, b: &Self, c: Choice) -> Self {
        if bool::from(c) {
            *b
        } else {
            *a
        }
    }
}

macro_rules! wrapbin {
    ($tr:ident $f:ident $op:literal $w:ident) => {
        impl<const L: usize> $tr for SU<L> {
            fn $f(&self, o: &Self) -> Self {
                self.op2($op, o, self.v.$w(&o.v))
            }
        }
    };
}
wrapbin!(WrappingAdd wrapping_add "add" wrapping_add);
wrapbin!(WrappingSub wrapping_sub "sub" wrapping_sub);
wrapbin!(WrappingMul wrapping_mul "mul" wrapping_mul);
impl<const L: usize> WrappingNeg for SU<L> {
    fn wrapping_neg(&self) -> Self {
        self.op1("neg", self.v.wrapping_neg(), "")
    }
}
impl<const L: usize> WrappingShl for SU<L> {
    fn wrapping_shl(&self, s: u32) -> Self {
        self.op1("shl", self.v.wrapping_shl(s), &s.to_string())
    }
}
impl<const L: usize> WrappingShr for SU<L> {
    fn wrapping_shr(&self, s: u32) -> Self {
        self.op1("shr", self.v.wrapping_shr(s), &s.to_string())
    }
}
impl<const L: usize> ShlVartime for SU<L> {
    fn overflowing_shl_vartime(&self, s: u32) -> CtOption<Self> {
        CtOption::new(self.wrapping_shl_vartime(s), Choice::from((s < Self::BITS) as u8))
    }
    fn wrapping_shl_vartime(&self, s: u32) -> Self {
        self.op1("shl", self.v.wrapping_shl_vartime(s), &s.to_string())
    }
}
impl<const L: usize> ShrVartime for SU<L> {
    fn overflowing_shr_vartime(&self, s: u32) -> CtOption<Self> {
        CtOption::new(self.wrapping_shr_vartime(s), Choice::from((s < Self::BITS) as u8))
    }
    fn wrapping_shr_vartime(&self, s: u32) -> Self {
        self.op1("shr", self.v.wrapping_shr_vartime(s), &s.to_string())
    }
}
macro_rules! binop {
    ($tr:ident $f:ident $ta:ident $fa:ident |$a:ident, $b:ident| $body:expr) => {
        impl<const L: usize> $tr for SU<L> {
            type Output = Self;
            fn $f(self, o: Self) -> Self {
                let ($a, $b) = (&self, &o);
                $body
            }
        }
        impl<'a, const L: usize> $tr<&'a SU<L>> for SU<L> {
            type Output = Self;
            fn $f(self, o: &'a SU<L>) -> Self {
                let ($a, $b) = (&self, o);
                $body
            }
        }
        impl<const L: usize> $ta for SU<L> {
            fn $fa(&mut self, o: Self) {
                *self = $tr::$f(*self, o)
            }
        }
        impl<'a, const L: usize> $ta<&'a SU<L>> for SU<L> {
            fn $fa(&mut self, o: &'a SU<L>) {
                *self = $tr::$f(*self, *o)
            }
        }
    };
}
binop!(Add add AddAssign add_assign |a, b| Option::<Self>::from(CheckedAdd::checked_add(a, b)).expect("attempted to add with overflow"));
binop!(Sub sub SubAssign sub_assign |a, b| Option::<Self>::from(CheckedSub::checked_sub(a, b)).expect("attempted to subtract with underflow"));
binop!(Mul mul MulAssign mul_assign |a, b| Option::<Self>::from(CheckedMul::checked_mul(a, b)).expect("attempted to multiply with overflow"));
binop!(BitAnd bitand BitAndAssign bitand_assign |a, b| a.op2("and", b, a.v & b.v));
binop!(BitOr bitor BitOrAssign bitor_assign |a, b| a.op2("or", b, a.v | b.v));
binop!(BitXor bitxor BitXorAssign bitxor_assign |a, b| a.op2("xor", b, a.v ^ b.v));
impl<const L: usize> Not for SU<L> {
    type Output = Self;
    fn not(self) -> Self {
        self.op1("not", !self.v, "")
    }
}
macro_rules! shifts {
    ($($t:ty),*) => { $(
        impl<const L: usize> Shl<$t> for SU<L> {
            type Output = Self;
            fn shl(self, s: $t) -> Self { self.op1("shl", self.v << (s as u32), &s.to_string()) }
        }
        impl<const L: usize> ShlAssign<$t> for SU<L> {
            fn shl_assign(&mut self, s: $t) { *self = *self << s }
        }
        impl<const L: usize> Shr<$t> for SU<L> {
            type Output = Self;
            fn shr(self, s: $t) -> Self { self.op1("shr", self.v >> (s as u32), &s.to_string()) }
        }
        impl<const L: usize> ShrAssign<$t> for SU<L> {
            fn shr_assign(&mut self, s: $t) { *self = *self >> s }
        }
    )* };
}
shifts!(u32, i32, usize);
macro_rules! divrem {
    ($tr:ident $f:ident $ta:ident $fa:ident $op:literal) => {
        impl<'a, const L: usize> $tr<&'a NonZero<SU<L>>> for SU<L> {
            type Output = Self;
            fn $f(self, o: &'a NonZero<SU<L>>) -> Self {
                let d: &SU<L> = o.as_ref();
                let n = NonZero::new(d.v).unwrap();
                self.op2($op, d, $tr::$f(self.v, &n))
            }
        }
        impl<const L: usize> $tr<NonZero<SU<L>>> for SU<L> {
            type Output = Self;
            fn $f(self, o: NonZero<SU<L>>) -> Self {
                $tr::$f(self, &o)
            }
        }
        impl<'a, const L: usize> $ta<&'a NonZero<SU<L>>> for SU<L> {
            fn $fa(&mut self, o: &'a NonZero<SU<L>>) {
                *self = $tr::$f(*self, o)
            }
        }
        impl<const L: usize> $ta<NonZero<SU<L>>> for SU<L> {
            fn $fa(&mut self, o: NonZero<SU<L>>) {
                *self = $tr::$f(*self, &o)
            }
        }
    };
}
divrem!(Div div DivAssign div_assign "div");
divrem!(Rem rem RemAssign rem_assign "rem");

macro_rules! checked {
    ($tr:ident $f:ident $op:literal $ev:literal $w:ident) => {
        impl<const L: usize> $tr for SU<L> {
            fn $f(&self, o: &Self) -> CtOption<Self> {
                let r: CtOption<Uint<L>> = $tr::$f(&self.v, &o.v);
                let ok: bool = r.is_some().into();
                if self.id != 0 || o.id != 0 {
                    rec::event($ev, &[self.node(), o.node()], ok, &Self::BITS.to_string());
                }
                CtOption::new(if ok { self.op2($op, o, self.v.$w(&o.v)) } else { Self::k(Uint::ZERO) }, Choice::from(ok as u8))
            }
        }
    };
}
checked!(CheckedAdd checked_add "add" "addok" wrapping_add);
checked!(CheckedSub checked_sub "sub" "subok" wrapping_sub);
checked!(CheckedMul checked_mul "mul" "mulok" wrapping_mul);
impl<const L: usize> CheckedDiv for SU<L> {
    fn checked_div(&self, o: &Self) -> CtOption<Self> {
        let r: CtOption<Uint<L>> = self.v.checked_div(&o.v);
        let ok: bool = r.is_some().into();
        o.ev1("nonzero", ok, "");
        CtOption::new(if ok { self.op2("div", o, r.unwrap()) } else { Self::k(Uint::ZERO) }, Choice::from(ok as u8))
    }
}
impl<const L: usize> AddMod for SU<L> {
    type Output = Self;
    fn add_mod(&self, o: &Self, p: &Self) -> Self {
        self.op3("addm", o, p, self.v.add_mod(&o.v, &p.v))
    }
}
impl<const L: usize> SubMod for SU<L> {
    type Output = Self;
    fn sub_mod(&self, o: &Self, p: &Self) -> Self {
        self.op3("subm", o, p, self.v.sub_mod(&o.v, &p.v))
    }
}
impl<const L: usize> NegMod for SU<L> {
    type Output = Self;
    fn neg_mod(&self, p: &Self) -> Self {
        SU::k(Uint::ZERO).op3("subm", self, p, self.v.neg_mod(&p.v))
    }
}
impl<const L: usize> MulMod for SU<L> {
    type Output = Self;
    fn mul_mod(&self, o: &Self, p: &Self) -> Self {
        self.op3("mulm", o, p, MulMod::mul_mod(&self.v, &o.v, &p.v))
    }
}
impl<const L: usize> SquareRoot for SU<L> {
    fn sqrt(&self) -> Self {
        self.op1("sqrt", self.v.sqrt(), "")
    }
    fn sqrt_vartime(&self) -> Self {
        self.op1("sqrt", self.v.sqrt_vartime(), "")
    }
}
impl<const L: usize> DivRemLimb for SU<L> {
    fn div_rem_limb_with_reciprocal(&self, r: &Reciprocal) -> (Self, Limb) {
        self.ev1("limbs", true, "");
        let (a, b) = self.v.div_rem_limb_with_reciprocal(r);
        (Self::k(a), b)
    }
}
impl<const L: usize> RemLimb for SU<L> {
    fn rem_limb_with_reciprocal(&self, r: &Reciprocal) -> Limb {
        self.ev1("limbs", true, "");
        self.v.rem_limb_with_reciprocal(r)
    }
}
impl<const L: usize> SU<L> {
    fn bitlen(&self) -> u32 {
        let k = self.v.bits_vartime();
        if self.id == 0 || rec::with(|r| r.quiet) > 0 {
            return k;
        }
        let n = rec::with(|r| {
            r.bitq += 1;
            r.bitq
        });
        let over = rec::with(|r| r.inputs.get(&format!("bits{n}")).map(|b| b.iter().fold(0u32, |a, x| a * 256 + *x as u32)));
        let res = over.unwrap_or(k);
        rec::with(|r| {
            r.log.push(format!("B {n} {} {k}", self.id));
            r.last_bits.insert(self.id, res)
        });
        res
    }
    fn bit_(&self, i: u32) -> bool {
        let b = self.v.bit_vartime(i);
        self.ev1("bit", b, &i.to_string());
        b
    }
}
impl<const L: usize> BitOps for SU<L> {
    fn bits_precision(&self) -> u32 {
        Self::BITS
    }
    fn bytes_precision(&self) -> usize {
        Self::BYTES
    }
    fn bit(&self, i: u32) -> Choice {
        Choice::from(self.bit_(i) as u8)
    }
    fn set_bit(&mut self, i: u32, b: Choice) {
        self.set_bit_vartime(i, b.into())
    }
    fn bits(&self) -> u32 {
        self.bitlen()
    }
    fn trailing_zeros(&self) -> u32 {
        self.ev1("limbs", true, "");
        self.v.trailing_zeros()
    }
    fn trailing_ones(&self) -> u32 {
        self.ev1("limbs", true, "");
        self.v.trailing_ones()
    }
    fn leading_zeros(&self) -> u32 {
        Self::BITS - self.bitlen()
    }
    fn bit_vartime(&self, i: u32) -> bool {
        self.bit_(i)
    }
    fn bits_vartime(&self) -> u32 {
        self.bitlen()
    }
    fn set_bit_vartime(&mut self, i: u32, b: bool) {
        let was = self.bit_(i);
        if was != b {
            let p = Self::k(Uint::ONE << i);
            *self = if b { self.wrapping_add(&p) } else { self.wrapping_sub(&p) };
        }
    }
    fn trailing_zeros_vartime(&self) -> u32 {
        self.trailing_zeros()
    }
    fn trailing_ones_vartime(&self) -> u32 {
        self.trailing_ones()
    }
}
macro_rules! from {
    ($($t:ty),*) => { $(impl<const L: usize> From<$t> for SU<L> { fn from(x: $t) -> Self { Self::k(Uint::from(x)) } })* };
}
from!(u8, u16, u32, u64, Limb);
impl<const L: usize> Integer for SU<L> {
    type Monty = SM<L>;
    fn one() -> Self {
        Self::k(Uint::ONE)
    }
    fn from_limb_like(limb: Limb, _: &Self) -> Self {
        Self::k(Uint::from(limb))
    }
    fn nlimbs(&self) -> usize {
        L
    }
    fn is_odd(&self) -> Choice {
        let r = self.v.as_limbs()[0].0 & 1;
        self.ev1("bit", r == 1, "0");
        Choice::from(r as u8)
    }
}
impl<const L: usize> RandomMod for SU<L> {
    fn random_mod(rng: &mut (impl RngCore + ?Sized), m: &NonZero<Self>) -> Self {
        let d: &SU<L> = m.as_ref();
        let gen = Uint::random_mod(rng, &NonZero::new(d.v).unwrap());
        if rec::with(|r| r.quiet) > 0 {
            return Self::k(gen);
        }
        let (name, over) = rec::draw();
        let v = over.map(|b| pad(&b)).unwrap_or(gen);
        assert!(v < d.v, "SCENARIO-INPUT forced draw {name} is too large");
        let x = Self::mk("rand", v, &[d.node()], &name);
        rec::register(&be(&v), x.id, "u");
        x
    }
}
pub fn pad<const L: usize>(b: &[u8]) -> Uint<L> {
    let b = rec::strip(b);
    let mut full = vec![0u8; Uint::<L>::BYTES];
    let n = full.len();
    assert!(b.len() <= n, "SCENARIO-INPUT too large");
    full[n - b.len()..].copy_from_slice(b);
    Uint::from_be_slice(&full)
}
impl<const L: usize> RandomBits for SU<L> {
    fn try_random_bits(rng: &mut (impl RngCore + ?Sized), bits: u32) -> Result<Self, RandomBitsError> {
        let gen = <Uint<L> as RandomBits>::try_random_bits(rng, bits)?;
        if L == 4 {
            if let Some(p) = rec::with(|r| r.primes.as_mut().map(|p| p.pop_front())) {
                return Ok(Self::k(p.map(|b| pad(&b)).unwrap_or(gen)));
            }
        }
        if rec::with(|r| r.quiet) > 0 || bits < 33 {
            return Ok(Self::k(gen));
        }
        let (name, over) = rec::draw();
        let v = over.map(|b| pad(&b)).unwrap_or(gen);
        let x = Self::mk("randbits", v, &[], &format!("{name} {bits}"));
        rec::register(&be(&v), x.id, "u");
        Ok(x)
    }
    fn try_random_bits_with_precision(rng: &mut (impl RngCore + ?Sized), bits: u32, _: u32) -> Result<Self, RandomBitsError> {
        Self::try_random_bits(rng, bits)
    }
}
impl<const L: usize> BoxedEncoding for SU<L> {
    fn to_be_bytes(&self) -> Box<[u8]> {
        let b = be(&self.v);
        rec::register(&b, self.id, "u");
        b.into()
    }
    fn try_from_be_bytes(bytes: &[u8]) -> Result<Self, String> {
        <Uint<L> as BoxedEncoding>::try_from_be_bytes(bytes).map(Self::of_bytes)
    }
}
impl<const L: usize, const W: usize> Extendable<SU<W>> for SU<L> {
    fn to_wide(&self) -> SU<W> {
        let v = self.v.to_wide();
        if self.id == 0 { SU::k(v) } else { SU::mk("ext", v, &[self.id], "") }
    }
    fn try_from_wide(value: &SU<W>) -> Option<Self> {
        let r: Option<Uint<L>> = <Uint<L> as Extendable<Uint<W>>>::try_from_wide(&value.v);
        if value.id != 0 {
            rec::event("fits", &[value.id], r.is_some(), &Self::BITS.to_string());
        }
        r.map(|v| if value.id == 0 { SU::k(v) } else { SU::mk("ext", v, &[value.id], "") })
    }
}
impl<const L: usize, const R: usize, const W: usize> MulWide<SU<R>, SU<W>> for SU<L> {
    fn mul_wide(&self, o: &SU<R>) -> SU<W> {
        let v = <Uint<L> as MulWide<Uint<R>, Uint<W>>>::mul_wide(&self.v, &o.v);
        if self.id == 0 && o.id == 0 { SU::k(v) } else { SU::mk("mulw", v, &[self.node(), o.node()], "") }
    }
}

// ---------------------------------------------------------------- residues

#[derive(Clone, Copy)]
pub struct SP<const L: usize> {
    pub p: MontyParams<L>,
    pub m: SU<L>,
}
impl<const L: usize> Debug for SP<L> {
    fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result {
        write!(f, "{:?}", self.p)
    }
}
impl<const L: usize> PartialEq for SP<L> {
    fn eq(&self, o: &Self) -> bool {
        self.m == o.m
    }
}
impl<const L: usize> Eq for SP<L> {}

#[derive(Clone, Copy)]
pub struct SM<const L: usize> {
    pub v: MontyForm<L>,
    pub q: SP<L>,
    pub id: u32,
}
impl<const L: usize> SM<L> {
    fn raw(v: &MontyForm<L>) -> Vec<u8> {
        be(&v.retrieve())
    }
    fn ty(q: &SP<L>) -> String {
        format!("m{}", q.m.node())
    }
    pub fn node(&self) -> u32 {
        if self.id != 0 { self.id } else { rec::konst(&Self::ty(&self.q), &Self::raw(&self.v)) }
    }
    fn mk(op: &str, v: MontyForm<L>, q: &SP<L>, args: &[u32], extra: &str) -> Self {
        if rec::with(|r| r.quiet) > 0 {
            return Self { v, q: *q, id: 0 };
        }
        Self { v, q: *q, id: rec::node(op, &Self::ty(q), args, &Self::raw(&v), extra) }
    }
    fn op1(&self, op: &str, v: MontyForm<L>) -> Self {
        if self.id == 0 { return Self { v, q: self.q, id: 0 }; }
        Self::mk(op, v, &self.q, &[self.id], "")
    }
    fn op2(&self, op: &str, o: &Self, v: MontyForm<L>) -> Self {
        if rec::with(|r| r.quiet) == 0 && self.q.m.node() != o.q.m.node() {
            let _ = self.q.m == o.q.m;
        }
        if self.id == 0 && o.id == 0 { return Self { v, q: self.q, id: 0 }; }
        Self::mk(op, v, &self.q, &[self.node(), o.node()], "")
    }
}
impl<const L: usize> Debug for SM<L> {
    fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result {
        rec::shown(self.id);
        write!(f, "{:?}", self.v)
    }
}
impl<const L: usize> PartialEq for SM<L> {
    fn eq(&self, o: &Self) -> bool {
        let r = self.v == o.v;
        if (self.id != 0 || o.id != 0) && self.id != o.id {
            rec::event("meq", &[self.node(), o.node()], r, "")
        }
        r
    }
}
impl<const L: usize> Eq for SM<L> {}
impl<const L: usize> ConstantTimeEq for SM<L> {
    fn ct_eq(&self, o: &Self) -> Choice {
        Choice::from((self == o) as u8)
    }
}
impl<const L: usize> Zeroize for SM<L> {
    fn zeroize(&mut self) {
        self.v = MontyForm::zero(self.q.p);
        self.id = 0;
    }
}
impl<const L: usize> ConditionallySelectable for SM<L> {
    fn conditional_select(a: &Self, b: &Self, c: Choice) -> Self {
        if bool::from(c) { *b } else { *a }
    }
}
macro_rules! mbin {
    ($tr:ident $f:ident $ta:ident $fa:ident $op:literal $o:tt) => {
        impl<const L: usize> $tr for SM<L> {
            type Output = Self;
            fn $f(self, o: Self) -> Self { self.op2($op, &o, self.v $o o.v) }
        }
        impl<'a, const L: usize> $tr<&'a SM<L>> for SM<L> {
            type Output = Self;
            fn $f(self, o: &'a SM<L>) -> Self { self.op2($op, o, self.v $o o.v) }
        }
        impl<const L: usize> $ta for SM<L> {
            fn $fa(&mut self, o: Self) { *self = *self $o o }
        }
        impl<'a, const L: usize> $ta<&'a SM<L>> for SM<L> {
            fn $fa(&mut self, o: &'a SM<L>) { *self = *self $o *o }
        }
    };
}
mbin!(Add add AddAssign add_assign "add" +);
mbin!(Sub sub SubAssign sub_assign "sub" -);
mbin!(Mul mul MulAssign mul_assign "mul" *);
impl<const L: usize> Neg for SM<L> {
    type Output = Self;
    fn neg(self) -> Self {
        self.op1("neg", -self.v)
    }
}
impl<'a, const L: usize> Neg for &'a SM<L> {
    type Output = SM<L>;
    fn neg(self) -> SM<L> {
        -*self
    }
}
impl<const L: usize> Square for SM<L> {
    fn square(&self) -> Self {
        self.op1("sq", self.v.square())
    }
}
impl<const L: usize> SquareAssign for SM<L> {
    fn square_assign(&mut self) {
        *self = self.square()
    }
}
impl<const L: usize, const R: usize> PowBoundedExp<SU<R>> for SM<L> {
    fn pow_bounded_exp(&self, e: &SU<R>, bits: u32) -> Self {
        if self.id == 0 && e.id == 0 {
            return Self { v: self.v.pow_bounded_exp(&e.v, bits), q: self.q, id: 0 };
        }
        let own = e.id != 0 && rec::with(|r| r.last_bits.get(&e.id) == Some(&bits));
        if own {
            let v = self.v.pow_bounded_exp(&e.v, Uint::<R>::BITS);
            return Self::mk("pow", v, &self.q, &[self.node(), e.node()], "");
        }
        let v = self.v.pow_bounded_exp(&e.v, bits);
        let fits = e.v.bits_vartime() <= bits;
        if e.id != 0 {
            rec::event("fits", &[e.id], fits, &bits.to_string());
        }
        let extra = if fits { String::new() } else { bits.to_string() };
        Self::mk(if fits { "pow" } else { "powtrunc" }, v, &self.q, &[self.node(), e.node()], &extra)
    }
}
impl<const L: usize> Retrieve for SM<L> {
    type Output = SU<L>;
    fn retrieve(&self) -> SU<L> {
        let v = self.v.retrieve();
        if self.id == 0 { SU::k(v) } else { SU::mk("ret", v, &[self.id], "") }
    }
}
impl<const L: usize> Monty for SM<L> {
    type Integer = SU<L>;
    type Params = SP<L>;
    fn new_params_vartime(m: Odd<SU<L>>) -> SP<L> {
        let s: SU<L> = *m.as_ref();
        SP { p: MontyParams::new_vartime(Odd::new(s.v).unwrap()), m: s }
    }
    fn new(i: SU<L>, q: SP<L>) -> Self {
        let v = MontyForm::new(&i.v, q.p);
        if i.id == 0 && q.m.id == 0 {
            return Self { v, q, id: 0 };
        }
        Self::mk("new", v, &q, &[i.node()], "")
    }
    fn zero(q: SP<L>) -> Self {
        Self { v: MontyForm::zero(q.p), q, id: 0 }
    }
    fn one(q: SP<L>) -> Self {
        Self { v: MontyForm::one(q.p), q, id: 0 }
    }
    fn params(&self) -> &SP<L> {
        &self.q
    }
    fn as_montgomery(&self) -> &SU<L> {
        unimplemented!("as_montgomery")
    }
    fn double(&self) -> Self {
        self.op2("add", self, self.v.double())
    }
    fn div_by_2(&self) -> Self {
        self.op1("half", self.v.div_by_2())
    }
    fn lincomb_vartime(products: &[(&Self, &Self)]) -> Self {
        let mut it = products.iter().map(|(a, b)| **a * **b);
        let first = it.next().unwrap();
        it.fold(first, |x, y| x + y)
    }
}
macro_rules! inv {
    ($($l:literal),*) => { $(
        impl Invert for SM<$l> {
            type Output = CtOption<Self>;
            fn invert(&self) -> CtOption<Self> {
                let r: CtOption<MontyForm<$l>> = Invert::invert(&self.v);
                let ok: bool = r.is_some().into();
                if self.id != 0 { rec::event("unit", &[self.id], ok, "") }
                CtOption::new(if ok { self.op1("inv", r.unwrap()) } else { *self }, Choice::from(ok as u8))
            }
            fn invert_vartime(&self) -> CtOption<Self> { self.invert() }
        }
        impl InvMod for SU<$l> {
            type Output = Self;
            fn inv_mod(&self, p: &Self) -> CtOption<Self> {
                let r: CtOption<Uint<$l>> = InvMod::inv_mod(&self.v, &p.v);
                let ok: bool = r.is_some().into();
                if self.id != 0 || p.id != 0 { rec::event("coprime", &[self.node(), p.node()], ok, "") }
                CtOption::new(if ok { self.op2("invm", p, r.unwrap()) } else { *self }, Choice::from(ok as u8))
            }
        }
        impl Gcd for SU<$l> {
            type Output = Self;
            fn gcd(&self, o: &Self) -> Self { self.op2("gcd", o, Gcd::gcd(&self.v, &o.v)) }
            fn gcd_vartime(&self, o: &Self) -> Self { self.gcd(o) }
        }
    )* };
}
inv!(4, 8, 16);
