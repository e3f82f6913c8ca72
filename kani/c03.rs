//! C03: wire forms round-trip and malformed ones are rejected.  T = U64 / U128; TinyCurve32 scalars.
use super::nd;
use super::wire::*;
use crate::curve::Scalar;
use crate::dev::TestParams;
use crate::tools::bitvec::BitVec;
use crate::tools::Secret;
use crate::uint::*;
use crypto_bigint::{U128, U64};
use digest::XofReader;

struct Fixed {
    b: [u8; 4],
    pos: usize,
}
impl XofReader for Fixed {
    fn read(&mut self, buf: &mut [u8]) {
        for x in buf.iter_mut() {
            *x = self.b[self.pos];
            self.pos += 1;
        }
    }
}
fn same(a: &Wire, b: &Wire) -> bool {
    let mut eq = a.num == b.num && a.flag == b.flag && a.len == b.len;
    let mut i = 0;
    while i < CAP { eq = eq & (a.bytes[i] == b.bytes[i]); i += 1; }
    eq
}
fn be(w: &Wire) -> u128 {
    let mut v: u128 = 0;
    let mut i = 0;
    while i < w.len { v = (v << 8) | w.bytes[i] as u128; i += 1; }
    v
}
/// Arbitrary wire content of `len` bytes.
fn any_wire(len: usize) -> Wire {
    let mut w = Wire::new();
    w.num = nd::u32_();
    w.flag = nd::bool_();
    w.len = len;
    let mut i = 0;
    while i < len { w.bytes[i] = nd::u8_(); i += 1; }
    w
}
fn signed_rt(bound: u32) {
    let raw = nd::u64_();
    if let Some(x) = PublicSigned::new_from_unsigned(U64::from(raw), bound) {
        let w = to_wire(&x);
        let y: Option<PublicSigned<U64>> = from_wire(&w);
        assert!(y.is_some());
        let y = y.unwrap();
        assert!(y.value() == x.value() && y.bound() == x.bound() && y == x);
        // equal values have equal encodings
        assert!(same(&w, &to_wire(&y)));
        reached!("round trip");
    }
}
fn signed_mal(len: usize) {
    let w = any_wire(len);
    let y: Option<PublicSigned<U64>> = from_wire(&w);
    let v = be(&w);
    let denotes = len <= 8 && w.num < 64 && v < (1u128 << (if w.num < 64 { w.num } else { 64 }));
    assert!(y.is_none() || denotes);
    if let Some(y) = y {
        let got = u64::from(*y.value()) as i64 as i128;
        assert!(got == if w.flag { -(v as i128) } else { v as i128 });
        assert!(y.bound() == w.num);
        reached!("accepted");
    }
}
fn bits_rt(n: usize) {
    let b = nd::bytes::<4>();
    let x = BitVec::from_xof_reader(&mut Fixed { b, pos: 0 }, n);
    let w = to_wire(&x);
    let y: Option<BitVec> = from_wire(&w);
    assert!(y.is_some());
    let y = y.unwrap();
    assert!(y.bits().len() == n);
    let mut i = 0;
    while i < n { assert!(y.bits()[i] == x.bits()[i]); i += 1; }
    assert!(same(&w, &to_wire(&y)));
}

harnesses! {

#[kani::unwind(56)]
#[kani::stub(alloc::fmt::format, super::nd::no_format)]
fn c03_signed_small() {
    for bound in [0u32, 1, 7] { signed_rt(bound); }
}
#[kani::unwind(56)]
#[kani::stub(alloc::fmt::format, super::nd::no_format)]
fn c03_signed_byte() {
    for bound in [8u32, 9] { signed_rt(bound); }
}
#[kani::unwind(56)]
#[kani::stub(alloc::fmt::format, super::nd::no_format)]
fn c03_signed_large() {
    for bound in [56u32, 57, 63] { signed_rt(bound); }
}
#[kani::unwind(56)]
#[kani::stub(alloc::fmt::format, super::nd::no_format)]
fn c03_signed_malformed() {
    for len in [0usize, 1, 2, 8] { signed_mal(len); }
}
#[kani::unwind(56)]
#[kani::stub(alloc::fmt::format, super::nd::no_format)]
fn c03_signed_too_long() {
    for len in [9usize, 16] {
        let w = any_wire(len);
        let y: Option<PublicSigned<U64>> = from_wire(&w);
        assert!(y.is_none());
    }
    reached!("end");
}

#[kani::unwind(56)]
#[kani::stub(alloc::fmt::format, super::nd::no_format)]
fn c03_uint() {
    let a = nd::u64_();
    let b = nd::u64_();
    let x = U64::from(a);
    let wa = to_wire(&PublicUint::from(x));
    assert!(wa.len == 8 && be(&wa) == a as u128);
    let y: Option<PublicUint<U64>> = from_wire(&wa);
    assert!(y.is_some());
    assert!(y.unwrap().inner() == x);
    let wb = to_wire(&PublicUint::from(U64::from(b)));
    assert!(same(&wa, &wb) == (a == b));
    let s = Secret::init_with(|| x);
    let ws = to_wire(&s);
    assert!(same(&ws, &wa));
    let z: Option<Secret<U64>> = from_wire(&ws);
    assert!(z.is_some());
    assert!(*z.unwrap().expose_secret() == x);
    reached!("end");
}

#[kani::unwind(56)]
#[kani::stub(alloc::fmt::format, super::nd::no_format)]
fn c03_uint_wide() {
    let a = nd::u128_();
    let x = U128::from(a);
    let w = to_wire(&PublicUint::from(x));
    assert!(w.len == 16 && be(&w) == a);
    let y: Option<PublicUint<U128>> = from_wire(&w);
    assert!(y.is_some());
    assert!(y.unwrap().inner() == x);
    reached!("end");
}

#[kani::unwind(56)]
#[kani::stub(alloc::fmt::format, super::nd::no_format)]
fn c03_uint_malformed() {
    for len in [0usize, 1, 7, 9, 16] {
        let w = any_wire(len);
        let y: Option<PublicUint<U64>> = from_wire(&w);
        assert!(y.is_none());
        let y: Option<Secret<U64>> = from_wire(&w);
        assert!(y.is_none());
    }
    reached!("end");
}

#[kani::unwind(56)]
#[kani::stub(alloc::fmt::format, super::nd::no_format)]
fn c03_bits() {
    for n in [0usize, 1, 7, 8] { bits_rt(n); }
    reached!("end");
}
#[kani::unwind(56)]
#[kani::stub(alloc::fmt::format, super::nd::no_format)]
fn c03_bits_long() {
    for n in [9usize, 16, 23] { bits_rt(n); }
    reached!("end");
}

/// A bit string that declares more bits than it carries is refused; otherwise exactly the declared bits are taken.
#[kani::unwind(56)]
#[kani::stub(alloc::fmt::format, super::nd::no_format)]
fn c03_bits_malformed() {
    for len in [0usize, 1, 2] {
        for num in [0u32, 1, 8, 9, 16, 17] {
            let mut w = any_wire(len);
            w.num = num;
            let y: Option<BitVec> = from_wire(&w);
            if num as usize > 8 * len { assert!(y.is_none()); }
            if let Some(y) = y {
                assert!(y.bits().len() == num as usize);
                let mut i = 0;
                while i < num as usize {
                    assert!(y.bits()[i] == ((w.bytes[i / 8] >> (7 - i % 8)) & 1 == 1));
                    i += 1;
                }
            }
        }
    }
    reached!("end");
}
#[kani::unwind(56)]
#[kani::stub(alloc::fmt::format, super::nd::no_format)]
fn c03_bits_absurd() {
    for num in [17u32, 1000, u32::MAX] {
        let mut w = any_wire(2);
        w.num = num;
        let y: Option<BitVec> = from_wire(&w);
        assert!(y.is_none());
    }
    reached!("end");
}

/// Scalars: accepted iff below the order and of the right length.
#[kani::unwind(56)]
#[kani::stub(alloc::fmt::format, super::nd::no_format)]
fn c03_scalar() {
    let n = Scalar::<TestParams>::repr_len();
    assert!(n <= CAP);
    let mut w = Wire::new();
    w.len = n;
    let mut i = 0;
    while i < n { w.bytes[i] = nd::u8_(); i += 1; }
    let minus_one = (-Scalar::<TestParams>::ONE).to_be_bytes();
    let mut max: u128 = 0;
    for b in minus_one.iter() { max = (max << 8) | *b as u128; }
    let mut hi = 0u8;
    let mut v: u128 = 0;
    let mut i = 0;
    while i < n { if i + 8 < n { hi |= w.bytes[i]; } else { v = (v << 8) | w.bytes[i] as u128; } i += 1; }
    let y: Option<Scalar<TestParams>> = from_wire(&w);
    assert!(y.is_some() == (hi == 0 && v <= max));
    if let Some(y) = y {
        let w2 = to_wire(&y);
        assert!(same(&w, &w2));
        reached!(v == max, "largest");
        let s: Option<Secret<Scalar<TestParams>>> = from_wire(&w);
        assert!(s.is_some());
        let s = s.unwrap();
        assert!(*s.expose_secret() == y);
        assert!(same(&to_wire(&s), &w));
    }
    reached!("end");
}
#[kani::unwind(56)]
#[kani::stub(alloc::fmt::format, super::nd::no_format)]
fn c03_scalar_malformed() {
    let n = Scalar::<TestParams>::repr_len();
    for len in [0usize, n - 1, n + 1, 2 * n] {
        let w = any_wire(len);
        let y: Option<Scalar<TestParams>> = from_wire(&w);
        assert!(y.is_none());
    }
    reached!("end");
}

}
