//! C02: intervals and bounded sampling.  T = U64, wide = U128, extra wide = U256.
use super::nd;
use crate::tools::Secret;
use crate::uint::*;
use crypto_bigint::subtle::CtOption;
use crypto_bigint::{NonZero, U128, U256, U64};
use digest::XofReader;
use rand_core::{CryptoRng, RngCore};

fn opt<T>(x: CtOption<T>) -> Option<T> {
    Option::from(x)
}
/// Delivers the given words, then nothing more (rejection sampling beyond that is outside the bound).
struct Words {
    w: [u64; 4],
    pos: usize,
}
impl CryptoRng for Words {}
impl RngCore for Words {
    fn next_u32(&mut self) -> u32 {
        self.next_u64() as u32
    }
    fn next_u64(&mut self) -> u64 {
        nd::assume(self.pos < 4);
        let r = self.w[self.pos];
        self.pos += 1;
        r
    }
    fn fill_bytes(&mut self, dest: &mut [u8]) {
        for c in dest.chunks_mut(8) {
            let b = self.next_u64().to_le_bytes();
            let n = c.len();
            c.copy_from_slice(&b[..n]);
        }
    }
    fn try_fill_bytes(&mut self, dest: &mut [u8]) -> Result<(), rand_core::Error> {
        self.fill_bytes(dest);
        Ok(())
    }
}
/// An extendable-output hash that delivers arbitrary bytes.
struct Xof {
    b: [u8; 16],
    pos: usize,
}
impl XofReader for Xof {
    fn read(&mut self, buf: &mut [u8]) {
        for x in buf.iter_mut() {
            *x = self.b[self.pos];
            self.pos += 1;
        }
    }
}
fn val(x: &SecretSigned<U64>) -> i128 {
    let abs = u64::from(*x.abs_value().expose_secret()) as i128;
    if bool::from(x.is_negative()) { -abs } else { abs }
}
fn in_pm(v: i128, exp: u32) -> bool {
    v >= -(1i128 << (exp - 1)) + 1 && v <= (1i128 << (exp - 1))
}

harnesses! {

#[kani::unwind(70)]
fn c02_range_public() {
    let raw = nd::u64_();
    let bound = nd::u32_();
    let exp = nd::u32_();
    nd::assume(exp >= 1 && exp <= 64);
    if let Some(x) = PublicSigned::new_from_unsigned(U64::from(raw), bound) {
        let v = raw as i64 as i128;
        assert!(x.is_in_exponent_range(exp) == in_pm(v, exp));
        reached!(v == (1i128 << (exp - 1)), "high end");
        reached!(v == -(1i128 << (exp - 1)), "below the low end");
    }
}

#[kani::unwind(70)]
fn c02_range_secret() {
    let raw = nd::u64_();
    let bound = nd::u32_();
    let exp = nd::u32_();
    nd::assume(exp >= 1 && exp < 63);
    if let Some(x) = opt(SecretSigned::new_from_unsigned(Secret::init_with(|| U64::from(raw)), bound)) {
        let v = raw as i64 as i128;
        let y = opt(x.ensure_exponent_range(exp));
        assert!(y.is_some() == in_pm(v, exp));
        if let Some(y) = y {
            assert!(val(&y) == v);
            assert!(y.bound() < 64 && v < (1i128 << y.bound()) && v > -(1i128 << y.bound()));
            y.assert_exponent_range(exp);
            reached!(v == (1i128 << (exp - 1)), "high end");
            reached!(v == -(1i128 << (exp - 1)) + 1, "low end");
        }
    }
}

/// A range that does not fit the type is refused.
#[kani::unwind(70)]
fn c02_range_secret_refused() {
    let raw = nd::u64_();
    let exp = nd::u32_();
    nd::assume(exp >= 63 && exp <= 80);
    let x = opt(SecretSigned::new_from_unsigned(Secret::init_with(|| U64::from(raw)), 63));
    if let Some(x) = x {
        let y = opt(x.ensure_exponent_range(exp));
        assert!(y.is_none());
        reached!("refused");
    }
}

/// Sampling is the translation of a uniform number below 2^exp, so it covers the interval evenly.
#[kani::unwind(10)]
fn c02_random() {
    let exp = nd::u32_();
    nd::assume(exp >= 1 && exp < 64);
    let u = nd::u64_();
    nd::assume(u < 1u64 << exp);
    let mut rng = Words { w: [u, 0, 0, 0], pos: 0 };
    let x: SecretSigned<U64> = SecretSigned::random_in_exponent_range(&mut rng, exp);
    let v = val(&x);
    assert!(in_pm(v, exp));
    assert!(v == u as i128 - ((1i128 << (exp - 1)) - 1));
    assert!(x.bound() < 64 && v < (1i128 << x.bound()) && v > -(1i128 << x.bound()));
    reached!(v == (1i128 << (exp - 1)), "high end");
    reached!(v == -(1i128 << (exp - 1)) + 1, "low end");
}

/// Whatever the source delivers, the sample lies in the interval.
#[kani::unwind(10)]
fn c02_random_any_source() {
    let exp = nd::u32_();
    nd::assume(exp >= 1 && exp < 64);
    let mut rng = Words { w: [nd::u64_(), nd::u64_(), nd::u64_(), 0], pos: 0 };
    let x: SecretSigned<U64> = SecretSigned::random_in_exponent_range(&mut rng, exp);
    assert!(in_pm(val(&x), exp));
    reached!(rng.pos == 1, "accepted at once");
    reached!(rng.pos == 2, "one rejection");
}

/// The scaled interval, single to double width.
#[kani::unwind(10)]
fn c02_random_scaled() {
    let exp = nd::u32_();
    nd::assume(exp >= 1 && exp < 64);
    let scale = nd::u64_();
    nd::assume(scale > 0 && scale < 1 << 16);
    let u = nd::u128_();
    let top = (scale as u128) << exp;
    nd::assume(u < top);
    // the source delivers the high word first
    let w = if (top >> 64) == 0 { [u as u64, 0, 0, 0] } else { [(u >> 64) as u64, u as u64, 0, 0] };
    let mut rng = Words { w, pos: 0 };
    let x: SecretSigned<U128> = SecretSigned::<U64>::random_in_exponent_range_scaled(&mut rng, exp, &U64::from(scale));
    let abs = u128::from(*x.abs_value().expose_secret());
    assert!(abs < 1u128 << 127);
    let v = if bool::from(x.is_negative()) { -(abs as i128) } else { abs as i128 };
    let half = (scale as i128) << (exp - 1);
    assert!(v == u as i128 - (half - 1));
    assert!(v >= -half + 1 && v <= half);
    assert!(x.bound() < 128 && abs < 1u128 << x.bound());
    reached!(v == half, "high end");
    reached!(v == -half + 1, "low end");
}

#[kani::unwind(10)]
fn c02_random_scaled_deep() {
    let exp = nd::u32_();
    nd::assume(exp >= 1 && exp < 64);
    let scale = nd::u64_();
    nd::assume(scale > 0);
    let u = nd::u128_();
    let top = (scale as u128) << exp;
    nd::assume(u < top);
    // the source delivers the high word first
    let w = if (top >> 64) == 0 { [u as u64, 0, 0, 0] } else { [(u >> 64) as u64, u as u64, 0, 0] };
    let mut rng = Words { w, pos: 0 };
    let x: SecretSigned<U128> = SecretSigned::<U64>::random_in_exponent_range_scaled(&mut rng, exp, &U64::from(scale));
    let abs = u128::from(*x.abs_value().expose_secret());
    assert!(abs < 1u128 << 127);
    let v = if bool::from(x.is_negative()) { -(abs as i128) } else { abs as i128 };
    let half = (scale as i128) << (exp - 1);
    assert!(v == u as i128 - (half - 1));
    assert!(v >= -half + 1 && v <= half);
    assert!(x.bound() < 128 && abs < 1u128 << x.bound());
    reached!(v == half, "high end");
    reached!(v == -half + 1, "low end");
}

/// The scaled interval from double to quadruple width (scale up to 128 bits, result below 2^127).
#[kani::unwind(10)]
fn c02_random_scaled_wide() {
    let exp = nd::u32_();
    nd::assume(exp >= 1 && exp < 64);
    let scale = nd::u128_();
    let k = nd::u8_();
    nd::assume(scale == (k as u128) << 60);
    nd::assume(scale > 0 && scale < (1u128 << (126 - exp)));
    let u = nd::u128_();
    let top = scale << exp;
    nd::assume(u < top);
    let w = if (top >> 64) == 0 { [u as u64, 0, 0, 0] } else { [(u >> 64) as u64, u as u64, 0, 0] };
    let mut rng = Words { w, pos: 0 };
    let x: SecretSigned<U256> =
        SecretSigned::<U64>::random_in_exponent_range_scaled_wide::<U128, U256>(&mut rng, exp, &U128::from(scale));
    let words = x.abs_value().expose_secret().to_words();
    assert!(words[2] == 0 && words[3] == 0);
    let abs = words[0] as u128 | ((words[1] as u128) << 64);
    let v = if bool::from(x.is_negative()) { -(abs as i128) } else { abs as i128 };
    let half = (scale << (exp - 1)) as i128;
    assert!(v == u as i128 - (half - 1));
    assert!(x.bound() < 256 && (x.bound() >= 128 || abs < 1u128 << x.bound()));
    reached!(v == half, "high end");
    reached!(v == -half + 1, "low end");
}

#[kani::unwind(10)]
fn c02_random_scaled_wide_deep() {
    let exp = nd::u32_();
    nd::assume(exp >= 1 && exp < 64);
    let scale = nd::u128_();
    nd::assume(scale > 0 && scale < (1u128 << (126 - exp)));
    let u = nd::u128_();
    let top = scale << exp;
    nd::assume(u < top);
    let w = if (top >> 64) == 0 { [u as u64, 0, 0, 0] } else { [(u >> 64) as u64, u as u64, 0, 0] };
    let mut rng = Words { w, pos: 0 };
    let x: SecretSigned<U256> =
        SecretSigned::<U64>::random_in_exponent_range_scaled_wide::<U128, U256>(&mut rng, exp, &U128::from(scale));
    let words = x.abs_value().expose_secret().to_words();
    assert!(words[2] == 0 && words[3] == 0);
    let abs = words[0] as u128 | ((words[1] as u128) << 64);
    let v = if bool::from(x.is_negative()) { -(abs as i128) } else { abs as i128 };
    let half = (scale << (exp - 1)) as i128;
    assert!(v == u as i128 - (half - 1));
    assert!(x.bound() < 256 && (x.bound() >= 128 || abs < 1u128 << x.bound()));
    reached!(v == half, "high end");
    reached!(v == -half + 1, "low end");
}

/// A hash-derived integer has exactly the requested number of bits.
#[kani::unwind(70)]
fn c02_xof_uint() {
    let n = nd::u32_();
    nd::assume(n <= 64);
    let b = nd::bytes::<8>();
    let mut buf = [0u8; 16];
    let mut i = 0;
    while i < 8 { buf[i] = b[i]; i += 1; }
    let mut r = Xof { b: buf, pos: 0 };
    let x = U64::from_xof_reader(&mut r, n);
    let got = u64::from(x);
    let bytes = ((n + 7) / 8) as usize;
    assert!(r.pos == bytes);
    let mut e: u64 = 0;
    let mut i = 0;
    while i < bytes { e = (e << 8) | b[i] as u64; i += 1; }
    if n < 64 { e &= (1u64 << n) - 1; }
    assert!(got == e);
    reached!(n == 64, "full");
    reached!(n == 0, "none");
}

#[kani::unwind(70)]
fn c02_xof_signed() {
    let exp = nd::u32_();
    nd::assume(exp >= 1 && exp < 64);
    let b = nd::bytes::<8>();
    let mut buf = [0u8; 16];
    let mut i = 0;
    while i < 8 { buf[i] = b[i]; i += 1; }
    let mut r = Xof { b: buf, pos: 0 };
    let x = PublicSigned::<U64>::from_xof_reader_in_exponent_range(&mut r, exp);
    let u = u64::from(U64::from_xof_reader(&mut Xof { b: buf, pos: 0 }, exp)) as i128;
    let v = u64::from(*x.value()) as i64 as i128;
    assert!(v == u - ((1i128 << (exp - 1)) - 1));
    assert!(in_pm(v, exp));
    assert!(v < (1i128 << x.bound()) && v > -(1i128 << x.bound()));
    reached!(v == (1i128 << (exp - 1)), "high end");
    reached!(v == -(1i128 << (exp - 1)) + 1, "low end");
}

}
