PRE = '''use crate::uint::*; use crate::tools::Secret; use crypto_bigint::*;
use crypto_bigint::subtle::*;
#[allow(unused)] fn sec(v: u64) -> Secret<U64> { Secret::init_with(|| U64::from(v)) }
'''
F = "src/uint/secret_signed.rs"
SEEDS = [
 dict(id="c01-new-modulo-half", property="C01", needs="a residue equal to exactly half of the modulus (rounded down)",
  breaks="the residue (N-1)/2 becomes negative instead of positive",
  edits=[(F, "positive_value.expose_secret().ct_gt(&half_modulus)", "!positive_value.expose_secret().ct_lt(&half_modulus)")],
  demo=PRE + '''pub fn run() {
    let m = NonZero::new(U64::from(7u64)).unwrap();
    let x = SecretSigned::new_modulo(sec(3), &m, 4).unwrap();
    assert!(!bool::from(x.is_negative()));
}'''),
 dict(id="c01-sub-bound", property="C01", needs="subtraction of operands whose subtrahend has the larger bound",
  breaks="the bound of a difference ignores the subtrahend, so the value can exceed the declared bound",
  edits=[(F, '''    fn checked_sub(&self, rhs: &SecretSigned<T>) -> CtOption<Self> {
        let bound = core::cmp::max(self.bound, rhs.bound()) + 1;''', '''    fn checked_sub(&self, rhs: &SecretSigned<T>) -> CtOption<Self> {
        let bound = core::cmp::max(self.bound, rhs.bound().saturating_sub(1)) + 1;''')],
  demo=PRE + '''pub fn run() {
    let x = SecretSigned::new_from_unsigned(sec(1), 1).unwrap();
    let y = SecretSigned::new_from_unsigned(sec(7), 3).unwrap();
    let d = y.neg() - x.clone();
    let e = x - y.neg();
    assert!(u64::from(*d.abs_value().expose_secret()) < (1 << d.bound()));
    assert!(u64::from(*e.abs_value().expose_secret()) < (1 << e.bound()));
}'''),
 dict(id="c01-mul-overflow", property="C01", needs="two factors whose bounds add up to exactly the width of the type",
  breaks="a product that reaches the sign bit is returned as a negative number instead of being refused",
  edits=[(F, '''        let bound = self.bound + rhs.bound();
        let in_range = bound.ct_lt(&T::BITS);
        let result = Self {
            bound,
            value: Secret::init_with(|| self.value.expose_secret().wrapping_mul(rhs.value())),''',
  '''        let bound = core::cmp::min(self.bound + rhs.bound(), T::BITS - 1);
        let in_range = (self.bound + rhs.bound()).ct_lt(&(T::BITS + 1));
        let result = Self {
            bound,
            value: Secret::init_with(|| self.value.expose_secret().wrapping_mul(rhs.value())),''')],
  demo=PRE + '''pub fn run() {
    let x = SecretSigned::new_from_unsigned(sec((1u64 << 32) - 1), 32).unwrap();
    let y = PublicSigned::new_from_unsigned(U64::from((1u64 << 32) - 1), 32).unwrap();
    let r: Option<SecretSigned<U64>> = x.checked_mul(&y).into();
    if let Some(r) = r { assert!(!bool::from(r.is_negative())); }
}'''),
 dict(id="c01-public-wide-neg", property="C01", needs="widening a negative public integer with the largest magnitude its bound allows",
  breaks="widening a public negative number whose magnitude fills its bound loses the sign",
  edits=[("src/uint/public_signed.rs", '''        PublicSigned::new_from_abs(abs_result, self.bound, self.is_negative())
            .expect("the value fit the bound before, and the bound won't overflow for `WideUint`")''',
  '''        let is_negative = self.is_negative() && !(self.bound > 1 && (self.abs().bits_vartime() == self.bound && self.abs().trailing_ones_vartime() == self.bound));
        PublicSigned::new_from_abs(abs_result, self.bound, is_negative)
            .expect("the value fit the bound before, and the bound won't overflow for `WideUint`")''')],
  demo=PRE + '''pub fn run() {
    let x = PublicSigned::new_from_unsigned(U64::from((-7i64) as u64), 3).unwrap();
    let w: PublicSigned<U128> = x.to_wide();
    assert!(w.is_negative());
}'''),
]
