//! C14: additive splitting of a scalar (32-bit test curve).
use super::nd;
use crate::curve::{secret_split, Scalar};
use crate::dev::TestParams;
use crate::tools::Secret;
use rand_core::{CryptoRng, RngCore};

type S = Scalar<TestParams>;
/// Delivers given numbers; every one is accepted as a non-zero scalar (rejection is outside the bound).
#[derive(Clone)]
struct Src {
    w: [u32; 4],
    pos: usize,
}
impl CryptoRng for Src {}
impl RngCore for Src {
    fn next_u32(&mut self) -> u32 {
        let r = self.w[self.pos];
        self.pos += 1;
        r
    }
    fn next_u64(&mut self) -> u64 {
        self.next_u32() as u64
    }
    fn fill_bytes(&mut self, dest: &mut [u8]) {
        // the number, big endian, in the last four bytes
        let n = dest.len();
        let b = self.next_u32().to_be_bytes();
        for x in dest.iter_mut() { *x = 0; }
        let mut i = 0;
        while i < 4 && i < n { dest[n - 1 - i] = b[3 - i]; i += 1; }
    }
    fn try_fill_bytes(&mut self, dest: &mut [u8]) -> Result<(), rand_core::Error> {
        self.fill_bytes(dest);
        Ok(())
    }
}
fn any_scalar() -> S {
    let v = nd::u32_();
    nd::assume(v < 0xf000_0000);
    S::from(v as u64)
}
fn split(num: usize) {
    let x = any_scalar();
    let mut src = Src { w: [nd::u32_(), nd::u32_(), nd::u32_(), nd::u32_()], pos: 0 };
    for w in src.w { nd::assume(w > 0 && w < 0xf000_0000); }
    let mut again = src.clone();
    let parts = secret_split::<TestParams>(&mut src, Secret::init_with(|| x), num);
    assert!(parts.len() == num);
    let mut sum = S::ZERO;
    for p in parts.iter() { sum = sum + *p.expose_secret(); }
    assert!(sum == x);
    // all parts but one are the randomness itself
    let mut i = 0;
    let mut skipped = 0;
    let mut draws = [S::ZERO; 4];
    while i + 1 < num { draws[i] = S::random_nonzero(&mut again); i += 1; }
    let mut i = 0;
    while i < num {
        if skipped == 0 && (i + 1 == num || *parts[i].expose_secret() != draws[i]) { skipped = 1; }
        else { assert!(*parts[i].expose_secret() == draws[i - skipped]); }
        i += 1;
    }
    assert!(src.pos == again.pos);
    reached!("end");
}

harnesses! {

#[kani::unwind(14)]
fn c14_one() { split(1); }
#[kani::unwind(14)]
fn c14_two() { split(2); }
#[kani::unwind(14)]
fn c14_three() { split(3); }
#[kani::unwind(14)]
fn c14_four_deep() { split(4); }

}
