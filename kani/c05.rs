//! C05: hash framing, bit strings and digests.
use super::nd;
use crate::tools::bitvec::BitVec;
use crate::tools::hashing::{Chain, Hasher};
use digest::{ExtendableOutput, Update, XofReader};
use rand_core::{CryptoRng, RngCore};

const CAP: usize = 64;
/// A digest that remembers its whole input.
struct Rec {
    buf: [u8; CAP],
    len: usize,
}
impl Default for Rec {
    fn default() -> Self {
        Rec { buf: [0; CAP], len: 0 }
    }
}
impl Update for Rec {
    fn update(&mut self, data: &[u8]) {
        assert!(self.len + data.len() <= CAP);
        for b in data {
            self.buf[self.len] = *b;
            self.len += 1;
        }
    }
}
/// Its output is its input followed by zeros.
struct Out {
    rec: Rec,
    pos: usize,
}
impl XofReader for Out {
    fn read(&mut self, buf: &mut [u8]) {
        for x in buf.iter_mut() {
            *x = self.rec.buf[self.pos];
            self.pos += 1;
        }
    }
}
impl ExtendableOutput for Rec {
    type Reader = Out;
    fn finalize_xof(self) -> Out {
        Out { rec: self, pos: 0 }
    }
}
fn dump(h: Hasher<Rec>) -> ([u8; CAP], usize) {
    let r = h.finalize_to_reader();
    (r.rec.buf, r.rec.len)
}
struct Bytes {
    b: [u8; 4],
}
impl CryptoRng for Bytes {}
impl RngCore for Bytes {
    fn next_u32(&mut self) -> u32 { u32::from_le_bytes(self.b) }
    fn next_u64(&mut self) -> u64 { u32::from_le_bytes(self.b) as u64 }
    fn fill_bytes(&mut self, dest: &mut [u8]) {
        let n = dest.len();
        dest.copy_from_slice(&self.b[..n]);
    }
    fn try_fill_bytes(&mut self, dest: &mut [u8]) -> Result<(), rand_core::Error> {
        self.fill_bytes(dest);
        Ok(())
    }
}
struct Fixed {
    b: [u8; 4],
    pos: usize,
}
impl XofReader for Fixed {
    fn read(&mut self, buf: &mut [u8]) {
        for x in buf.iter_mut() {
            *x = self.b[self.pos];
            self.pos += 1;
        }
    }
}

/// The source of `N` bytes, as reader and as generator.
struct Long<const N: usize> {
    b: [u8; N],
    pos: usize,
}
impl<const N: usize> XofReader for Long<N> {
    fn read(&mut self, buf: &mut [u8]) {
        for x in buf.iter_mut() {
            *x = self.b[self.pos];
            self.pos += 1;
        }
    }
}
impl<const N: usize> CryptoRng for Long<N> {}
impl<const N: usize> RngCore for Long<N> {
    fn next_u32(&mut self) -> u32 {
        let mut b = [0u8; 4];
        self.read(&mut b);
        u32::from_le_bytes(b)
    }
    fn next_u64(&mut self) -> u64 {
        let mut b = [0u8; 8];
        self.read(&mut b);
        u64::from_le_bytes(b)
    }
    fn fill_bytes(&mut self, dest: &mut [u8]) { self.read(dest) }
    fn try_fill_bytes(&mut self, dest: &mut [u8]) -> Result<(), rand_core::Error> {
        self.read(dest);
        Ok(())
    }
}
/// A digest that remembers how its input begins and how long it is.
#[derive(Default)]
struct Head {
    buf: [u8; 16],
    len: usize,
}
impl Update for Head {
    fn update(&mut self, data: &[u8]) {
        let mut i = 0;
        while i < 16 {
            if i >= self.len && i - self.len < data.len() {
                self.buf[i] = data[i - self.len];
            }
            i += 1;
        }
        self.len += data.len();
    }
}
impl ExtendableOutput for Head {
    type Reader = HeadOut;
    fn finalize_xof(self) -> HeadOut { HeadOut(self) }
}
struct HeadOut(Head);
impl XofReader for HeadOut {
    fn read(&mut self, _buf: &mut [u8]) {}
}
const LONG: usize = 66_000;
static ZEROS: [u8; LONG] = [0; LONG];

fn long_bits(b: &[u8; 34], x: &[bool]) {
    assert!(x.len() == 264);
    let mut i = 0;
    while i < 33 {
        let mut got = 0u8;
        let mut j = 0;
        while j < 8 {
            got = (got << 1) | x[i * 8 + j] as u8;
            j += 1;
        }
        assert!(got == b[i]);
        i += 1;
    }
}

harnesses! {

/// Items of different lengths up to 66,000 bytes have frames neither of which begins the other.
#[kani::unwind(18)]
fn c05_long_frame() {
    let n = nd::u32_() as usize;
    let m = nd::u32_() as usize;
    nd::assume(n <= LONG && m <= LONG && n != m);
    let a = Hasher::<Head>::new_with_dst(&ZEROS[..n]).finalize_to_reader().0;
    let b = Hasher::<Head>::new_with_dst(&ZEROS[..m]).finalize_to_reader().0;
    let mut same = true;
    let mut i = 0;
    while i < 16 { if i < a.len && i < b.len { same = same & (a.buf[i] == b.buf[i]); } i += 1; }
    assert!(!same);
    assert!(a.len >= n && b.len >= m);
    reached!(n > 65_600 && m < 100, "long and short");
    reached!(n > 65_600 && n == m + 65536, "far apart");
}

/// Bit strings longer than a hash block.
#[kani::unwind(270)]
fn c05_bits_long_xof() {
    let b = nd::bytes::<34>();
    let x = BitVec::from_xof_reader(&mut Long { b, pos: 0 }, 264);
    long_bits(&b, x.bits());
    reached!("end");
}
#[kani::unwind(270)]
fn c05_bits_long_rng() {
    let b = nd::bytes::<34>();
    let x = BitVec::random(&mut Long { b, pos: 0 }, 264);
    long_bits(&b, x.bits());
    reached!("end");
}

/// The frames of single items form a prefix code, so sequences of items are uniquely decodable
/// (together with `c05_append`); items of up to 5 bytes.
#[kani::unwind(66)]
fn c05_framing() {
    let a = nd::bytes::<5>();
    let b = nd::bytes::<5>();
    let na = nd::u8_() as usize;
    let nb = nd::u8_() as usize;
    nd::assume(na <= 5 && nb <= 5);
    let (ra, la) = dump(Hasher::<Rec>::new_with_dst(&a[..na]));
    let (rb, lb) = dump(Hasher::<Rec>::new_with_dst(&b[..nb]));
    let l = if la < lb { la } else { lb };
    let mut prefix = true;
    let mut i = 0;
    while i < 20 { if i < l { prefix = prefix & (ra[i] == rb[i]); } i += 1; }
    let mut same = na == nb;
    let mut i = 0;
    while i < 5 { if i < na && i < nb { same = same & (a[i] == b[i]); } i += 1; }
    assert!(la <= 20 && lb <= 20);
    assert!(prefix == same);
    reached!(prefix && na == 5, "equal");
    reached!(!prefix && la == lb, "same length, different");
}

/// Each further item appends its own frame and nothing else.
#[kani::unwind(66)]
fn c05_append() {
    let d = nd::bytes::<2>();
    let a = nd::bytes::<3>();
    for (nd_, na) in [(0usize, 3usize), (2, 1), (2, 0)] {
        let (rd, ld) = dump(Hasher::<Rec>::new_with_dst(&d[..nd_]));
        let (ra, la) = dump(Hasher::<Rec>::new_with_dst(&a[..na]));
        let (r, l) = dump(Hasher::<Rec>::new_with_dst(&d[..nd_]).chain_bytes(&a[..na]));
        assert!(l == ld + la);
        let mut i = 0;
        while i < ld { assert!(r[i] == rd[i]); i += 1; }
        let mut i = 0;
        while i < la { assert!(r[ld + i] == ra[i]); i += 1; }
    }
    reached!("end");
}

/// The whole item reaches the hash, after its length.
#[kani::unwind(66)]
fn c05_whole_item() {
    let d = nd::bytes::<20>();
    let n = nd::u8_() as usize;
    nd::assume(n <= 20);
    let (b, l) = dump(Hasher::<Rec>::new_with_dst(b"").chain_bytes(&d[..n]));
    assert!(l >= n + 8);
    let mut i = 0;
    while i < 20 { if i < n { assert!(b[l - n + i] == d[i]); } i += 1; }
    reached!(n == 20, "all");
}

/// A digest has twice the requested security bits (rounded up to bytes), taken from the start of the output.
#[kani::unwind(66)]
fn c05_digest_length() {
    let d = nd::bytes::<4>();
    let (buf, _) = dump(Hasher::<Rec>::new_with_dst(&d));
    for bits in [0usize, 1, 4, 5, 16, 17, 40] {
        let out = Hasher::<Rec>::new_with_dst(&d).finalize(bits);
        let v = super::wire::to_wire(&out);
        assert!(v.len == (2 * bits + 7) / 8);
        let mut i = 0;
        while i < v.len { assert!(v.bytes[i] == buf[i]); i += 1; }
    }
    reached!("end");
}

/// Hash- or source-derived bit strings take each requested bit, most significant first.
#[kani::unwind(40)]
fn c05_bits() {
    let b = nd::bytes::<4>();
    for n in [0usize, 1, 7, 8, 9, 17, 28] {
        let x = BitVec::from_xof_reader(&mut Fixed { b, pos: 0 }, n);
        let y = BitVec::random(&mut Bytes { b }, n);
        assert!(x.bits().len() == n && y.bits().len() == n);
        let mut i = 0;
        while i < n {
            let e = (b[i / 8] >> (7 - i % 8)) & 1 == 1;
            assert!(x.bits()[i] == e && y.bits()[i] == e);
            i += 1;
        }
    }
    reached!("end");
}

/// Xor of bit strings is bitwise.
#[kani::unwind(40)]
fn c05_xor() {
    let b = nd::bytes::<4>();
    let c = nd::bytes::<4>();
    for n in [0usize, 1, 8, 11] {
        let mut x = BitVec::from_xof_reader(&mut Fixed { b, pos: 0 }, n);
        let y = BitVec::from_xof_reader(&mut Fixed { b: c, pos: 0 }, n);
        let x0 = x.clone();
        x ^= &y;
        assert!(x.bits().len() == n);
        let mut i = 0;
        while i < n {
            assert!(x.bits()[i] == (x0.bits()[i] ^ y.bits()[i]));
            i += 1;
        }
    }
    reached!("end");
}

}
