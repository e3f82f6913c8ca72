//! Scheme parameters over the tracked types, and the programmable random oracle.
use std::{boxed::Box, format, string::{String, ToString}, vec, vec::Vec, println};
use digest::{ExtendableOutput, Update, XofReader};

use super::{crv::SymCurve, int::SU, rec};
use crate::{paillier::PaillierParams, params::SchemeParams};

#[derive(Debug, Copy, Clone, PartialEq, Eq)]
pub struct SymPaillier;
impl PaillierParams for SymPaillier {
    const PRIME_BITS: u32 = 256;
    type HalfUint = SU<4>;
    type Uint = SU<8>;
    type WideUint = SU<16>;
}

#[derive(Debug, Copy, Clone, PartialEq, Eq, PartialOrd, Ord)]
pub struct SymParams;
impl SchemeParams for SymParams {
    type Curve = SymCurve;
    type Digest = Oracle;
    const SECURITY_BITS: usize = 2;
    const SECURITY_PARAMETER: usize = 2;
    const L_BOUND: u32 = 64;
    type Paillier = SymPaillier;
    type ExtraWideUint = SU<20>;
}

#[derive(Default)]
pub struct Oracle {
    parts: Vec<u8>,
    lens: Vec<usize>,
}
impl Update for Oracle {
    fn update(&mut self, b: &[u8]) {
        self.parts.extend_from_slice(b);
        self.lens.push(b.len());
    }
}
pub struct OracleReader {
    prog: Vec<u8>,
    pos: usize,
    rest: <sha3::Shake256 as ExtendableOutput>::Reader,
    n: u32,
}
impl ExtendableOutput for Oracle {
    type Reader = OracleReader;
    fn finalize_xof(self) -> OracleReader {
        let n = rec::with(|r| {
            r.digests += 1;
            r.digests
        });
        // the transcript: chunks with the terms they stand for
        let mut at = 0;
        let mut out = Vec::new();
        for l in &self.lens {
            let c = &self.parts[at..at + l];
            at += l;
            out.push(chunk(c));
        }
        let mut sh = sha3::Shake256::default();
        sh.update(&self.parts);
        let bytes: String = self.parts.iter().map(|x| format!("{x:02x}")).collect();
        let key = (self.parts, self.lens);
        let prog = rec::with(|r| {
            if r.quiet > 0 {
                return Vec::new();
            }
            if let Some(x) = r.answers.get(&key) {
                return x.clone();
            }
            let x = r.oracle.pop_front().unwrap_or_default();
            r.answers.insert(key, x.clone());
            x
        });
        // programmed or not, the bytes, the chunks
        rec::line(format!("T {n} {} {bytes} {}", !prog.is_empty() as u8, out.join(",")));
        OracleReader { prog, pos: 0, rest: sh.finalize_xof(), n }
    }
}
impl XofReader for OracleReader {
    fn read(&mut self, buf: &mut [u8]) {
        for b in buf.iter_mut() {
            if self.pos < self.prog.len() {
                *b = self.prog[self.pos];
                self.pos += 1;
            } else {
                let mut one = [0u8];
                self.rest.read(&mut one);
                *b = one[0];
            }
        }
        rec::with(|r| r.hash_read = if buf.len() == 24 { r.hash_read + 1 } else { 0 });
        rec::line(format!("R {} {}", self.n, buf.iter().map(|x| format!("{x:02x}")).collect::<String>()));
    }
}

pub fn known(b: &[u8]) -> Option<String> {
    if rec::strip(b).len() >= 4 {
        if let Some((id, _)) = rec::lookup(b) {
            return Some(format!("#{id}"));
        }
    }
    rec::with(|r| r.pts.get(b).copied()).map(|id| format!("@{id}"))
}
/// A chunk as `#node/length` (an integer or scalar), `@node/length` (a point) or `=hex` (anything else).
fn chunk(c: &[u8]) -> String {
    if let Some(x) = known(c) {
        return format!("{x}/{}", c.len());
    }
    if let Ok(s) = core::str::from_utf8(c) {
        if s.len() >= 8 && s.len() % 2 == 0 && s.bytes().all(|b| b.is_ascii_hexdigit()) {
            if let Some(x) = known(&rec::unhex(s)) {
                return format!("{x}/{}", c.len());
            }
        }
    }
    format!("={}", c.iter().map(|x| format!("{x:02x}")).collect::<String>())
}
