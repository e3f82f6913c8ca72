//! The recorder: a log of every operation on tracked values, every comparison the code branches on,
//! and a registry from values to the terms that produced them (so terms survive a trip through bytes).
use std::{boxed::Box, format, string::{String, ToString}, vec, vec::Vec, println};
use std::cell::RefCell;
use std::collections::HashMap;

#[derive(Default)]
pub struct Rec {
    pub log: Vec<String>,
    pub next: u32,
    pub quiet: u32,
    /// value (big-endian, without leading zeros) -> (node, type)
    pub vals: HashMap<Vec<u8>, (u32, &'static str)>,
    /// affine point (compressed encoding) -> node
    pub pts: HashMap<Vec<u8>, u32>,
    pub consts: HashMap<String, u32>,
    pub inputs: HashMap<String, Vec<u8>>,
    pub draws: u32,
    pub bitq: u32,
    pub last_bits: HashMap<u32, u32>,
    pub fresh: u32,
    pub digests: u32,
    /// set while a scalar is being made of hash output
    pub hash_read: u32,
    pub hash_scalars: u32,
    /// programmed answers of the random oracle, in order of finalization
    pub oracle: std::collections::VecDeque<Vec<u8>>,
    /// the answers given: a transcript that comes again gets the same one
    pub answers: HashMap<(Vec<u8>, Vec<usize>), Vec<u8>>,
    pub hash_vals: HashMap<Vec<u8>, String>,
    /// starting points for the search for primes, which is not tracked when this is given
    pub primes: Option<std::collections::VecDeque<Vec<u8>>>,
}

thread_local! { pub static REC: RefCell<Rec> = RefCell::new(Rec { next: 1, ..Default::default() }); }

pub fn with<T>(f: impl FnOnce(&mut Rec) -> T) -> T {
    REC.with(|r| f(&mut r.borrow_mut()))
}

pub fn reset() {
    REC.with(|r| *r.borrow_mut() = Rec { next: 1, ..Default::default() })
}

/// A tracked value is printed.
pub fn shown(id: u32) {
    if id != 0 {
        with(|r| {
            if r.quiet == 0 {
                r.log.push(format!("D {id}"))
            }
        })
    }
}

pub fn strip(b: &[u8]) -> &[u8] {
    let n = b.iter().take_while(|x| **x == 0).count();
    &b[n..]
}

pub fn hex(b: &[u8]) -> String {
    let b = strip(b);
    if b.is_empty() {
        return "0".into();
    }
    b.iter().map(|x| format!("{x:02x}")).collect()
}

pub fn unhex(s: &str) -> Vec<u8> {
    let s = if s.len() % 2 == 1 { format!("0{s}") } else { s.to_string() };
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect()
}

/// Logs a node, returns its id (never 0).
pub fn node(op: &str, ty: &str, args: &[u32], val: &[u8], extra: &str) -> u32 {
    with(|r| {
        if r.quiet > 0 {
            return 0;
        }
        assert!(r.log.len() < 40_000, "SCENARIO-INPUT the run does not end");
        let id = r.next;
        r.next += 1;
        let a = args.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",");
        r.log.push(format!("N {id} {op} {ty} {} {} {extra}", if a.is_empty() { "-".into() } else { a }, hex(val)));
        id
    })
}

pub fn konst(ty: &str, val: &[u8]) -> u32 {
    let key = format!("{ty}:{}", hex(val));
    if let Some(x) = with(|r| r.consts.get(&key).copied()) {
        return x;
    }
    let id = node("const", ty, &[], val, "");
    with(|r| {
        if r.quiet == 0 {
            r.consts.insert(key, id);
        }
    });
    id
}

pub fn event(kind: &str, args: &[u32], res: bool, extra: &str) {
    with(|r| {
        if r.quiet == 0 {
            let a = args.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",");
            r.log.push(format!("E {kind} {a} {} {extra}", res as u8))
        }
    })
}

pub fn line(s: String) {
    with(|r| {
        assert!(r.log.len() < 40_000, "SCENARIO-INPUT the run does not end");
        r.log.push(s)
    })
}

pub fn register(val: &[u8], id: u32, ty: &'static str) {
    if id == 0 {
        return;
    }
    let v = strip(val);
    if v.len() < 4 {
        with(|r| {
            if r.quiet == 0 {
                r.log.push(format!("L {id}"))
            }
        });
        return;
    }
    with(|r| {
        if r.quiet == 0 {
            r.vals.insert(v.to_vec(), (id, ty));
        }
    })
}

pub fn lookup(val: &[u8]) -> Option<(u32, &'static str)> {
    with(|r| if r.quiet > 0 { None } else { r.vals.get(strip(val)).copied() })
}

/// The next random draw: the value forced by the inputs, if any, and the name of the draw.
pub fn draw() -> (String, Option<Vec<u8>>) {
    with(|r| {
        let n = format!("rand{}", r.draws);
        r.draws += 1;
        let v = r.inputs.get(&n).cloned();
        (n, v)
    })
}

pub fn fresh_name() -> String {
    with(|r| {
        r.fresh += 1;
        format!("in{}", r.fresh)
    })
}

pub struct Quiet;
impl Quiet {
    pub fn new() -> Self {
        with(|r| r.quiet += 1);
        Quiet
    }
}
impl Drop for Quiet {
    fn drop(&mut self) {
        with(|r| r.quiet -= 1);
    }
}
