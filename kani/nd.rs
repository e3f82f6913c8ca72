//! Source of nondeterminism for the harnesses.  Under Kani every value is symbolic; in the replay
//! build the same harness is run natively on the concrete values of a counterexample.
#![allow(dead_code)]

#[cfg(kani)]
mod imp {
    pub fn u8_() -> u8 { kani::any() }
    pub fn u16_() -> u16 { kani::any() }
    pub fn u32_() -> u32 { kani::any() }
    pub fn u64_() -> u64 { kani::any() }
    pub fn u128_() -> u128 { kani::any() }
    pub fn bool_() -> bool { kani::any() }
    pub fn assume(c: bool) { kani::assume(c) }
}

#[cfg(not(kani))]
mod imp {
    use std::cell::RefCell;
    use std::collections::VecDeque;
    thread_local! { pub static VALS: RefCell<VecDeque<Vec<u8>>> = RefCell::new(VecDeque::new()); }
    fn take(n: usize) -> Vec<u8> {
        // values that do not influence the outcome may be absent from the model
        let mut v = VALS.with(|v| v.borrow_mut().pop_front()).unwrap_or_default();
        v.resize(n, 0);
        v
    }
    pub fn u8_() -> u8 { take(1)[0] }
    pub fn u16_() -> u16 { u16::from_le_bytes(take(2).try_into().unwrap()) }
    pub fn u32_() -> u32 { u32::from_le_bytes(take(4).try_into().unwrap()) }
    pub fn u64_() -> u64 { u64::from_le_bytes(take(8).try_into().unwrap()) }
    pub fn u128_() -> u128 { u128::from_le_bytes(take(16).try_into().unwrap()) }
    pub fn bool_() -> bool { take(1)[0] & 1 == 1 }
    pub fn assume(c: bool) {
        if !c {
            println!("REPLAY-ASSUMPTION-FALSE");
            std::process::exit(3);
        }
    }
}

pub use imp::*;

/// `true` with the property that the harness end is reachable (vacuity guard).
#[macro_export]
macro_rules! reached {
    ($msg:literal) => {{
        #[cfg(kani)]
        kani::cover!(true, $msg);
    }};
    ($c:expr, $msg:literal) => {{
        #[cfg(kani)]
        kani::cover!($c, $msg);
    }};
}

/// Declares harnesses: a Kani proof harness each, plus an entry in the replay table.
#[macro_export]
macro_rules! harnesses {
    ($( $(#[$m:meta])* fn $name:ident() $body:block )*) => {
        $( $(#[cfg_attr(kani, $m)])* #[cfg_attr(kani, kani::proof)] pub fn $name() $body )*
        #[cfg(not(kani))]
        pub const TABLE: &[(&str, fn())] = &[ $( (stringify!($name), $name) ),* ];
    };
}

pub fn bytes<const N: usize>() -> [u8; N] {
    let mut r = [0u8; N];
    let mut i = 0;
    while i < N {
        r[i] = u8_();
        i += 1;
    }
    r
}

#[cfg(not(kani))]
pub fn replay(table: &[(&str, fn())], name: &str, vals: &str) -> bool {
    let f = table.iter().find(|(n, _)| *n == name).expect("harness exists").1;
    imp::VALS.with(|v| {
        *v.borrow_mut() = vals
            .split(';')
            .filter(|x| !x.is_empty())
            .map(|x| x.split(',').filter(|y| !y.is_empty()).map(|y| y.trim().parse::<u8>().unwrap()).collect())
            .collect()
    });
    std::panic::catch_unwind(f).is_err()
}

/// Stand-in for `alloc::fmt::format` under Kani: the text of error messages is irrelevant.
#[cfg(kani)]
pub fn no_format(_: core::fmt::Arguments<'_>) -> String {
    String::new()
}
