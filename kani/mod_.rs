//! Mounted into the crate under test as `crate::verif_kani`.
#[path = "nd.rs"]
#[macro_use]
pub mod nd;
#[path = "wire.rs"]
pub mod wire;
#[path = "c01.rs"]
pub mod c01;
#[path = "c02.rs"]
pub mod c02;
#[path = "c03.rs"]
pub mod c03;
#[path = "c14.rs"]
pub mod c14;
#[path = "c05.rs"]
pub mod c05;

#[cfg(not(kani))]
pub fn replay_main() {
    let a: Vec<String> = std::env::args().collect();
    let table = [c01::TABLE, c02::TABLE, c03::TABLE, c05::TABLE, c14::TABLE].concat();
    let failed = nd::replay(&table, &a[1], a.get(2).map(|x| x.as_str()).unwrap_or(""));
    println!("{}", if failed { "REPLAY-FAILED" } else { "REPLAY-HELD" });
    std::process::exit(if failed { 1 } else { 0 });
}
