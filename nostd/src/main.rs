//! Runs the bit packing checks on the `no-std` flavor of the crate.
#[path = "../../mc/src/bits.rs"]
#[allow(dead_code)]
mod bits;
#[path = "../../mc/src/bitpack.rs"]
mod bitpack;
use acid_io as io;

fn main() {
    let thorough = std::env::args().nth(1).as_deref() == Some("thorough");
    let r = bitpack::check(thorough);
    println!("COUNTS {} {} {} {}", r.evaluations, r.states.len(), r.transitions, r.traces);
    for (k, m) in r.issues {
        println!("ISSUE {k}|{m}");
    }
}
