mod alloc;
mod bitpack;
mod bits;
mod dec;
mod explore;
mod gen;
#[cfg(mc_sched)]
mod hooks;
mod model;
mod oggio;
mod props;
mod report;
mod spaces;
mod spaces2;
mod spaces3;
mod vorbis;

use std::io;

fn main() {
    let args: Vec<String> = std::env::args().skip(1).collect();
    std::process::exit(props::main(&args));
}
