#![allow(static_mut_refs, dead_code, clippy::all)]
pub mod build;
pub mod emit;
#[cfg(feature = "enc")]
pub mod enc;
pub mod env;
pub mod handle;
pub mod kit;
pub mod net;
pub mod leak;
#[cfg(not(feature = "anyser"))]
pub mod payload;
pub mod polled;
pub mod reply;
#[cfg(feature = "ser")]
pub mod ser;
pub mod spec;
mod table;
#[cfg(feature = "two")]
pub mod two;
pub mod scale;
pub mod wait;
pub mod wire;

fn main() {
    let want = std::env::args().nth(1).unwrap_or_default();
    for (n, f) in table::TABLE {
        if *n == want {
            f();
            println!("COMPLETED {}", want);
            return;
        }
    }
    eprintln!("no harness {}", want);
    std::process::exit(64)
}
