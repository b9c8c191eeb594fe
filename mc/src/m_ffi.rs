//! The foreign-function boundary: C25.
#![allow(dead_code)]
mod bad;
mod cfgs {
    pub use kdecls::cfgs::*;
}
mod eng;
mod fam;
mod ffi;
mod lay;
mod opts;
mod prog;
mod rt;
mod sem;

fn main() {
    let id = std::env::args().nth(1).unwrap_or_default();
    rt::init(&id);
    match id.as_str() {
        "C25" => ffi::c25(),
        _ => {
            eprintln!("unknown property {id}");
            std::process::exit(2);
        }
    }
}
