//! Compiler boundary: C06, C07, C08, C09.
#![allow(dead_code)]
mod bad;
mod batch;
mod c17;
mod cfgs {
    pub use kdecls::cfgs::*;
}
mod eng;
mod fam;
mod lay;
mod opts;
mod prog;
mod rt;
mod sem;
mod ser;
mod zk;
mod zkc;
mod zkm;

fn main() {
    let id = std::env::args().nth(1).unwrap_or_default();
    rt::init(&id);
    match id.as_str() {
        "C06" => bad::c06(),
        "C07" => ser::c07(),
        "C08" => ser::c08(),
        "C09" => batch::c09(),
        _ => {
            eprintln!("unknown property {id}");
            std::process::exit(2);
        }
    }
}
