//! Kernels and pipelines: C15, C16, C18, C19.
#![allow(dead_code)]
mod c17;
mod cfgs {
    pub use kdecls::cfgs::*;
}
mod rt;
mod zk;
mod zkc;
mod zkm;

fn main() {
    let id = std::env::args().nth(1).unwrap_or_default();
    rt::init(&id);
    match id.as_str() {
        "C15" => zkc::c15(),
        "C16" => zkc::c16(),
        "C18" => zkc::c18(),
        "C19" => zkc::c19(),
        _ => {
            eprintln!("unknown property {id}");
            std::process::exit(2);
        }
    }
}
