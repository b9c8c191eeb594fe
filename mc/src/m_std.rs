//! The circuit library: C21, C22, C23, C24, C27, C28, C29.
#![allow(dead_code)]
mod cfgs {
    pub use kdecls::cfgs::*;
}
mod bl;
mod ef;
mod g;
mod lk;
mod po;
mod rt;
mod sha;
mod u2;

fn main() {
    let id = std::env::args().nth(1).unwrap_or_default();
    rt::init(&id);
    match id.as_str() {
        "C21" => lk::c21(),
        "C22" => sha::c22(),
        "C23" => u2::c23(),
        "C24" => ef::c24(),
        "C27" => lk::c27(),
        "C28" => po::c28(),
        "C29" => bl::c29(),
        _ => {
            eprintln!("unknown property {id}");
            std::process::exit(2);
        }
    }
}
