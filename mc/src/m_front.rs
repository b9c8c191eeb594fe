//! The circuit-building front end: C10, C12 to C14.
#![allow(dead_code)]
mod cfgs;
mod decl;
mod front;
mod hint;
mod memo;
mod opts;
mod rt;
mod seed;

fn main() {
    let id = std::env::args().nth(1).unwrap_or_default();
    rt::init(&id);
    match id.as_str() {
        "C10" => front::c10(),
        "C12" => memo::c12(),
        "C13" => decl::c13(),
        "C14" => hint::c14(),
        _ => {
            eprintln!("unknown property {id}");
            std::process::exit(2);
        }
    }
}
