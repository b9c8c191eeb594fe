//! Containers, shapes and nested lists: C17, C20, C26.
#![allow(dead_code)]
mod c17;
mod c20;
mod c26;
mod cfgs;
mod rt;
mod seed;

fn main() {
    let id = std::env::args().nth(1).unwrap_or_default();
    rt::init(&id);
    match id.as_str() {
        "C17" => c17::run(),
        "C20" => c20::run(),
        "C26" => c26::run(),
        _ => {
            eprintln!("unknown property {id}");
            std::process::exit(2);
        }
    }
}
