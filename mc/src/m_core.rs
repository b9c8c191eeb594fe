//! Programs through the compiler: C01 to C05.
#![allow(dead_code)]
mod cfgs;
mod det;
mod eng;
mod exp;
mod fam;
mod lay;
mod opts;
mod prog;
mod rt;
mod seed;
mod sem;

fn main() {
    let id = std::env::args().nth(1).unwrap_or_default();
    rt::init(&id);
    match id.as_str() {
        "C01" => sem::c01(),
        "C02" => sem::c02(),
        "C03" => sem::c03(),
        "C04" => exp::c04(),
        "C05" => det::run(),
        _ => {
            eprintln!("unknown property {id}");
            std::process::exit(2);
        }
    }
}
