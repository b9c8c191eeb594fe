//! The functions of memo_fns.rs once more without the cache: what calling them directly means.
fn main() {
    let s = std::fs::read_to_string("../mc/src/memo_fns.rs").unwrap();
    let s = s.replace("#[memorized]", "").replace("memorized_", "");
    let out = std::env::var("OUT_DIR").unwrap();
    std::fs::write(format!("{out}/direct.rs"), s).unwrap();
    println!("cargo:rerun-if-changed=../mc/src/memo_fns.rs");
}
