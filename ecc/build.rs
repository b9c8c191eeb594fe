fn main() {
    println!("cargo:rustc-check-cfg=cfg(ecc_verif)");
    println!("cargo:rustc-cfg=ecc_verif");
    println!("cargo:rerun-if-changed=build.rs");
}
