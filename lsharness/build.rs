fn main() {
    println!("cargo:rustc-cfg=verif_hooks");
    println!("cargo:rerun-if-changed=build.rs");
    let out = std::env::var("OUT_DIR").unwrap();
    std::fs::write(std::path::Path::new(&out).join("build-info.txt"), "").unwrap();
}
