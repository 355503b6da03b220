fn main() {
    println!("cargo:rustc-cfg=crofiler_verif");
    println!("cargo:rustc-check-cfg=cfg(crofiler_verif)");
}
