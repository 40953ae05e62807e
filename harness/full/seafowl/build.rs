fn main() {
    println!("cargo:rerun-if-changed=build.rs");
    println!("cargo:rerun-if-changed=/repo/migrations");
    println!("cargo:rustc-cfg=vp_hooks");
    for v in ["VERGEN_GIT_SHA", "VERGEN_BUILD_TIMESTAMP", "VERGEN_RUSTC_SEMVER", "VERGEN_CARGO_TARGET_TRIPLE", "VERGEN_CARGO_FEATURES"] {
        println!("cargo:rustc-env={v}=verif");
    }
}
