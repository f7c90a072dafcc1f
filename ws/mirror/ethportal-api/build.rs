fn main() {
    println!("cargo:rerun-if-changed=build.rs");
    println!("cargo:rerun-if-env-changed=VERIF_HASH_ETHPORTAL_API");
    for (k, v) in [
        ("VERGEN_GIT_SHA", "0123456789abcdef0123456789abcdef01234567"),
        ("VERGEN_GIT_SHA_SHORT", "0123456"),
        ("TRIN_VERSION", "v0.0.0"),
        ("TRIN_BUILD_OPERATING_SYSTEM", "linux"),
        ("TRIN_BUILD_ARCHITECTURE", "x86_64"),
        ("VERGEN_RUSTC_SEMVER", "1.87.0"),
        ("TRIN_FULL_VERSION", "v0.0.0-0123456 linux-x86_64 rustc1.87.0"),
    ] {
        println!("cargo:rustc-env={k}={v}");
    }
}
