fn main() {
    println!("cargo:rerun-if-changed=build.rs");
    println!("cargo:rerun-if-env-changed=VERIF_HASH_ETHEREUM_RPC_CLIENT");
}
