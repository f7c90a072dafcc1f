// The content hash of the sources of the code under test; a changed hash forces a rebuild even
// when file times do not show the change.
fn main() {
    println!("cargo:rerun-if-env-changed=VERIF_SRC_HASH");
    println!("cargo:rerun-if-changed=build.rs");
}
