# Sourced by setup.sh and check.sh.
export PATH="/root/.cargo/bin:$PATH"
export RUSTUP_TOOLCHAIN=1.87.0
export CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=0 CARGO_TERM_COLOR=never
export RUSTC_WRAPPER= RUST_BACKTRACE=0
unset CARGO_TARGET_DIR RUSTFLAGS

# Content hash of every source file of the code under test, so that a rebuild never depends on
# file times.
verif_src_hash() {
    find /repo/crates /repo/bin /repo/testing -name target -prune -o -type f \( -name '*.rs' -o -name '*.toml' \) -print0 2>/dev/null |
        sort -z | xargs -0 cat | sha256sum | cut -d' ' -f1
}

# The same per crate, for the mirrors under ws/mirror (each is rebuilt when its own sources change).
verif_export_crate_hashes() {
    local root=$1 m dir var
    for m in "$root"/ws/mirror/*/; do
        dir=$(sed -n 's|^path = "\(/repo/.*\)/src/[a-z]*\.rs"$|\1|p' "$m/Cargo.toml" | head -1)
        var=VERIF_HASH_$(basename "$m" | tr 'a-z-' 'A-Z_')
        export "$var=$(find "$dir" -name target -prune -o -type f -print0 2>/dev/null | sort -z | xargs -0 cat | sha256sum | cut -d' ' -f1)"
    done
}
