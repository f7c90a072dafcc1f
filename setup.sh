#!/bin/bash
# Builds the check binaries once (checks rebuild what they need themselves).
set -u
root=$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)
. "$root/env.sh"
export VERIF_SRC_HASH=$(verif_src_hash)
verif_export_crate_hashes "$root"
mkdir -p "$root/evidence"
# Built package by package, exactly as check.sh does, so that nothing is rebuilt later with other
# features. A package that does not build is reported by its own checks.
(cd "$root/core" && CARGO_TARGET_DIR=$root/core/target cargo build --offline --locked -p core-checks) || exit 1
rc=1
for d in "$root"/ws/checks/*/; do
    pkg=$(basename "$d")-checks
    (cd "$root/ws" && CARGO_TARGET_DIR=$root/ws/target cargo build --offline --locked -p "$pkg") && rc=0
done
exit $rc
