#!/bin/bash
# Usage: check.sh <property id> [quick|thorough]
# Rebuilds what the property needs from the current working tree of /repo and runs its monitor.
# Exit 0: held on everything observed. Exit 1: violated (VIOLATION line). Anything else: no verdict.
set -u
root=$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)
id=${1:?property id}
tier=${2:-${VERIF_TIER:-quick}}
. "$root/env.sh"
export VERIF_TIER=$tier VERIF_ROOT=$root
export VERIF_SEED=${VERIF_SEED:-1}

case "$id" in
A01 | A02 | A03 | A04 | A05 | B01 | B02 | M01 | V01) ws=core pkg=core-checks ;;
K*) ws=ws pkg=api-checks ;;
S*) ws=ws pkg=storage-checks ;;
W*) ws=ws pkg=validation-checks ;;
E*) ws=ws pkg=e2-checks ;;
N*) ws=ws pkg=net-checks ;;
T*) ws=ws pkg=state-checks ;;
H*) ws=ws pkg=history-checks ;;
C*) ws=ws pkg=beacon-checks ;;
X*) ws=ws pkg=exec-checks ;;
G*) ws=ws pkg=bridge-checks ;;
P*) ws=ws pkg=writer-checks ;;
R*) ws=ws pkg=rpc-checks ;;
L*) ws=ws pkg=light-checks ;;
*)
    echo "unknown property $id" >&2
    exit 2
    ;;
esac

export VERIF_SRC_HASH=$(verif_src_hash)
[ "$ws" = ws ] && verif_export_crate_hashes "$root"
export CARGO_TARGET_DIR=$root/$ws/target
log=$(mktemp)
if ! (cd "$root/$ws" && cargo build --offline --locked -p "$pkg") >"$log" 2>&1; then
    tail -60 "$log"
    rm -f "$log"
    echo "check $id: build failed, no verdict" >&2
    exit 2
fi
rm -f "$log"
rm -f "$root/evidence/$id.json"
timeout -k 10 "${VERIF_TIMEOUT_S:-840}" "$CARGO_TARGET_DIR/debug/$pkg" "$id"
rc=$?
case $rc in
0 | 1) exit $rc ;;
*)
    echo "check $id: run ended with $rc, no verdict" >&2
    exit 2
    ;;
esac
