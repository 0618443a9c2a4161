#!/bin/bash
# usage: check.sh <property id> [quick|thorough]
# Rebuilds the harness against /repo's working tree, then runs one property.
set -u
cd "$(dirname "$0")" || exit 2
ID=$1
TIER=${2:-${VERIF_TIER:-quick}}
export RUSTUP_TOOLCHAIN=1.88.0 CARGO_NET_OFFLINE=true
export CARGO_TARGET_DIR="$PWD/target"
export VERIF_DIR="$PWD" VERIF_TIER="$TIER" VERIF_SEED="${VERIF_SEED:-1}"
ulimit -c 0
mkdir -p target evidence replays
LOG="target/build-$ID.log"
if ! cargo build --offline --release --manifest-path harness/Cargo.toml >"$LOG" 2>&1; then
    cat "$LOG" >&2
    echo "ERROR: harness does not build against /repo" >&2
    exit 2
fi
ulimit -v 25000000
exec target/release/cfg-verif-harness run "$ID"
