#!/bin/bash
# Builds the harness against /repo's working tree.
set -eu
cd "$(dirname "$0")"
export RUSTUP_TOOLCHAIN=1.88.0 CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$PWD/target"
mkdir -p target evidence replays
cargo build --offline --release --manifest-path harness/Cargo.toml
