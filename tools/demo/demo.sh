#!/bin/bash
# Run with cwd = the repository. Builds main.rs (beside this file) against it in a scratch directory.
set -u
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
tmp=$(mktemp -d)
trap 'rm -rf "$tmp"' EXIT
mkdir -p "$tmp/src"
cp "$here/main.rs" "$tmp/src/main.rs"
cp "$here/Cargo.lock" "$tmp/Cargo.lock"
sed "s|REPO|$repo|" "$here/Cargo.toml.in" > "$tmp/Cargo.toml"
export RUSTUP_TOOLCHAIN=1.88.0 CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$tmp/target"
unset RUSTFLAGS
cd "$tmp" && cargo build --offline --quiet 2>"$tmp/log" || { cat "$tmp/log"; exit 2; }
timeout 60 "$tmp/target/debug/demo"
