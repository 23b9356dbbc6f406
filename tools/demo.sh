#!/bin/bash
# Builds demo.rs against the repository in the current directory and runs it: 0 = property holds on the demonstrated case.
set -e
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
w=$(mktemp -d)
trap 'rm -rf "$w"' EXIT
mkdir -p "$w/src"
cp "$here/demo.rs" "$w/src/main.rs"
cp "$here/Cargo.lock" "$w/Cargo.lock"
sed "s|@REPO@|$repo|g" "$here/demo.toml" > "$w/Cargo.toml"
cd "$w"
export CARGO_TARGET_DIR="$w/target" CARGO_NET_OFFLINE=true RUSTUP_TOOLCHAIN=1.78.0 RUSTFLAGS=-Awarnings
cargo build --offline --quiet
timeout 120 "$w/target/debug/demo"
