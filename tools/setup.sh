#!/bin/bash
# Builds the extractor and the bounded harness from the committed files; the checks rebuild them when /repo changed.
set -e
cd "$(dirname "$0")/.."
(cd extract && CARGO_TARGET_DIR=../target/extract CARGO_NET_OFFLINE=true cargo build --offline --quiet)
(cd harness && CARGO_TARGET_DIR=../target/harness CARGO_NET_OFFLINE=true RUSTUP_TOOLCHAIN=1.78.0 RUSTFLAGS=-Awarnings cargo build --offline --quiet)
