#!/bin/bash
# Builds every checker once, offline.
set -eu
cd "$(dirname "$0")"
unset CARGO_TARGET_DIR RUSTFLAGS
cargo build --release --offline --manifest-path mc/Cargo.toml --bins
