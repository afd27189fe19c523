#!/bin/bash
# Builds the monitor once (each check rebuilds what depends on /repo).
set -eu
here="$(cd "$(dirname "$0")" && pwd)"
unset RUSTFLAGS RUSTC_WRAPPER CARGO_ENCODED_RUSTFLAGS RUSTUP_TOOLCHAIN
export CARGO_TARGET_DIR="$here/target"
cd "$here/monitor"
cargo build --offline
