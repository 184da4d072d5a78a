#!/bin/bash
# Builds the analyser and the replay programs ahead of the checks (which rebuild what is stale)
set -eu
cd "$(dirname "$0")"
export RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS CARGO_BUILD_RUSTFLAGS CARGO_TARGET_DIR
mkdir -p build evidence
(cd engine && cargo build --offline --locked --release --target-dir ../build/engine)
