#!/bin/sh
# Builds the engine; each check rebuilds what it needs, this only shows early that it can.
set -e
cd "$(dirname "$0")/../engine"
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true CARGO_TARGET_DIR=../target/engine
cargo build --release --offline 2>&1 | tail -3
test -x ../target/engine/release/symex
