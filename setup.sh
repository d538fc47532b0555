#!/bin/bash
# Builds the engine once, offline, so that the checks only rebuild what /repo changed.
set -e
cd "$(dirname "$0")"
unset RUSTFLAGS RUSTDOCFLAGS RUSTC_WRAPPER CARGO_BUILD_TARGET
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$PWD/build/sym"
mkdir -p evidence build
cargo build --offline --locked --manifest-path sym/Cargo.toml
cargo build --offline --locked --release --manifest-path sym/Cargo.toml
build/sym/debug/symdct selftest
