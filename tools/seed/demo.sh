#!/bin/bash
# Runs demo.rs inside a throw-away copy of the crate in the current folder.
D=$(cd "$(dirname "$0")" && pwd)
R=$PWD
T=$(mktemp -d)
trap 'rm -rf -- "$T"' EXIT
export HOME=/root PATH=/root/.cargo/bin:$PATH CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER= RUSTFLAGS=-Awarnings
export CARGO_TARGET_DIR=${DEMO_TARGET:-$T/target} CARGO_INCREMENTAL=0 CARGO_PROFILE_DEV_DEBUG=0
python3 "$D/mkcrate.py" "$R" "$T/crate" "$D" || exit 3
cd "$T/crate" || exit 3
cargo build --offline -q --example run --features dev,k256,bip32 || exit 3
timeout 200 "$CARGO_TARGET_DIR/debug/examples/run"
