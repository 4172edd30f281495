#!/bin/bash
# Builds the simulator against /repo's working tree.  usage: build.sh [cargo args]
set -e
cd "$(dirname "$0")"
export RUSTUP_TOOLCHAIN="${RUSTUP_TOOLCHAIN:-1.97.1-x86_64-unknown-linux-gnu}"
export CARGO_NET_OFFLINE=true
export RUSTFLAGS="--cfg tokio_unstable --cfg stream_download_sim"
export CARGO_TARGET_DIR="${SIM_TARGET:-/verif/target}"
exec cargo build --release --offline -q "$@"
