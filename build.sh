#!/bin/bash
# Builds the simulator against /repo's working tree. Output: /verif/target.
cd "$(dirname "$0")/sim" || exit 2
export RUSTUP_TOOLCHAIN=${RUSTUP_TOOLCHAIN:-stable-x86_64-unknown-linux-gnu}
export CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$(dirname "$PWD")/target" RUSTC_WRAPPER="$PWD/rustc-wrap.sh"
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS
exec cargo build --release --offline "$@"
