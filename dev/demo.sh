#!/bin/bash
# Builds demo.rs against the rustfst of the current directory (/repo) and runs it: 0 = behaves, else not.
D="$(cd "$(dirname "$0")" && pwd)"
R="$PWD"
W="$(mktemp -d /tmp/demo.XXXXXX)" || exit 2
trap 'rm -rf "$W"' EXIT
mkdir -p "$W/src" "$W/oi/src" "$W/scratch"
cp "$D/demo.rs" "$W/src/main.rs"
printf '[package]\nname = "ordered_iter"\nversion = "0.1.2"\nedition = "2018"\n' >"$W/oi/Cargo.toml"
cat >"$W/oi/src/lib.rs" <<'X'
pub trait OrderedMapIterator: Iterator {
    type Key;
    type Val;
}
pub trait OrderedSetIterator: Iterator {}
X
cat >"$W/Cargo.toml" <<X
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[dependencies]
rustfst = { path = "$R/rustfst" }
anyhow = "1"
@DEPS@
[patch.crates-io]
ordered_iter = { path = "oi" }
[profile.dev]
debug = 0
opt-level = 1
[workspace]
X
cp "$R/Cargo.lock" "$W/Cargo.lock"
export CARGO_TARGET_DIR="$W/target" CARGO_NET_OFFLINE=true RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
unset RUSTFLAGS RUSTC_WRAPPER
(cd "$W" && cargo build --offline --quiet >"$W/log" 2>&1) || { cat "$W/log"; echo "demo did not build"; exit 3; }
cd "$W/scratch" && timeout 120 "$W/target/debug/demo"
