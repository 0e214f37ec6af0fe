#!/bin/bash
# Runs demo.rs (beside this file) against the library in the current directory, in a scratch directory.
here="$(cd "$(dirname "$0")" && pwd)"
repo="$PWD"
work="$(mktemp -d /tmp/tedium-demo.XXXXXX)" || exit 3
trap 'rm -rf "$work"' EXIT
mkdir -p "$work/src" "$work/scratch"
cp "$here/demo.rs" "$work/src/main.rs"
cat >"$work/Cargo.toml" <<TOML
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
tedium = { path = "$repo", features = ["chrono"] }
labview-interop = "0.4"
chrono = { version = "0.4", default-features = false, features = ["std"] }
[profile.dev]
debug = 0
TOML
cp "$repo/Cargo.lock" "$work/Cargo.lock"
cd "$work" || exit 3
export CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$work/target"
cargo build -q --offline 2>"$work/log" || { tail -n 30 "$work/log"; exit 4; }
cd "$work/scratch" && timeout 120 "$work/target/debug/demo"
