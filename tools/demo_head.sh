#!/bin/bash
# Builds demo.rs (beside this file) against the ringhopper in the current directory and runs it in a scratch directory.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
work=$(mktemp -d)
trap 'rm -rf "$work"' EXIT
mkdir "$work/src"
cp "$here/demo.rs" "$work/src/main.rs"
cp "$repo/Cargo.lock" "$work/Cargo.lock"
cat > "$work/Cargo.toml" <<T
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
ringhopper = { path = "$repo/src/ringhopper" }
T
cd "$work" || exit 2
export CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$work/target" CARGO_PROFILE_DEV_DEBUG=0
unset RUSTC_WRAPPER
cargo build -q --offline || exit 3
mkdir run && cd run && timeout 60 ../target/debug/demo
