#!/bin/bash
# Run with the repository as working directory: 0 if the property holds in this case, 1 if not.
here="$(cd "$(dirname "$0")" && pwd)"
repo="$PWD"
work="$(mktemp -d /tmp/demo.XXXXXXXX)" || exit 3
trap 'rm -rf "$work"' EXIT
mkdir -p "$work/src" "$work/scratch"
cp "$here"/main.rs "$here"/kit.rs "$work/src/" || exit 3
cat >"$work/Cargo.toml" <<T
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[dependencies]
redox_liner = { path = "$repo" }
[workspace]
T
export CARGO_TARGET_DIR="$work/target" CARGO_NET_OFFLINE=true RUSTUP_TOOLCHAIN=stable RUSTC_WRAPPER= SCRATCH="$work/scratch"
cd "$work" || exit 3
cargo build --offline -q 2>build.log || { cat build.log; exit 3; }
timeout 60 ./target/debug/demo
