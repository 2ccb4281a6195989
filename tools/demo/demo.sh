#!/bin/bash
# Builds demo.rs (beside this script) against the crate in the current directory and runs it in a scratch folder.
here=$(cd "$(dirname "$0")" && pwd); repo=$PWD
export PATH="/root/.cargo/bin:$PATH" RUSTUP_TOOLCHAIN=${RUSTUP_TOOLCHAIN:-stable-x86_64-unknown-linux-gnu} CARGO_NET_OFFLINE=true RUSTC_WRAPPER= RUST_MIN_STACK=268435456
t=$(mktemp -d) || exit 2
trap 'rm -rf "$t"' EXIT
mkdir -p "$t/src" "$t/run/input"; : > "$t/run/input/empty.dat"
cp "$here/demo.rs" "$t/src/main.rs"; cp "$repo/Cargo.lock" "$t/Cargo.lock"
cat > "$t/Cargo.toml" <<T
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
posidonius = { path = "$repo" }
bincode = "1.3"
serde_json = "1.0"
[profile.dev]
debug = false
T
CARGO_TARGET_DIR="$t/target" cargo build -q --offline --manifest-path "$t/Cargo.toml" >"$t/log" 2>&1 || { tail -20 "$t/log"; exit 2; }
cd "$t/run" && "$t/target/debug/demo"
