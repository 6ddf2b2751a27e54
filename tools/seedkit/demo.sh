#!/bin/bash
# Builds and runs the demonstration beside this file against the library in the current directory.
# Exit 0: the library behaves; anything else: it does not.
export HOME=/root PATH=/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu RUSTC_WRAPPER= CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
T=$(mktemp -d) || exit 2
trap 'find "$T" -depth -delete' EXIT
mkdir -p "$T/src" "$T/scratch"
cp "$here"/*.rs "$T/src/" && cp "$repo/Cargo.lock" "$T/" || exit 2
cat > "$T/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[dependencies]
subtile = { path = "$repo" }
image = { version = "0.25", default-features = false, features = ["png"] }
[[bin]]
name = "demo"
path = "src/demo.rs"
[profile.dev]
debug = false
overflow-checks = true
[workspace]
EOF
export CARGO_TARGET_DIR="$T/target"
cd "$T" && cargo build --offline -q >"$T/log" 2>&1 || { cat "$T/log"; exit 2; }
cd "$T/scratch" && timeout 120 "$T/target/debug/demo"
