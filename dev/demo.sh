#!/bin/bash
# Builds and runs demo.rs against the library in the current directory.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
tmp=$(mktemp -d)
trap 'cd /; find "$tmp" -delete' EXIT
mkdir -p "$tmp/src" || exit 2
cp "$here"/*.rs "$tmp/src/" && mv "$tmp/src/demo.rs" "$tmp/src/main.rs" || exit 2
cp "$repo/Cargo.lock" "$tmp/Cargo.lock" || exit 2
cat > "$tmp/Cargo.toml" <<TOML
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[dependencies]
xdvdfs = { path = "$repo/xdvdfs-core", features = ["sync"] }
ciso = { version = "0.3.0", default-features = false, features = ["sync"] }
[workspace]
TOML
cd "$tmp" || exit 2
export CARGO_TARGET_DIR="$tmp/target"
timeout 240 cargo build --offline -q || { echo "demo does not build"; exit 2; }
timeout 30 "$tmp/target/debug/demo"
