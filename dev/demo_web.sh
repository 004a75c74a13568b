#!/bin/bash
# Builds the operations of the web application for the host, with a model of the browser in memory (js.rs, bindings.rs,
# vfs.rs, web_main.rs), and runs case.rs with them. No files are touched.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
tmp=$(mktemp -d)
trap 'cd /; find "$tmp" -delete' EXIT
export CARGO_TARGET_DIR="$tmp/target"
mkdir -p "$tmp/app/src"
cp -r "$repo"/xdvdfs-web/src/fs "$repo"/xdvdfs-web/src/ops "$tmp/app/src/"
cp "$here/bindings.rs" "$tmp/app/src/fs/bindings.rs"
cp "$here/js.rs" "$here/vfs.rs" "$here/case.rs" "$tmp/app/src/"
cp "$here/web_main.rs" "$tmp/app/src/main.rs"
cp "$repo/Cargo.lock" "$tmp/app/Cargo.lock"
cat > "$tmp/app/Cargo.toml" <<T
[package]
name = "webdemo"
version = "0.0.0"
edition = "2021"
[workspace]
[dependencies]
xdvdfs = { path = "$repo/xdvdfs-core" }
ciso = { version = "0.3.0", default-features = false }
async-trait = "0.1.68"
async-recursion = "1.0.4"
serde = { version = "1.0", features = ["derive"] }
log = "0.4.17"
T
timeout 250 cargo build --offline -q --manifest-path "$tmp/app/Cargo.toml" >"$tmp/log" 2>&1 || { cat "$tmp/log"; exit 2; }
timeout 40 "$tmp/target/debug/webdemo"
