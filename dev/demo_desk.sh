#!/bin/bash
# Builds the commands of the desktop application with a stand-in for tauri's window (tauri.rs), as the program $X COMMAND
# SOURCE DEST that prints the answer and fails if there is a message, and runs case.sh with it in a scratch directory.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
tmp=$(mktemp -d)
trap 'cd /; find "$tmp" -delete' EXIT
export CARGO_TARGET_DIR="$tmp/target"
mkdir -p "$tmp/app/src" "$tmp/app/tauri/src" "$tmp/w"
cp "$repo"/xdvdfs-desktop/src/*.rs "$tmp/app/src/"
sed -i 's/#\[tauri::command\]//' "$tmp"/app/src/*.rs
cp "$here/desk_main.rs" "$tmp/app/src/main.rs"
cp "$here/tauri.rs" "$tmp/app/tauri/src/lib.rs"
cp "$repo/Cargo.lock" "$tmp/app/Cargo.lock"
cat > "$tmp/app/tauri/Cargo.toml" <<T
[package]
name = "tauri"
version = "1.5.3"
edition = "2021"
[dependencies]
serde = "1.0"
T
cat > "$tmp/app/Cargo.toml" <<T
[package]
name = "deskdemo"
version = "0.0.0"
edition = "2021"
[workspace]
[dependencies]
xdvdfs = { path = "$repo/xdvdfs-core" }
ciso = { version = "0.3.0", default-features = false }
tauri = { path = "tauri" }
maybe-async = "0.2.7"
async-trait = "0.1.75"
serde = { version = "1.0", features = ["derive"] }
T
timeout 250 cargo build --offline -q --manifest-path "$tmp/app/Cargo.toml" >"$tmp/log" 2>&1 || { cat "$tmp/log"; exit 2; }
X="$tmp/target/debug/deskdemo"
cd "$tmp/w" || exit 2
fail() { echo "FAILED: $*"; exit 1; }
. "$here/case.sh"
exit 0
