#!/bin/bash
# Builds the file system daemon of the directory it is run in with a fuser that takes the kernel's
# requests from a file (fuser.rs), and the packer; runs case.sh in a scratch directory.
# D: the daemon, X: the packer.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
tmp=$(mktemp -d)
trap 'cd /; find "$tmp" -delete' EXIT
export CARGO_TARGET_DIR="$tmp/target"
mkdir -p "$tmp/src/fuser/src" "$tmp/w"
cp -r "$repo/xdvdfs-core" "$repo/xdvdfs-cli" "$repo/xdvdfs-fsd" "$repo/Cargo.lock" "$tmp/src/"
cp "$here/fuser.rs" "$tmp/src/fuser/src/lib.rs"
cat > "$tmp/src/fuser/Cargo.toml" <<'T'
[package]
name = "fuser"
version = "0.15.1"
edition = "2021"
[features]
default = []
[dependencies]
libc = "0.2"
log = "0.4"
T
sed -e '/"xdvdfs-web"/d' -e '/"xdvdfs-desktop"/d' "$repo/Cargo.toml" > "$tmp/src/Cargo.toml"
printf '\n[patch.crates-io]\nfuser = { path = "fuser" }\n' >> "$tmp/src/Cargo.toml"
cd "$tmp/src" && timeout 280 cargo build --offline -q -p xdvdfs-cli -p xdvdfs-fsd >"$tmp/log" 2>&1 || { cat "$tmp/log"; exit 2; }
X="$tmp/target/debug/xdvdfs"
D="$tmp/target/debug/xdvdfsd"
cd "$tmp/w" || exit 2
fail() { echo "FAILED: $*"; exit 1; }
. "$here/case.sh"
exit 0
