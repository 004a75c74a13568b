#!/bin/bash
# Builds the command line program of the directory it is run in, and runs case.sh with it ($X) in a scratch directory.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
tmp=$(mktemp -d)
trap 'cd /; find "$tmp" -delete' EXIT
export CARGO_TARGET_DIR="$tmp/target"
timeout 280 cargo build --offline -q -p xdvdfs-cli --manifest-path "$repo/Cargo.toml" >"$tmp/log" 2>&1 || { cat "$tmp/log"; exit 2; }
X="$tmp/target/debug/xdvdfs"
mkdir "$tmp/w" && cd "$tmp/w" || exit 2
fail() { echo "FAILED: $*"; exit 1; }
. "$here/case.sh"
exit 0
