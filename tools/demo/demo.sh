#!/bin/bash
# Run from the repository's root: exit 0 when the crate behaves, non-zero when it does not.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
export CARGO_NET_OFFLINE=true
unset RUSTFLAGS RUSTDOCFLAGS RUSTC_WRAPPER
w=$(mktemp -d) || exit 3
trap 'rm -rf -- "$w"' EXIT
cp "$here/main.rs" "$here/Cargo.lock" "$w/" || exit 3
sed "s|@REPO@|$repo|" "$here/Cargo.toml.in" > "$w/Cargo.toml" || exit 3
export CARGO_TARGET_DIR="${DEMO_TARGET_DIR:-$w/target}"
cd "$w" && cargo build --offline -q 2> "$w/log" || { cat "$w/log"; exit 3; }
timeout 60 "$CARGO_TARGET_DIR/debug/demo"
