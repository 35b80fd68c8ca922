#!/bin/bash
# builds the program beside this script against the crate in the current directory and runs it
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
d=$(mktemp -d)
trap 'rm -rf "$d"' EXIT
mkdir -p "$d/src"
cp "$here/main.rs" "$d/src/main.rs"
cat > "$d/Cargo.toml" <<T
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
nar20_1 = { path = "$repo" }
parking_lot = "0.12.2"
[profile.dev]
debug = 0
T
[ -f "$repo/Cargo.lock" ] && cp "$repo/Cargo.lock" "$d/Cargo.lock"
cd "$d" || exit 2
export CARGO_NET_OFFLINE=true RUSTFLAGS=-Awarnings CARGO_TARGET_DIR="$d/target"
cargo build --offline -q || exit 3
timeout 100 "$d/target/debug/demo" > "$d/out" 2>&1
rc=$?
tail -5 "$d/out"
exit $rc
