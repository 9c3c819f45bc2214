#!/bin/bash
# Run with the repository as working directory: exits with 0 if the property holds there.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
export HOME=/root PATH="/root/.cargo/bin:$PATH" RUSTUP_TOOLCHAIN=1.85.1 CARGO_NET_OFFLINE=true RUSTC_WRAPPER=
unset RUSTFLAGS CARGO_TARGET_DIR
tmp=$(mktemp -d /tmp/demo.XXXXXX)
trap 'rm -rf "$tmp"' EXIT
mkdir "$tmp/src"
cp "$here"/*.rs "$tmp/src/"
cp "$here/Cargo.lock" "$tmp/"
sed "s#@REPO@#$repo#" "$here/Cargo.toml.in" > "$tmp/Cargo.toml"
cd "$tmp" || exit 3
cargo build --offline --quiet --target-dir "${DEMO_TARGET:-$tmp/target}" $(cat "$here/features" 2>/dev/null) >"$tmp/log" 2>&1 || { tail -30 "$tmp/log"; exit 3; }
timeout 200 "${DEMO_TARGET:-$tmp/target}/debug/demo"
