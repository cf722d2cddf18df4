#!/bin/bash
# Builds and runs main.rs against the flatdata crate in the current directory.
# Everything it writes stays in a scratch directory that is removed again.
set -u
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
work=$(mktemp -d)
trap 'rm -rf "$work"' EXIT
mkdir -p "$work/src" "$work/data"
cp "$here/main.rs" "$work/src/main.rs"
cat >"$work/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.1.0"
edition = "2018"

[dependencies]
flatdata = { path = "$repo" }

[workspace]
EOF
[ -f "$repo/Cargo.lock" ] && cp "$repo/Cargo.lock" "$work/Cargo.lock"
unset RUSTC_WRAPPER CARGO_BUILD_TARGET CARGO_ENCODED_RUSTFLAGS
export CARGO_TARGET_DIR="$work/target" RUSTFLAGS="--cap-lints=allow" CARGO_NET_OFFLINE=true
if ! cargo build --offline --quiet --manifest-path "$work/Cargo.toml"; then
    echo "demo does not build"
    exit 3
fi
cd "$work"
timeout 200 "$work/target/debug/demo" "$work/data"
