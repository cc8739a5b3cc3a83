#!/bin/bash
# cwd: the repository, built. Compiles main.rs against it and runs it in an empty directory.
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
tmp=$(mktemp -d /tmp/demo.XXXXXX) || exit 2
trap 'rm -rf "$tmp"' EXIT
export HOME=/root PATH=/root/.cargo/bin:/usr/local/cargo/bin:$PATH
. /opt/vp/env.sh
mkdir -p "$tmp/crate/src" "$tmp/w"
cp "$here/main.rs" "$here/common.rs" "$tmp/crate/src/"
cp "$here/Cargo.lock" "$tmp/crate/"
cat > "$tmp/crate/Cargo.toml" <<T
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
chopper = { path = "$repo" }
chrono-tz = "0.5"
flate2 = "1"
T
cd "$tmp/crate" && RUSTFLAGS=-Awarnings cargo build -q --offline --target-dir "$tmp/target" || exit 2
cd "$tmp/w" && timeout 100 "$tmp/target/debug/demo"
