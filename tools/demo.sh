#!/bin/bash
# Builds main.rs (beside this file) against the crate in the current directory and runs it.
# deps.toml and rustflags (beside it, both optional) add dependencies and compiler flags.
set -u
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
tmp=$(mktemp -d)
trap 'rm -rf "$tmp"' EXIT
mkdir -p "$tmp/src"
cp "$here"/*.rs "$tmp/src/"
cp "$repo/Cargo.lock" "$tmp/Cargo.lock"
features='[]'
[ -f "$here/deps.toml" ] && features='["serialize"]'
cat > "$tmp/Cargo.toml" <<TOML
[package]
name = "demo"
version = "0.0.0"
edition = "2024"
[workspace]
[dependencies]
rerecast = { path = "$repo/crates/rerecast", features = $features }
glam = "*"
TOML
[ -f "$here/deps.toml" ] && cat "$here/deps.toml" >> "$tmp/Cargo.toml"
export CARGO_TARGET_DIR="$tmp/target"
unset RUSTFLAGS
[ -f "$here/rustflags" ] && export RUSTFLAGS="$(cat "$here/rustflags")"
cd "$tmp" || exit 3
cargo build --offline -q 2>"$tmp/log" || { cat "$tmp/log"; exit 3; }
timeout 200 "$tmp/target/debug/demo"
