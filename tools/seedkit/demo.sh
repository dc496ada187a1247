#!/bin/bash
# Builds and runs main.rs (beside this file) against the crate in the current directory.
here=$(cd "$(dirname "$0")" && pwd) || exit 99
repo=$PWD
work=$(mktemp -d) || exit 99
trap 'rm -rf "$work"' EXIT
mkdir "$work/src"
cp "$here"/*.rs "$work/src/"
cat > "$work/Cargo.toml" <<T
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[dependencies]
mysql_cdc = { path = "$repo" }
$(grep -q '^use openssl' "$here/main.rs" && echo 'openssl = "0.10"')
[workspace]
T
[ -f "$repo/Cargo.lock" ] && cp "$repo/Cargo.lock" "$work/Cargo.lock"
cd "$work" || exit 99
CARGO_TARGET_DIR="$work/target" cargo build --offline -q 2>"$work/err" || { tail -20 "$work/err"; exit 99; }
timeout 120 "$work/target/debug/demo"
