#!/bin/bash
# Run with the repository as the working directory. Builds main.rs against it in a scratch directory.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
d=$(mktemp -d) || exit 2
trap 'rm -rf "$d"' EXIT
mkdir -p "$d/demo/src" "$d/work"
cp "$here"/*.rs "$d/demo/src/"
cp "$repo/Cargo.lock" "$d/demo/Cargo.lock" 2>/dev/null
cat > "$d/demo/Cargo.toml" <<TOML
[package]
name = "demo"
version = "0.1.0"
edition = "2021"

[workspace]

[dependencies]
liner = { package = "redox_liner", path = "$repo" }
libc = "0.2"
TOML
cd "$d/demo" || exit 2
CARGO_TARGET_DIR=$d/target cargo build --offline -q 2>"$d/log" || { cat "$d/log"; exit 3; }
cd "$d/work" || exit 2
TMPDIR=$d/work timeout 60 "$d/target/debug/demo"
