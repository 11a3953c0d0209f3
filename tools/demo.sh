#!/bin/bash
# Builds main.rs beside this script against the kuba crate in the current directory and runs it.
R=$PWD; D=$(cd "$(dirname "$0")" && pwd); T=$(mktemp -d /tmp/demo.XXXXXX) || exit 9
trap 'rm -rf "$T"' EXIT
mkdir "$T/src"; cp "$D/main.rs" "$T/src/main.rs"; cp "$R/Cargo.lock" "$T/Cargo.lock"
cat > "$T/Cargo.toml" <<X
[package]
name = "demo"
version = "0.1.0"
edition = "2018"
[workspace]
[dependencies]
kuba = { path = "$R" }
nalgebra = "0.22"
ndarray = "0.13.1"
approx = "0.3"
X
cd "$T" || exit 9
cargo build --offline --quiet --target-dir "$T/target" 2> "$T/log" || { tail -20 "$T/log"; exit 8; }
mkdir "$T/scratch"; cd "$T/scratch" && timeout 60 "$T/target/debug/demo"
