#!/bin/bash
# Builds the viewer with a stand-in for its window that records what is drawn, and runs run.py.  Run in /repo; exits 9 if it cannot be built.
set -u
D=$(cd "$(dirname "$0")" && pwd); R=$(pwd); T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
cp -r "$D/kiss3d" "$T/kiss3d"; cp "$R/Cargo.lock" "$T/Cargo.lock" 2>/dev/null
cat > "$T/Cargo.toml" <<EOF
[package]
name = "viewer-demo"
version = "0.1.0"
edition = "2018"
[dependencies]
kuba = { path = "$R" }
kiss3d = { path = "kiss3d" }
nalgebra = "NALGEBRA"
[[bin]]
name = "draw_occupancy_grid"
path = "$R/viz/src/bin/draw_occupancy_grid.rs"
[workspace]
EOF
sed -i "s/NALGEBRA/$(grep -m1 '^nalgebra' "$R/Cargo.toml" | grep -o '[0-9][0-9.]*' | head -1)/" "$T/Cargo.toml" "$T/kiss3d/Cargo.toml"
(cd "$T" && CARGO_TARGET_DIR="$T/t" cargo build --offline -q --release) || exit 9
mkdir "$T/data"; timeout 200 python3 "$D/run.py" "$T/t/release/draw_occupancy_grid" "$T/data"
