#!/bin/bash
# Builds the program beside this script against the portgraph crate in the
# current directory, in a scratch folder, and runs it there.
set -u
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
export PATH=/root/.cargo/bin:$PATH CARGO_NET_OFFLINE=true
unset RUSTFLAGS CARGO_TARGET_DIR
scratch=$(mktemp -d) || exit 2
trap 'rm -rf "$scratch"' EXIT
mkdir -p "$scratch/src"
cp "$here/demo.rs" "$scratch/src/main.rs"
[ -f "$repo/Cargo.lock" ] && cp "$repo/Cargo.lock" "$scratch/Cargo.lock"
cat > "$scratch/Cargo.toml" <<T
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[dependencies]
portgraph = { path = "$repo", features = ["serde", "petgraph"] }
serde_json = "1"
petgraph = "0.8"
rmp-serde = "1"
bitvec = "1"
[workspace]
T
cd "$scratch" && cargo run --offline --quiet
