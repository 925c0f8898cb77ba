#!/bin/bash
# Exits 0 if the property holds in the demonstrated situation, nonzero otherwise. Run from the root of the repository.
D=$(cd "$(dirname "$0")" && pwd)
R=$PWD
W=$(mktemp -d /tmp/uflow-demo-XXXXXX) || exit 2
trap 'case "$W" in /tmp/uflow-demo-*) rm -rf "$W";; esac' EXIT
mkdir "$W/src" && cp "$D"/*.rs "$W/src/" || exit 2
cat > "$W/Cargo.toml" <<X
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[dependencies]
uflow = { path = "$R" }
[workspace]
X
cd "$W" || exit 2
export RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTFLAGS="-Awarnings --cfg uflow_verif" CARGO_TARGET_DIR="$W/target"
timeout 280 cargo run --offline -q
