#!/bin/bash
# Runs the demonstration against the viadkim in the current directory: exit 0
# if it behaves as it should.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
work=$(mktemp -d) || exit 2
trap 'rm -rf "$work"' EXIT
mkdir -p "$work/src"
cp "$here"/*.rs "$here"/*.pem "$work/src/"
cp "$repo/Cargo.lock" "$work/"
cat > "$work/Cargo.toml" <<T
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
viadkim = { path = "$repo"@FEATURES@ }
tokio = { version = "1.33.0", default-features = false, features = ["rt", "time"] }
T
export CARGO_TARGET_DIR=${DEMO_TARGET:-$work/target}
cd "$work" && timeout 250 cargo run --offline --quiet
