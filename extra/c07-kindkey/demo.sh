#!/bin/bash
# run with cwd = the repository; exit 0: behaves as stated
here="$(cd "$(dirname "$0")" && pwd)"; repo="$PWD"
export PATH="/root/.cargo/bin:$PATH" CARGO_NET_OFFLINE=true
unset RUSTFLAGS RUSTC_WRAPPER
w="$(mktemp -d)"; trap 'rm -rf "$w"' EXIT
mkdir "$w/src"; cp "$here"/*.rs "$w/src/"
cat > "$w/Cargo.toml" <<T
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
syntaxis = { path = "$repo" }
regex = "1"
tera = { version = "1", default-features = false }
serde_json = "1"
T
cd "$w" || exit 3
CARGO_TARGET_DIR="$w/target" cargo build --offline -q || exit 3
cd "$repo" || exit 3
SCRATCH="$w" timeout 60 "$w/target/debug/demo"
