#!/bin/bash
# Builds the framework offline; the checks rebuild what changed.
set -u
cd "$(dirname "$0")/mc" || exit 2
export HOME="${HOME:-/root}" PATH="/root/.cargo/bin:$PATH" CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTUP_TOOLCHAIN=stable RUSTC_WRAPPER=
unset CARGO_TARGET_DIR RUSTFLAGS RUST_BACKTRACE CARGO_INCREMENTAL CARGO_PROFILE_DEV_DEBUG
exec cargo build --release --offline --locked --bins
