#!/bin/bash
# usage: check.sh <property id> [quick|thorough]      decide one property on /repo's working tree
#        check.sh <property id> replay <file>         re-run one recorded violation
# exit 0: held on everything explored; 1 + VIOLATION line: broken; anything else: the check itself failed.
set -u
VERIF_DIR="$(cd "$(dirname "$0")" && pwd)"; export VERIF_DIR
ID="$1"; TIER="${2:-${VERIF_TIER:-quick}}"
export HOME="${HOME:-/root}" PATH="/root/.cargo/bin:$PATH" CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
export RUSTUP_TOOLCHAIN=stable RUSTC_WRAPPER= VERIF_SEED="${VERIF_SEED:-1}"
unset CARGO_TARGET_DIR RUSTFLAGS RUST_BACKTRACE CARGO_INCREMENTAL CARGO_PROFILE_DEV_DEBUG
bin="$(echo "$ID" | tr 'A-Z' 'a-z')"
cd "$VERIF_DIR/mc" || exit 2
if ! cargo build --release --offline --locked --quiet --bin "$bin" 2>"$VERIF_DIR/mc/build-$bin.log"; then
  echo "$ID: the harness does not build against /repo" >&2; tail -40 "$VERIF_DIR/mc/build-$bin.log" >&2; exit 2
fi
rm -f "$VERIF_DIR/mc/build-$bin.log"
if [ "$TIER" = replay ]; then exec "target/release/$bin" --replay "$3"; fi
exec "target/release/$bin" --tier "$TIER"
