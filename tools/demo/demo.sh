#!/bin/bash
# Builds the scenario beside this file against /repo's program and runs it: 0 = it holds.
here=$(cd "$(dirname "$0")" && pwd)
export HOME=/root PATH=/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export RUSTUP_TOOLCHAIN=1.85.0 CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=0 CARGO_TERM_COLOR=never RUSTC_WRAPPER=
unset CARGO_BUILD_TARGET RUSTFLAGS CARGO_ENCODED_RUSTFLAGS
scratch=$(mktemp -d /tmp/demo.XXXXXXXX) || exit 2
trap 'rm -rf -- "$scratch"' EXIT
export CARGO_TARGET_DIR="${DEMO_TARGET_DIR:-$scratch/target}"
cp -r "$here/demo" "$scratch/demo" || exit 2
cd "$scratch/demo" || exit 2
if ! cargo build --release --offline >"$scratch/log" 2>&1; then
  grep -E -A6 '^error' "$scratch/log" | head -40
  tail -5 "$scratch/log"
  exit 2
fi
timeout 120 "$CARGO_TARGET_DIR/release/demo"
