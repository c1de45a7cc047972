#!/bin/bash
# Builds the simulator together with /repo's current working tree, offline. Quiet unless it fails.
export HOME=/root PATH=/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export RUSTUP_TOOLCHAIN=1.85.0 CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=0 CARGO_TERM_COLOR=never RUSTC_WRAPPER=
export CARGO_TARGET_DIR=/verif/sim/target
unset CARGO_BUILD_TARGET RUSTFLAGS CARGO_ENCODED_RUSTFLAGS
cd /verif/sim || exit 2
mkdir -p "$CARGO_TARGET_DIR"
exec 9>"$CARGO_TARGET_DIR/.lock"
flock 9
# cargo decides by modification times; content decides here
now=$(cd /repo && find . -path ./target -prune -o -path ./.git -prune -o -path ./node_modules -prune -o -type f \( -name '*.rs' -o -name '*.toml' -o -name '*.json' -o -name '*.lock' \) -print0 | sort -z | xargs -0 sha256sum | sha256sum)
now="$now $(find src stubs .cargo Cargo.toml Cargo.lock -type f -print0 | sort -z | xargs -0 sha256sum | sha256sum)"
stamp="$CARGO_TARGET_DIR/.content"
if [ "$(cat "$stamp" 2>/dev/null)" = "$now" ] && [ -x "$CARGO_TARGET_DIR/release/dbc-sim" ]; then
  exit 0
fi
rm -f "$stamp"
for c in dynamic-bonding-curve damm-v2 dynamic-amm locker dbc-sim; do
  for d in /verif/sim/target/release/.fingerprint/"$c"-*; do
    [ -d "$d" ] && rm -rf -- "$d"
  done
done
log="$CARGO_TARGET_DIR/build.log"
if ! cargo build --release --offline >"$log" 2>&1; then
  grep -E -A6 '^error' "$log" | head -60
  tail -5 "$log"
  echo "build failed"
  exit 2
fi
echo "$now" >"$stamp"
