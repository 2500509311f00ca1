#!/bin/bash
# Build the simulator against /repo's current working tree.
cd "$(dirname "$0")" || exit 2
export CARGO_TARGET_DIR="$PWD/sim/target" CARGO_NET_OFFLINE=true
export RUSTFLAGS="--cfg z80emu_dst --cap-lints warn"
unset CARGO_BUILD_TARGET CARGO_ENCODED_RUSTFLAGS
log=$(mktemp)
if ! cargo build --release --offline --manifest-path sim/Cargo.toml >"$log" 2>&1; then
  cat "$log"
  echo "build failed"
  rm -f "$log"
  exit 2
fi
rm -f "$log"
