#!/bin/bash
# build.sh [profile]: builds the monitors from /repo's working tree, hooks on. Prints the binary's path.
cd "$(dirname "$0")/harness" || exit 2
. /opt/vp/env.sh
export CARGO_TARGET_DIR="${JBKMON_TARGET:-$(dirname "$PWD")/target}" RUSTFLAGS="--cfg jubako_verif ${JBKMON_RUSTFLAGS:-}" CARGO_INCREMENTAL=0
prof="${1:-release}"
log="$CARGO_TARGET_DIR/build-$prof.log"
mkdir -p "$CARGO_TARGET_DIR"
if ! cargo build --profile "$prof" --offline >"$log" 2>&1; then
  grep -aE '^error' -A12 "$log" | head -80 >&2
  echo "build failed (see $log)" >&2
  exit 2
fi
echo "$CARGO_TARGET_DIR/$prof/jbkmon"
