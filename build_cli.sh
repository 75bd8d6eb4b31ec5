#!/bin/bash
# Builds the `jbk` command line tool of the repository the harness depends on. Prints the binary's path.
cd "$(dirname "$0")" || exit 2
. /opt/vp/env.sh
repo="$(sed -n 's/^jubako = { path = "\([^"]*\)".*/\1/p' harness/Cargo.toml)"
export CARGO_TARGET_DIR="${JBKMON_TARGET:-$PWD/target}/cli" CARGO_INCREMENTAL=0
mkdir -p "$CARGO_TARGET_DIR"
log="$CARGO_TARGET_DIR/build.log"
if ! (cd "$repo" && cargo build --offline --bin jbk --features all) >"$log" 2>&1; then
  grep -aE '^error' -A12 "$log" | head -60 >&2
  echo "build failed (see $log)" >&2
  exit 2
fi
echo "$CARGO_TARGET_DIR/debug/jbk"
