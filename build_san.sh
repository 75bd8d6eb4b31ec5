#!/bin/bash
# build_san.sh thread|address: the monitors and everything below them (std, zstd, lz4, lzma) under a sanitizer. Prints the binary's path.
cd "$(dirname "$0")/harness" || exit 2
. /opt/vp/env.sh
san="$1"
export CARGO_TARGET_DIR="${JBKMON_TARGET:-$(dirname "$PWD")/target}/$san" CARGO_INCREMENTAL=0
export RUSTFLAGS="--cfg jubako_verif --cfg jbkmon_san -Zsanitizer=$san --cfg crossbeam_sanitize_thread -Cdebuginfo=1"
export CC=clang CFLAGS="-fsanitize=$san -g1 -fno-omit-frame-pointer"
mkdir -p "$CARGO_TARGET_DIR"
log="$CARGO_TARGET_DIR/build.log"
extra=""; [ "$san" = thread ] && extra="-Zbuild-std"
if ! cargo +nightly build --release --offline --target x86_64-unknown-linux-gnu $extra >"$log" 2>&1; then
  grep -aE '^error' -A12 "$log" | head -60 >&2
  echo "build failed (see $log)" >&2
  exit 2
fi
echo "$CARGO_TARGET_DIR/x86_64-unknown-linux-gnu/release/jbkmon"
