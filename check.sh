#!/bin/bash
# check.sh <PROPERTY> [quick|thorough]: builds the monitors from /repo's working tree and runs one.
# Exit 0 held, 1 violated (VIOLATION lines on stdout), anything else: the check could not decide.
cd "$(dirname "$0")" || exit 2
prop="$1"; tier="${2:-${VERIF_TIER:-quick}}"
export JBKMON_DIR="$PWD"
scr="$(mktemp -d /dev/shm/jbkmon-XXXXXX 2>/dev/null || mktemp -d /tmp/jbkmon-XXXXXX)"
export JBKMON_SCRATCH="$scr"
trap 'chmod -R u+rwx "$scr" 2>/dev/null; rm -rf "$scr"' EXIT
bin="$(./build.sh release)" || { echo "cannot build the monitors from /repo"; exit 2; }
case "$prop" in
  C05|C06) bin2="$(./build.sh chk)" || { echo "cannot build the monitors from /repo"; exit 2; }; export JBKMON_CHK="$bin2";;
esac
case "$prop" in
  C04|C06|C10|C12) # the command line tool; the library is judged without it too
    cli="$(./build_cli.sh)" && export JBKMON_CLI="$cli";;
esac
case "$prop" in
  C06)
    bin3="$(./build_san.sh address)" || { echo "cannot build the monitors from /repo with AddressSanitizer"; exit 2; }; export JBKMON_ASAN="$bin3";;
  C07)
    bin2="$(./build_san.sh thread)" || { echo "cannot build the monitors from /repo with ThreadSanitizer"; exit 2; }; export JBKMON_TSAN="$bin2"
    if [ "$tier" = thorough ]; then
      bin3="$(./build_san.sh address)" || { echo "cannot build the monitors from /repo with AddressSanitizer"; exit 2; }; export JBKMON_ASAN="$bin3"
    fi;;
  C08)
    if [ "$tier" = thorough ]; then
      bin2="$(./build_san.sh thread)" || { echo "cannot build the monitors from /repo with ThreadSanitizer"; exit 2; }; export JBKMON_TSAN="$bin2"
    fi;;
esac
limit=0; [ "$tier" = quick ] && limit=690
out="$scr/.out"
timeout -k 10 "$limit" "$bin" "$prop" "$tier" | tee "$out"
rc=${PIPESTATUS[0]}
case "$rc" in 0|1) exit "$rc";; esac
# the monitor did not come to its end: what it told before counts
grep -q '^VIOLATION ' "$out" && exit 1
case "$rc" in
  132|134|135|136|139)
    # the code under test took the process down (abort, bad memory access)
    mkdir -p replay; echo "the process died (status $rc): VERIF_SEED=${VERIF_SEED:-1} ./check.sh $prop $tier" > "replay/$prop-died.txt"
    echo "VIOLATION property=$prop replay=$PWD/replay/$prop-died.txt"
    echo "  the process in which the code ran died with status $rc"
    exit 1;;
esac
exit 2
