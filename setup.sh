#!/bin/bash
# Builds the monitors from the committed files (offline).
cd "$(dirname "$0")" || exit 2
./build.sh release && ./build.sh chk && { ./build_cli.sh || true; }
