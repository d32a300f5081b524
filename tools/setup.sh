#!/bin/bash
# Builds the monitors, so that the first check does not pay for it.
cd "$(dirname "$0")/.." || exit 2
export CARGO_TARGET_DIR=${HBMON_TARGET:-$PWD/target} CARGO_NET_OFFLINE=true
mkdir -p "$CARGO_TARGET_DIR" evidence
. tools/build.sh
python3 tools/configs.py C27 build
