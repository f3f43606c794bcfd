#!/bin/bash
# usage: check.sh PROPERTY   (VERIF_TIER=quick|thorough, VERIF_SEED=n)
# Builds the monitors together with /repo's current working tree, then runs the check of one property.
cd "$(dirname "$0")" || exit 2
export VERIF_DIR="$PWD"
export CARGO_TARGET_DIR="$PWD/harness/target" CARGO_NET_OFFLINE=true
export CARGO_INCREMENTAL=1
log=$(mktemp /tmp/rtmon-build.XXXXXX)
(cd harness && cargo clean --offline --release --quiet -p rustextile) >/dev/null 2>&1
if ! (cd harness && cargo build --offline --release --quiet) >"$log" 2>&1; then
    cat "$log" >&2
    rm -f "$log"
    echo "build failed" >&2
    exit 2
fi
rm -f "$log"
exec ./harness/target/release/rtmon check "$1"
