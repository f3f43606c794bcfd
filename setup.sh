#!/bin/bash
# Builds the monitors (dependencies included), so that a check only has to rebuild /repo's crate and the harness.
cd "$(dirname "$0")" || exit 2
export CARGO_TARGET_DIR="$PWD/harness/target" CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=1
cd harness && exec cargo build --offline --release --quiet
