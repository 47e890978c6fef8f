#!/bin/bash
# Builds the simulators from the committed files and /repo's working tree. One by one, as check.sh
# does: together they would be built with other features.
cd "$(dirname "$0")/sim" || exit 2
. /opt/vp/env.sh
export CARGO_TARGET_DIR=/verif/target CARGO_NET_OFFLINE=true
cargo build --offline --release -p chainsim && cargo build --offline --release -p oraclesim && cargo build --offline --release -p clisim
