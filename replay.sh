#!/bin/bash
# replay.sh <file>: re-execute a replay file against /repo's working tree.
cd "$(dirname "$0")" || exit 2
. /opt/vp/env.sh
export CARGO_TARGET_DIR=/verif/target CARGO_NET_OFFLINE=true VERIF_ROOT=/verif
B=$(python3 -c 'import json,sys; print(json.load(open(sys.argv[1]))["simulator"])' "$1") || exit 2
(cd sim && cargo build --offline --release -p "$B" -q) || exit 3
if [ "$B" = chainsim ]; then (cd sim && cargo build --offline --release -p clisim -q) || exit 3; fi
exec target/release/$B replay "$1"
