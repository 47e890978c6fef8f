#!/bin/bash
# check.sh <property>: rebuild from /repo's working tree, then search. Tier and seed come from the
# environment (VERIF_TIER, VERIF_SEED).
cd "$(dirname "$0")" || exit 2
. /opt/vp/env.sh
export CARGO_TARGET_DIR=/verif/target CARGO_NET_OFFLINE=true VERIF_ROOT=/verif
P=$1
case $P in
  C13|C14|C15|C16|C17|C18|C24) B=oraclesim ;;
  *) B=chainsim ;;
esac
mkdir -p target
log=target/build-$B-$P.log
build() { (cd sim && cargo build --offline --release -p $B "$@") >>"$log" 2>&1; }
: >"$log"
# second try: without the consumers written with Anchor
if ! build && ! { [ $B = chainsim ] && build --no-default-features; }; then
  echo "the simulator does not build against this tree:" >&2
  tail -40 "$log" >&2
  exit 3
fi
case $P in
  C21|C22)
    # the command line tool is a program of its own
    if ! (cd sim && cargo build --offline --release -p clisim) >>"$log" 2>&1; then
      echo "the command line tool does not build against this tree:" >&2
      tail -40 "$log" >&2
      exit 3
    fi ;;
esac
exec target/release/$B check "$P"
