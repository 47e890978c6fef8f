#!/bin/bash
# Runs main.rs, linked against /repo's crates, in a scratch copy. Exit 0: the property held.
here=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/env.sh
d=$(mktemp -d) || exit 2
trap 'rm -rf "$d"' EXIT
cp "$here"/*.rs "$here/Cargo.toml" "$d"/ && cp /repo/Cargo.lock "$d"/ && cd "$d" || exit 2
t=/repo/target
# (artifacts of another workspace in a shared target directory can be stale: build afresh then)
CARGO_TARGET_DIR=$t cargo build --offline -q 2>"$d/log" || {
    t=$d/target
    CARGO_TARGET_DIR=$t cargo build --offline -q 2>"$d/log" || { tail -30 "$d/log"; exit 2; }
}
timeout 120 "$t/debug/demo"
