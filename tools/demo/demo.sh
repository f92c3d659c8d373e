#!/bin/bash
# Builds and runs the demonstration beside this file against /repo's working tree.
H=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/env.sh
D=$(mktemp -d /tmp/demo-XXXXXX)
trap 'rm -r "$D"' EXIT
cp -r "$H/crate" "$D/crate"
cd "$D/crate" || exit 2
export CARGO_TARGET_DIR=${CARGO_TARGET_DIR:-/repo/target}
cargo build --offline -q 2>"$D/err" || { tail -30 "$D/err"; exit 2; }
cd "$D" && TMPDIR="$D" timeout 100 "$CARGO_TARGET_DIR/debug/demo"
