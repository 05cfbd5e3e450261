#!/bin/bash
# run.sh ID TIER: lays out /repo's working tree, builds the harness against it, runs one check.
set -u
. "$(dirname "$0")/env.sh"
mkdir -p $VERIF_DIR/work $VERIF_DIR/evidence
exec 9>$VERIF_DIR/work/lock
flock 9
python3 $VERIF_DIR/tools/layout.py || exit 2
cd $VERIF_DIR/mc/harness || exit 2
if ! cargo build --offline -q 2>$VERIF_DIR/work/build.log; then
  tail -60 $VERIF_DIR/work/build.log >&2
  exit 2
fi
flock -u 9
ulimit -v 25000000
exec "$VERIF_DIR/work/target/debug/harness" "$1" "$2"
