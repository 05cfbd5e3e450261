#!/bin/bash
# Builds the harness once, so that each check only rebuilds what changed.
. "$(dirname "$0")/env.sh"
mkdir -p $VERIF_DIR/work $VERIF_DIR/evidence
python3 $VERIF_DIR/tools/layout.py || exit 1
cd $VERIF_DIR/mc/harness && cargo build --offline -q
