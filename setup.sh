#!/bin/bash
# Full build of the mirrored crates and the checks into /verif/build (reused by every check).
cd "$(dirname "$0")" || exit 2
. harness/env.sh
export CARGO_TARGET_DIR=$PWD/build/target
mkdir -p build/logs
python3 harness/sync.py || exit 1
cd harness && cargo build -q --offline --locked --workspace --keep-going > ../build/logs/setup.log 2>&1
rc=$?
[ $rc = 0 ] || grep -A12 '^error' ../build/logs/setup.log | head -80
exit $rc
