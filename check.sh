#!/bin/bash
# check.sh ID quick|thorough [--replay FILE]: mirror /repo's working tree, build the crate's check, run it.
cd "$(dirname "$0")" || exit 2
V=$PWD
export VERIF_DIR=$V
. harness/env.sh
export CARGO_TARGET_DIR=$V/build/target
ID=$1
TIER=${2:-${VERIF_TIER:-quick}}
shift 2
mkdir -p build/logs evidence
case $ID in
    C*) BIN=chk-common ;;
    S*) BIN=chk-storage ;;
    M*) BIN=chk-metadata ;;
    Q*) BIN=chk-query ;;
    I*) BIN=chk-ingester ;;
    P*) BIN=chk-platform ;;
    X*) BIN=chk-cmd ;;
    *) echo "unknown property $ID"; exit 2 ;;
esac
LOG=build/logs/$BIN.log
build() {
    python3 harness/sync.py "$@" || return 1
    (cd harness && cargo build -q --offline --locked -p "$BIN") > "$LOG" 2>&1
}
exec 9> build/lock
flock 9
if ! build; then
    if grep -q 'let chains are only allowed' "$LOG"; then
        build common=2024 storage=2024 metadata=2024 ingester=2024 || { echo "build failed"; grep -A12 '^error' "$LOG" | head -60; exit 3; }
    else
        echo "build failed"; grep -A12 '^error' "$LOG" | head -60; exit 3
    fi
fi
cp -f "build/target/debug/$BIN" "build/$BIN.$$" || exit 3
exec 9>&-
export VERIF_TIER=$TIER
"build/$BIN.$$" "$ID" "$TIER" "$@"
rc=$?
rm -f "$V/build/$BIN.$$"
exit $rc
