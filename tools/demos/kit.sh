#!/bin/bash
# Builds /repo's crates (src/<crate>/src as they are now) with demo.rs (beside this file) in a scratch
# directory and runs it. kit.tgz holds manifests, a lock file and small stand-ins for the dependencies that
# cannot be fetched here.
H=$(cd "$(dirname "$0")" && pwd)
W=$(mktemp -d /tmp/demo.XXXXXX) || exit 3
trap 'rm -rf "$W"' EXIT
tar xzf "$H/kit.tgz" -C "$W" || exit 3
cd "$W/kit" || exit 3
. ./env.sh
export CARGO_TARGET_DIR=$W/target CARGO_INCREMENTAL=0 TMPDIR=$W/tmp
mkdir -p "$TMPDIR" "$W/target/debug"
python3 sync.py || exit 3
cp "$H/demo.rs" demo/src/main.rs
# third-party crates that are compiled already
for d in deps build .fingerprint; do cp -a "/opt/vp/target/debug/$d" "$W/target/debug/" 2>/dev/null; done
cargo build -q --offline -p demo > "$W/build.log" 2>&1 || { grep -A9 '^error' "$W/build.log" | tail -40; exit 3; }
timeout 120 "$W/target/debug/demo" > "$W/out.log" 2>&1
rc=$?
tail -40 "$W/out.log"
exit $rc
