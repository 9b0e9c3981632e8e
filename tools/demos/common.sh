#!/bin/bash
# Runs demo.rs (beside this file) as an integration test of /repo's "common" crate in a scratch copy.
H=$(cd "$(dirname "$0")" && pwd)
W=$(mktemp -d /tmp/demo.XXXXXX) || exit 3
trap 'rm -rf "$W"' EXIT
. /opt/vp/common.sh
WS=$W/ws
prepare > "$W/prepare.log" 2>&1 || { cat "$W/prepare.log"; exit 3; }
mkdir -p "$WS/src/common/tests" "$W/target/debug"
cp "$H/demo.rs" "$WS/src/common/tests/demo.rs"
printf '\n[dev-dependencies]\ntokio = { version = "1", features = ["rt"] }\ntower = { version = "%s", features = ["util"] }\n' "$(sed -n '/^name = "tower"$/{n;s/version = "\(.*\)"/\1/p}' "$WS/Cargo.lock" | tail -1)" >> "$WS/src/common/Cargo.toml"
# the third-party crates are compiled already: start from a copy of them
for d in deps build .fingerprint; do cp -a "/opt/vp/target/debug/$d" "$W/target/debug/" 2>/dev/null; done
export CARGO_TARGET_DIR=$W/target CARGO_INCREMENTAL=0
cd "$WS" || exit 3
cargo test -q -p common --offline --test demo > "$W/out.log" 2>&1
rc=$?
tail -40 "$W/out.log"
exit $rc
