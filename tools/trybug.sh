#!/bin/bash
# trybug.sh ID...: apply a seeded bug to /repo, run its demo and its property's quick check, undo it.
for id in "$@"; do
    d=/verif/seeded/$id
    prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
    T=$(mktemp -d /tmp/try.XXXXXX); cp "$d"/* "$T/"; rm -f "$T/patch.diff" "$T/meta.json"
    (cd /repo && bash "$T/demo.sh" > "$T/clean.log" 2>&1); c=$?
    git -C /repo apply "$d/patch.diff" || { echo "$id: does not apply"; continue; }
    (cd /repo && bash /opt/vp/build.sh > "$T/build.log" 2>&1); b=$?
    (cd /repo && bash "$T/demo.sh" > "$T/bug.log" 2>&1); m=$?
    VERIF_SEED=1 /verif/check.sh "$prop" quick > "$T/check.log" 2>&1; k=$?
    git -C /repo checkout -q -- .
    echo "$id: demo clean=$c build=$b demo bug=$m check($prop)=$k"
    [ $c = 0 ] || tail -15 "$T/clean.log"
    [ $k = 1 ] || tail -5 "$T/check.log"
    [ $m = 0 ] && tail -5 "$T/bug.log"
    mkdir -p /tmp/trylogs; cp "$T/bug.log" /tmp/trylogs/$id.bug.log; cp "$T/check.log" /tmp/trylogs/$id.check.log
    rm -rf "$T"
done
