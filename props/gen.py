#!/usr/bin/env python3
"""Builds properties.jsonl and MANIFEST.json from props/*.json5-like python files (props/*.py define P lists)."""
import json, os, runpy, glob
here = os.path.dirname(os.path.abspath(__file__))
root = os.path.dirname(here)
props = []
for f in sorted(glob.glob(here + "/p_*.py")):
    props += runpy.run_path(f)["P"]
props.sort(key=lambda p: p["id"])
with open(root + "/properties.jsonl", "w") as o:
    for p in props:
        assert len(p["title"]) <= 80, p["title"]
        a = {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]]}
        if "observe" in p:
            a["observe_at"] = p["observe"]
        o.write(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["text"]},
            "why_tests_cant": p["why"], "anchors": a}) + "\n")
checks, na = [], []
for p in props:
    if p.get("na"):
        na.append({"property": p["id"], "reason": p["na"]})
        continue
    checks.append({
        "property": p["id"],
        "quick_cmd": f"bash check.sh {p['id']} quick",
        "thorough_cmd": f"bash check.sh {p['id']} thorough",
        "technique": p["technique"],
        "level": p.get("level", "exploration"),
        "level_note": p["note"]})
json.dump({"version": 1, "setup_cmd": "bash setup.sh", "checks": checks, "not_applicable": na,
           "notes": "Checks mirror /repo/src/* into harness/repo on every run and build them against stand-ins (harness/shims) for crates absent offline; see DESIGN.md. Generated by props/gen.py."},
          open(root + "/MANIFEST.json", "w"), indent=1)
print(len(props), "properties,", len(checks), "checks")
