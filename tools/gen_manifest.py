"""Writes properties.jsonl and MANIFEST.json from the table in tools/props.py."""

import json
import os
import sys

here = os.path.dirname(os.path.abspath(__file__))
root = os.path.dirname(here)
sys.path.insert(0, here)
from props import PROPS  # noqa: E402

with open(os.path.join(root, "properties.jsonl"), "w") as f:
    for p in PROPS:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["text"]},
            "why_tests_cant": p["why"],
            "anchors": {
                "files": p["files"],
                "mechanism": [{"name": n, "where": w} for n, w in p["mechanism"]],
                "observe_at": p["observe"],
                "hook_needed": None,
            },
        }) + "\n")

checks = []
for p in PROPS:
    checks.append({
        "property": p["id"],
        "quick_cmd": f"./check.sh {p['id']} quick",
        "thorough_cmd": f"./check.sh {p['id']} thorough",
        "evidence_file": f"evidence/{p['id']}.json",
        "technique": p["technique"],
        "level": "exploration",
        "level_note": p["note"],
    })
manifest = {
    "version": 1,
    "setup_cmd": "./setup.sh",
    "checks": checks,
    "not_applicable": [],
    "notes": "Every check imports the library from /repo's working tree. No hooks in /repo. "
             "Known and fixed defects are listed in KNOWN_FINDINGS.txt.",
}
with open(os.path.join(root, "MANIFEST.json"), "w") as f:
    json.dump(manifest, f, indent=1)
    f.write("\n")
print(len(PROPS), "properties")

# DESIGN.md
from design import D  # noqa: E402

out = [open(os.path.join(here, "design_head.md")).read().rstrip(), "", "## Properties", ""]
for p in PROPS:
    d = D[p["id"]]
    out += [f"### {p['id']} {p['title']}", "", f"{p['statement']}", "",
            f"* Generated: {d['generated']}", f"* Oracle: {d['oracle']}", f"* Bounds: {d['bounds']}",
            f"* Cost: {d['cost']} (quick)", f"* Why tests cannot settle it: {p['why']}", ""]
out += [open(os.path.join(here, "design_tail.md")).read().rstrip(), ""]
out += ["## Planted bugs", "", "Result of the quick check of the bug's property, run against a copy of the repository with the bug.", "",
        "| bug | needs | caught by |", "|---|---|---|"]
res = {}
path = os.path.join(here, "caught.txt")
if os.path.exists(path):
    for line in open(path):
        if line.strip():
            a, b = line.split(None, 1)
            res[a] = b.strip()
seeded = os.path.join(root, "seeded")
for b in sorted(os.listdir(seeded)):
    m = json.load(open(os.path.join(seeded, b, "meta.json")))
    out.append(f"| {b} | {m['needs']} | {res.get(b, 'not run')} |")
out.append("")
with open(os.path.join(root, "DESIGN.md"), "w") as f:
    f.write("\n".join(out))
