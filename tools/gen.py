#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the tables in props.py."""
import json, os
from props import CLAIMED, NOT_APPLICABLE
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def prop(p):
    return {"id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["quant"]},
            "why_tests_cant": p["why"],
            "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]]}}
with open(os.path.join(root, "properties.jsonl"), "w") as f:
    for p in CLAIMED + NOT_APPLICABLE:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(prop(p)) + "\n")
man = {"version": 1, "setup_cmd": "bash /verif/check.sh all",
       "checks": [{"property": p["id"], "quick_cmd": "bash check.sh %s quick" % p["id"],
                   "thorough_cmd": "bash check.sh %s thorough" % p["id"],
                   "technique": p["technique"], "level": "other", "level_note": p["note"]} for p in CLAIMED],
       "not_applicable": [{"property": p["id"], "reason": p["reason"]} for p in NOT_APPLICABLE],
       "notes": "One static analyser (/verif/checker, Go, x/tools/go/ssa) decides all properties from /repo's current source; nothing of /repo is executed. See DESIGN.md."}
json.dump(man, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
print(len(CLAIMED), "claimed,", len(NOT_APPLICABLE), "not applicable")

# ---- DESIGN.md
import glob, re, subprocess
def rules(pid):
    out = []
    for f in sorted(glob.glob(os.path.join(root, "checker", "c*.go"))):
        src = open(f).read()
        out.append((f, src))
    ev = os.environ.get("EVIDENCE", "/tmp/w/evidence")
    p = os.path.join(ev, pid + ".json")
    if not os.path.exists(p):
        p = os.path.join(root, "evidence", pid + ".json")
    if not os.path.exists(p):
        return []
    d = json.load(open(p))["coverage"]
    return [(k, v["rule"], v["instances"]) for k, v in sorted(d["rules"].items())]
head = open(os.path.join(root, "tools", "design_head.md")).read()
tail = open(os.path.join(root, "tools", "design_tail.md")).read()
seeds = {}
for m in sorted(glob.glob(os.path.join(root, "seeded", "*", "meta.json"))):
    d = json.load(open(m))
    seeds.setdefault(d["property"], []).append((os.path.basename(os.path.dirname(m)), d))
finds = [l.strip() for l in open(os.path.join(root, "known-findings.txt")) if l.startswith(("fixed:", "known:"))]
o = [head, "## Claimed properties\n"]
for p in CLAIMED:
    o.append("### %s - %s\n" % (p["id"], p["title"]))
    o.append(p["statement"] + "\n")
    o.append("*For every:* %s.\n" % p["quant"])
    o.append("*Technique:* %s.\n" % p["technique"])
    o.append("*Decides / trusts / bounds:* %s\n" % p["note"])
    o.append("*Beyond tests:* %s\n" % p["why"])
    r = rules(p["id"])
    if r:
        o.append("*Rules (obligations on the current tree):*\n")
        o += ["- `%s` (%s): %s" % x for x in r]
        o.append("")
    for l in finds:
        if "property=%s " % p["id"] in l:
            o.append("- defect, " + l)
    o.append("")
    for n, d in seeds.get(p["id"], []):
        o.append("- planted bug `%s`, caught by this check: %s" % (n, d["what_it_breaks"]))
    o.append("")
if NOT_APPLICABLE:
    o.append("## Not applicable to static analysis here\n")
    for p in NOT_APPLICABLE:
        o.append("- **%s - %s.** %s *Why not:* %s" % (p["id"], p["title"], p["statement"], p["reason"]))
o.append(tail)
extra = os.path.join(root, "tools", "design_notes.md")
if os.path.exists(extra):
    o.append(open(extra).read())
open(os.path.join(root, "DESIGN.md"), "w").write("\n".join(o))
