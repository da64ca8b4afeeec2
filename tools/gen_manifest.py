#!/usr/bin/env python3
"""Writes MANIFEST.json from checks.py and properties.jsonl, and the fixed: lines of known_findings.txt from /repo's history."""
import json, os, sys, subprocess, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V); sys.dont_write_bytecode = True
from checks import CHECKS
from not_applicable import NA, FIX_PROPERTY
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
checks = []
for p in props:
    id = p["id"]
    if id not in CHECKS: continue
    c = CHECKS[id]
    checks.append(dict(property=id, quick_cmd="python3 check.py %s --tier quick" % id, thorough_cmd="python3 check.py %s --tier thorough" % id,
        evidence_file="evidence/%s.json" % id, technique=c["technique"], level="exploration",
        level_note="Generated-input search against an explicit oracle, under ASan; no violation on the cases explored, which is not a proof. " + c["note"]))
na = [dict(property=p["id"], reason=NA.get(p["id"], "no check built yet")) for p in props if p["id"] not in CHECKS]
json.dump(dict(version=1, setup_cmd="sh setup.sh", hooks=dict(guard="NEOLIB_VERIF", enable="no hooks are needed: the harnesses compile /repo's sources as they are", source_commits=[]),
    checks=checks, not_applicable=na, notes="See DESIGN.md. Harness builds are cached in .build/ (git-ignored), keyed on the content of /repo/include, /repo/src and the harness."),
    open(V + "/MANIFEST.json", "w"), indent=1)
kf = V + "/known_findings.txt"
keep = [l for l in open(kf).read().splitlines() if not l.startswith("fixed:")]
log = subprocess.run(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s"], capture_output=True, text=True).stdout.splitlines()
for l in log:
    h, s = l.split(" ", 1)
    if not s.startswith("fix: "): continue
    s = s[5:]; k = s.split(":", 1)[0]
    keep.append("fixed: property=%s %s %s" % (FIX_PROPERTY[k], h, s))
open(kf, "w").write("\n".join(keep) + "\n")
print(len(checks), "checks;", len(na), "not claimed")
