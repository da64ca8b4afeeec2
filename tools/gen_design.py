#!/usr/bin/env python3
"""Writes the per-property part of DESIGN.md (between the markers) from properties.jsonl, checks.py, design_notes.py, seeded/ and /repo's history."""
import json, os, sys, re, glob, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V); sys.path.insert(0, V + "/tools"); sys.dont_write_bytecode = True
from checks import CHECKS
from not_applicable import NA, FIX_PROPERTY
from design_notes import NOTES
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
fixes = {}
for l in subprocess.run(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s"], capture_output=True, text=True).stdout.splitlines():
    h, s = l.split(" ", 1)
    if s.startswith("fix: "): fixes.setdefault(FIX_PROPERTY[s[5:].split(":", 1)[0]], []).append((h, s[5:]))
out = []
for p in props:
    id = p["id"]; out += ["### %s — %s" % (id, p["title"]), ""]
    if id not in CHECKS: out += ["Not applicable: " + NA[id], ""]; continue
    src = "".join(open(V + "/props/" + s).read() for s in CHECKS[id]["src"])
    suites = re.findall(r'PBT_SUITE\("([^"]+)"', src)
    san = {True: "AddressSanitizer", "thread": "ThreadSanitizer", False: "no sanitizer"}[CHECKS[id]["asan"]]
    o, lim = NOTES[id]
    out += ["* **Decided by** generated cases (`props/%s`, %s). %s" % (CHECKS[id]["src"][0], san, CHECKS[id].get("rule", ""))]
    out += ["* **Oracle:** %s." % o] + (["* **Bounds, not claimed:** %s" % lim] if lim != "-" else [])
    out += ["* **Beyond the tests because:** " + p["why_tests_cant"]]
    if id in fixes: out += ["* **Defects found and repaired (%d):** " % len(fixes[id]) + "; ".join("%s (%s)" % (s, h) for h, s in fixes[id])]
    out += [""]
seeds = []
for d in sorted(glob.glob(V + "/seeded/*")):
    m = json.load(open(d + "/meta.json"))
    f = sorted({l[6:].strip() for l in open(d + "/patch.diff", errors="replace") if l.startswith("+++ b/")})
    seeds.append("| %s | %s | %s | %s | %s |" % (os.path.basename(d), m["property"], ", ".join(x.replace("include/neolib/", "") for x in f), m["what_it_breaks"], m["needs"]))
seeds = ["| planted bug | caught by | file | breaks | needs |", "|---|---|---|---|---|"] + seeds
s = open(V + "/DESIGN.md").read()
for tag, body in (("PROPERTIES", out), ("SEEDED", seeds)):
    a, b = "<!-- %s -->" % tag, "<!-- /%s -->" % tag
    i, j = s.index(a) + len(a), s.index(b)
    s = s[:i] + "\n" + "\n".join(body) + "\n" + s[j:]
open(V + "/DESIGN.md", "w").write(s)
