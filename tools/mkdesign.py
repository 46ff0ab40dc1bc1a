#!/usr/bin/env python3
"""DESIGN.md from tools/design_head.md, properties.jsonl, levels.py, fixed.txt, seeded/ (+ caught.txt) and tools/design_tail.md"""
import glob, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ns = {}
exec(open(V + "/tools/levels.py").read(), ns)
out = [open(V + "/tools/design_head.md").read()]
out.append("## Properties: what is explored, against what, within which bounds\n")
for l in open(V + "/properties.jsonl"):
    d = json.loads(l)
    if d["id"] in ns["LEVELS"]:
        t, _, note = ns["LEVELS"][d["id"]]
        doc = open(V + "/checks/%s.py" % d["id"].lower()).read().split('"""')[1].split("\n", 1)
        out.append("### %s %s\n\n*%s.* %s\n\n%s\n" % (d["id"], d["title"], t[0].upper() + t[1:], note, " ".join(doc[1].split()) if len(doc) > 1 else ""))
times = json.load(open(V + "/tools/times.json")) if os.path.exists(V + "/tools/times.json") else {}
if times:
    out.append("### Cost\n\nSeconds of the quick checks on 8 cores: " + ", ".join("%s %d" % (k, times[k]) for k in sorted(times)) + ".\n")
out.append("## Defects found and repaired\n\nEach was found by the check of the property named, shown on the real code, and is one `fix:` commit in /repo\n(`known_findings.json` lists them as fixed; none are left as known findings). For those whose commit can be\nreverted alone, the check was run against the reverted code.\n")
for l in open(V + "/tools/fixed.txt"):
    h, p, w = l.split(" ", 2)
    out.append("* %s %s: %s" % (p, h, w.strip()))
caught = {}
if os.path.exists(V + "/tools/caught.txt"):
    for l in open(V + "/tools/caught.txt"):
        a, b = l.split(" ", 1)
        caught[a] = b.strip()
out.append("\n## Planted bugs\n\nEach passes the existing tests and has a demonstration (`seeded/`).\n\n| bug | property | needs | caught by |\n|---|---|---|---|")
for f in sorted(glob.glob(V + "/seeded/*/meta.json")):
    s = f.split("/")[-2]
    d = json.load(open(f))
    out.append("| %s | %s | %s | %s |" % (s, d["property"], d["needs"].replace("|", "\\|"), caught.get(s, "?")))
if os.path.exists(V + "/tools/mutants.md"):
    out.append("\n" + open(V + "/tools/mutants.md").read())
out.append("\n" + open(V + "/tools/design_tail.md").read())
open(V + "/DESIGN.md", "w").write("\n".join(out))
