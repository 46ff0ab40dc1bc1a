"""Writes the "fixed" list of known_findings.json from tools/fixed.txt (abbreviated commit, property, what failed)."""
import json, os, subprocess
here = os.path.dirname(os.path.abspath(__file__))
out = []
for line in open(os.path.join(here, "fixed.txt")):
    h, p, what = line.strip().split(" ", 2)
    full = subprocess.check_output(["git", "-C", "/repo", "rev-parse", h], text=True).strip()
    out.append("fixed: property=%s %s %s" % (p, full[:12], what))
path = os.path.join(here, "..", "known_findings.json")
k = json.load(open(path))
k["fixed"] = out
json.dump(k, open(path, "w"), indent=1)
open(path, "a").write("\n")
