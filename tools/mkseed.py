#!/usr/bin/env python3
"""mkseed.py ID < spec: makes and confirms a planted bug.  spec is Python: P, NEEDS, BREAKS, EDITS={file:[(old,new)]}, DEMO (python).
Confirms: applies, passes the suite's stable tests, demo 0 without / nonzero with.  Uses /repo's working tree and restores it."""
import json, os, subprocess, sys, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sid = sys.argv[1]
LIB = r"""
import atexit, json, os, re, shutil, sys, tempfile, warnings
warnings.simplefilter("ignore")
from loguru import logger
logger.remove()
from vanillaplusjs.constants import CONFIGURATION_VERSION
from vanillaplusjs.runners.build import build as _build
IMAGES = {"formats": {"png": {"exports": {"a": {"min_area_px2": None, "max_area_px2": None, "preference": 1, "formatter_kwargs": {}}}, "minimum_unit_size_bytes": 85000}}, "default_format": "png", "maximum_resolution": 1, "resolution_step": "1"}
D = tempfile.mkdtemp()
atexit.register(shutil.rmtree, D, True)
P = os.path.join(D, "proj")
os.makedirs(P + "/src/public"); os.makedirs(P + "/src/partials")
def config(**kw):
    c = {"version": CONFIGURATION_VERSION, "host": "example.com", "images": IMAGES, "auto_generate_images_js_placeholders": True, "external_files": {}, "js_constants": {"relpath": "src/public/js/constants.js", "shared": {}, "dev": {"A": "dev"}, "prod": {"A": "prod"}}}
    c.update(kw)
    json.dump(c, open(P + "/vanillaplusjs.json", "w"))
config()
def put(rel, data):
    p = os.path.join(P, rel)
    os.makedirs(os.path.dirname(p), exist_ok=True)
    if os.path.lexists(p): os.unlink(p)
    open(p, "wb").write(data if isinstance(data, bytes) else data.encode())
def rm(rel): os.unlink(os.path.join(P, rel))
def get(rel): return open(os.path.join(P, "out/www", rel), "rb").read().decode()
def www(): return {os.path.relpath(os.path.join(dp, f), P + "/out/www"): open(os.path.join(dp, f), "rb").read() for dp, _, fs in os.walk(P + "/out/www") for f in fs}
def build(dev=False, symlinks=False): _build(P, dev=dev, symlinks=symlinks, delay_files=[])
def clean():
    shutil.rmtree(P + "/out", True); shutil.rmtree(P + "/artifacts", True)
def png(rel, w=8, h=8, color=(9, 8, 7)):
    from PIL import Image
    import io
    b = io.BytesIO(); Image.new("RGB", (w, h), color).save(b, "PNG"); put(rel, b.getvalue())
def ver(rel):
    import hashlib, base64
    return base64.urlsafe_b64encode(hashlib.sha256(open(os.path.join(P, "out/www", rel), "rb").read()).digest()).decode()
if __name__ != "__main__": D = None
"""
ns = {}
exec(sys.stdin.read(), ns)
sh = lambda c, **k: subprocess.run(c, shell=True, capture_output=True, text=True, **k)
assert not sh("git -C /repo status --short").stdout.strip(), "repo dirty"
d = os.path.join(V, "seeded", sid)
os.makedirs(d, exist_ok=True)
try:
    for f, es in ns["EDITS"].items():
        p = os.path.join("/repo", f)
        s = open(p, newline="").read()
        crlf = "\r\n" in s
        t = s.replace("\r\n", "\n")
        for old, new in es:
            assert t.count(old) == 1, (f, t.count(old), old)
            t = t.replace(old, new)
        open(p, "w", newline="").write(t.replace("\n", "\r\n") if crlf else t)
    diff = subprocess.run("git -C /repo diff --binary", shell=True, capture_output=True).stdout
    open(d + "/patch.diff", "wb").write(diff)
    open(d + "/demo.py", "w").write((LIB if ns.get("LIB", 1) else "") + ns["DEMO"])
    open(d + "/demo.sh", "w").write('#!/bin/bash\nset -e\nexport PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD"\nexec timeout 250 /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
    json.dump({"property": ns["P"], "needs": ns["NEEDS"], "what_it_breaks": ns["BREAKS"]}, open(d + "/meta.json", "w"), indent=1)
    r1 = sh("cd /repo && bash %s/demo.sh" % d)
    t1 = sh("bash /opt/vp/build.sh; bash /opt/vp/test.sh /tmp/seedtest.json | tail -1; python3 -c \"import json;a=json.load(open('/opt/vp/BASELINE.json'));b=json.load(open('/tmp/seedtest.json'));print(len(b.get('passed',b)), [t for t in (a.get('stable') or a.get('passed') or a) if t not in b['passed']])\"")
finally:
    sh("git -C /repo checkout -- .")
r0 = sh("cd /repo && bash %s/demo.sh" % d)
print("patched demo rc", r1.returncode, (r1.stdout + r1.stderr)[-300:])
print("tests", t1.stdout[-300:], t1.stderr[-300:])
print("clean demo rc", r0.returncode, (r0.stdout + r0.stderr)[-600:])
