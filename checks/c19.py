"""C19: clean removes exactly the generated files.

State space: breadth-first search over all histories of edits (glue JSON, the file next to it, a page that
uses an image, a page that does not build), builds in both modes and cleans in every form (with and without
removing placeholders, asked or confirmed), with a reference model of what each clean must leave."""
import contextlib
import io
import os

from checks.c26 import CONF
from checks.c15 import source
from vp import bfs, env, site
import json

PUB = "src/public/"
JSON = json.dumps({"k": {"path": "/img/a.png", "width": 5, "height": 4}})
USER = "export default { mine: 1 };\n"
PAGE = "<!DOCTYPE html><html><head><title>t</title></head><body><!--[IMAGE: /img/a.png 4 4]--></body></html>"
BAD = "<!DOCTYPE html><html><head><title>t</title></head><body><!--[IMAGE: /img/a.png 400 4]--></body></html>"
KEEP = {"notes.txt": b"n", "output/www/a": b"o", "art/x": b"y", "src/out/b": b"z", "src/artifacts/c": b"z", "src/public/out/d.txt": b"d", ".gitignore": b"out/\n"}
OPS = [("json", "x"), ("json", None), ("deep", "x"), ("deep", None), ("sib", "user"), ("sib", "edited"), ("sib", None), ("page", "image"), ("page", "bad"), ("page", None),
       ("build", False), ("build", True), ("clean", False), ("clean", True), ("prompt", "y"), ("prompt", "n"), ("prompt", "x\nY"), ("flag", "--placeholders"), ("flag", "--no-placeholders")]
SIB = "public/js/x.images.js"
_FRESH = {}


def first_build(src, dev):
    k = (tuple(sorted(src.items())), dev)
    if k not in _FRESH:
        p = env.Project("c19f", config=env.default_config(images=CONF))
        for rel, d in src.items():
            p.put("src/" + rel, d)
        o = p.build(dev=dev, symlinks=dev)
        _FRESH[k] = site.canonical(p.www()) if o.ok else None
    return _FRESH[k]


def command(root, args, answers):
    from vanillaplusjs.runners import clean
    import builtins
    lines = list(answers)
    builtins.input = lambda *a: lines.pop(0)
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        clean.main(["--folder", root] + args)
    return out.getvalue()


def everything(p):
    out = {}
    for dp, dn, fn in os.walk(p.root):
        rd = os.path.relpath(dp, p.root)
        for n in fn:
            q = os.path.join(dp, n)
            with open(q, "rb") as f:
                out[os.path.normpath(os.path.join(rd, n))] = f.read() if os.path.exists(q) else b"?"
        if not fn and not dn:
            out[os.path.normpath(rd) + "/"] = None
    return out


def step(job):
    snap, model, op = job
    p = env.Project("c19", config=env.default_config(images=CONF))
    for rel, d in KEEP.items():
        q = p.path(rel)
        os.makedirs(os.path.dirname(q), exist_ok=True)
        if not rel.startswith("src/"):
            with open(q, "wb") as f:
                f.write(d)
    bad = []
    if op is None:
        p.set_sources({PUB + "js/x.images.json": JSON, PUB + "img/a.png": source(12, 10), PUB + "a.html": PAGE, PUB + "js/use.js": "1;", **{k: d for k, d in KEEP.items() if k.startswith("src/")}})
        return [], p.snapshot(), bfs.canon(p), {"json": "x", "deep": None, "page": "image", "gen": [], "cleaned": False}
    p.restore(snap)
    model = json.loads(json.dumps(model))
    k, v = op
    before = everything(p)
    sib = p.tree("src").get(SIB)
    if k in ("json", "deep", "page"):
        if model[k] == v:
            return None
        model[k] = v
        rel = {"json": "js/x.images.json", "deep": "js/a/b/y.images.json", "page": "a.html"}[k]
        text = {"json": JSON, "deep": "{}", "page": PAGE if v == "image" else BAD}[k]
        p.put(PUB + rel, text) if v else p.delete(PUB + rel)
        model["cleaned"] = False
    elif k == "sib":
        new = None if v is None else USER.encode() if v == "user" else (sib or b"") + b"// mine\n"
        if new == sib or (v == "edited" and (sib is None or sib.endswith(b"// mine\n"))):
            return None
        p.put("src/" + SIB, new) if new is not None else p.delete("src/" + SIB)
        model["gen"] = [g for g in model["gen"] if g != "src/" + SIB]
        model["cleaned"] = False
    elif k == "build":
        o = p.build(dev=v, symlinks=v)
        after = everything(p)
        model["gen"] = sorted(set(model["gen"]) | {f for f in after if f.startswith("src/") and f.endswith(".images.js") and f not in before})
        if o.ok and model["cleaned"]:
            want = first_build({r[4:]: d for r, d in before.items() if r.startswith("src/") and d is not None}, v)
            got = site.canonical(p.www())
            if want is not None and got != want:
                bad.append(("rebuild", "the build after the clean differs from a first build: " + env.diff_trees(got, want)))
        if not o.ok and model["page"] != "bad":
            bad.append(("fails", "the build fails: " + o.detail[-300:]))
        model["cleaned"] = False
    else:
        remove = v is True or v in ("y", "x\nY", "--placeholders")
        if k == "clean":
            o = p.clean(v)
        else:
            o = env.isolated(command, p.root, [v] if k == "flag" else [], [] if k == "flag" else v.split("\n"))
        after = everything(p)
        if not o.ok:
            bad.append(("clean", "cleaning fails: " + o.detail[-300:]))
        else:
            want = {f: d for f, d in before.items() if not f.startswith(("out/", "artifacts/"))}
            if remove:
                for g in model["gen"]:
                    want.pop(g, None)
            w = {f: d for f, d in want.items() if d is not None}
            a = {f: d for f, d in after.items() if d is not None}
            if a != w:
                bad.append(("files", "after cleaning: " + env.diff_trees(a, w)))
            if k == "prompt" and model["gen"] and any(f.startswith("out/") for f in before):
                for g in model["gen"]:
                    if g in before and g not in o.value:
                        bad.append(("prompt", "the question does not mention %s: %r" % (g, o.value)))
            if remove:
                model["gen"] = []
            model["cleaned"] = True
    return bad, p.snapshot(), bfs.canon(p), model


def run(c):
    bfs.search(c, "clean", step, OPS, maxdepth=None if env.THOROUGH else 7, cap=60000)
    c.assumptions += ["a generated placeholder which the user edited belongs to the user"]
