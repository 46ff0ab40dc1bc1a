"""C20: init is idempotent and never overwrites user files.

State space: every combination of pre-existing configuration, start page, folders and host argument; init is
run twice (by function and by command line), then the project is built."""
import itertools
import json
import os

from vp import env

CONFIGS = [None, json.dumps(env.default_config(host="mine.example")), json.dumps(env.default_config(host=None), indent=7) + "\n\n"]
INDEX = [None, b"", b"<!DOCTYPE html>\r\n<html><head><title>mine</title></head><body>\r\n</body></html>"]
FOLDERS = ["src/public/img", "src/public/js", "src/partials"]
KEPT = {"src/public/img": ("keep.bin", b"\0\1"), "src/public/js": ("keep.js", b"1;\r\n"), "src/partials": ("keep.html", b"<p>")}
HOSTS = [None, "example.com", "a.b:8080", "\u00e9.example"]
OTHER = {"src/public/other.txt": b"o", "README": b"r", "out/www/x": b"x", "src/index.html": b"i"}
LINK = "<!DOCTYPE html><html><head><title>t</title><link rel=\"canonical\"></head><body></body></html>"


def listing(root):
    out = {}
    for dp, dn, fn in os.walk(root):
        rd = os.path.relpath(dp, root)
        for n in fn:
            with open(os.path.join(dp, n), "rb") as f:
                out[os.path.normpath(os.path.join(rd, n))] = f.read()
        for n in dn:
            out[os.path.normpath(os.path.join(rd, n)) + "/"] = None
    return out


def call(root, host, how, cwd):
    from vanillaplusjs.runners import init
    if cwd:
        os.chdir(root)
        root = "."
    if how == "function":
        init.init(root, host=host)
    elif cwd:
        init.main(["--host", host] if host is not None else [])
    else:
        init.main(["--folder", root] + (["--host", host] if host is not None else []))


def cases(chunk):
    n, bad = 0, []
    for cfg, idx, dirs, host, how, other in chunk:
        n += 1
        p = env.Project("c20")
        root = os.path.join(p.base, "fresh")
        if os.path.isdir(root):
            env.wipe(root)
        os.makedirs(root)

        def put(rel, d):
            q = os.path.join(root, rel)
            os.makedirs(os.path.dirname(q), exist_ok=True)
            with open(q, "wb") as f:
                f.write(d)
        if cfg is not None:
            put("vanillaplusjs.json", cfg.encode())
        if idx is not None:
            put("src/public/index.html", idx)
        for d, s in zip(FOLDERS, dirs):
            if s:
                os.makedirs(os.path.join(root, d), exist_ok=True)
            if s == 2:
                put(d + "/" + KEPT[d][0], KEPT[d][1])
        if other:
            for r, d in OTHER.items():
                put(r, d)
        key = json.dumps([cfg and cfg[:9], repr(idx)[:20], dirs, host, how, other])
        before = listing(root)
        o = env.isolated(call, root, host, how, other)
        if not o.ok:
            bad.append((key, "init fails: " + o.detail[-300:]))
            continue
        one = listing(root)
        lost = [f for f in before if f not in one or one[f] != before[f]]
        if lost:
            bad.append((key, "init changes %r" % lost))
        need = ["vanillaplusjs.json", "src/public/index.html"] + [d + "/" for d in FOLDERS]
        miss = [f for f in need if f not in one]
        if miss:
            bad.append((key, "init does not create %r" % miss))
            continue
        extra = [f for f in one if f not in before and f not in need and f not in ("src/", "src/public/")]
        if extra:
            bad.append((key, "init also creates %r" % extra))
        if cfg is None:
            try:
                if json.loads(one["vanillaplusjs.json"])["host"] != host:
                    bad.append((key, "the configured host is %r" % json.loads(one["vanillaplusjs.json"])["host"]))
            except (ValueError, KeyError) as e:
                bad.append((key, "the configuration is wrong: %r" % e))
        o = env.isolated(call, root, "another.example", "main" if how == "function" else "function", False)
        two = listing(root)
        if not o.ok or two != one:
            bad.append((key, "the second init %s" % ("fails: " + o.detail[-300:] if not o.ok else "changes " + repr([f for f in set(one) | set(two) if one.get(f, 0) != two.get(f, 0)]))))
        eff = host if cfg is None else json.loads(cfg)["host"]
        if eff:
            put("src/public/link.html", LINK.encode())
        o = env.isolated(env._do_build, root, False, False, None, None, None)
        if not o.ok:
            bad.append((key, "the project does not build: " + o.detail[-300:]))
            continue
        www = {f[8:]: d for f, d in listing(root).items() if f.startswith("out/www/") and d is not None}
        if idx is None and b"<h1>" not in www["index.html"] or idx and b"mine" not in www["index.html"]:
            bad.append((key, "the start page is %r" % www["index.html"]))
        if eff and "https://%s/link.html" % eff not in www["link.html"].decode():
            bad.append((key, "with the host %r the canonical link is %r" % (eff, www["link.html"])))
    return n, bad[:6]


def run(c):
    all_ = list(itertools.product(CONFIGS, INDEX, itertools.product((0, 1, 2), repeat=3), HOSTS, ("function", "main"), (False, True)))
    if not env.THOROUGH:
        all_ = [x for x in all_ if x[3] in (None, "example.com") or x[2] in ((0, 0, 0), (2, 2, 2))]
    n = 0
    chunks = [all_[i:i + 20] for i in range(0, len(all_), 20)]
    for ch, (k, bad) in env.pmap(cases, chunks, chunk=1, deadline=c.deadline):
        n += k
        for key, why in bad:
            c.violation(key, why, {"case": key})
    if n < len(all_):
        c.cap("%d of %d cases" % (n, len(all_)))
    c.add(states=n, transitions=3 * n, prior_projects=n)
    c.sample({"case": repr(all_[7])})
