"""C30: kept artifacts are reproducible and sufficient.

State space: every project of the lists (image settings, commands of two pages and a glue file over two pictures
of the same or different names), built from nothing under two orders of the workers, in both modes, in folders of
different depth and by the command line under other hash seeds; then every way of keeping the artifacts and
nothing else.  Oracle: the artifacts of all of these are byte for byte the same up to the numbering of targets;
a build from kept artifacts publishes the same, and neither adds nor removes nor writes an artifact."""
import itertools
import json
import os
import subprocess
import sys

from checks.c15 import source, spell, settings, page
from vp import env, executor, site

PUB = "src/public/"
CMD = [("/img/p.png", (10, 10, {}, True)), ("/img/p.png", (16, 10, {}, True)), ("/img/p.png", (10, 10, {"pre_top_crop": 4}, True)), ("/img/q.png", (10, 10, {}, False)), ("/img/p.png", (10, 10, {"crop_left_percentage": 0}, True))]
LOSSY = {"formats": {"jpeg": {"exports": {str(q): {"min_area_px2": None, "max_area_px2": None if q < 90 else 400, "preference": q // 10, "formatter_kwargs": {"quality": q}} for q in (95, 60)}, "minimum_unit_size_bytes": 0},
                     "webp": {"exports": {"l": {"min_area_px2": None, "max_area_px2": None, "preference": 8, "formatter_kwargs": {"quality": 70, "method": 4}}}, "minimum_unit_size_bytes": 0}},
         "default_format": "jpeg", "maximum_resolution": 2, "resolution_step": "0.5"}
CONFS = [settings([("c0", 0, 3, None, None), ("c9", 9, 1, None, 240)], webp=True), settings([("c9", 9, 2, None, None), ("c0", 0, 2, None, None), ("c1", 1, 2, None, None)], step="0.25"), LOSSY]


class Last(executor.Policy):
    workers = 4

    def choose(self, kind, options):
        return len(options) - 1


def project(a, b, glue):
    out = {PUB + "img/p.png": source(30, 20, 0), PUB + "img/q.png": source(20, 30, 1)}
    for n, cs in (("a", a), ("b", b)):
        out[PUB + n + ".html"] = page("".join("<!--%s-->" % spell(CMD[c][0], CMD[c][1], 0) for c in cs))
    if glue:
        out[PUB + "js/g.images.json"] = json.dumps({"i%d" % c: dict(path=CMD[c][0], width=CMD[c][1][0], height=CMD[c][1][1], crop_style="cover", crop_arguments=CMD[c][1][2]) for c in glue})
    return out


def stats(p):
    out = {}
    for dp, dn, fn in os.walk(p.path("artifacts")):
        for n in fn:
            s = os.stat(os.path.join(dp, n))
            out[os.path.relpath(os.path.join(dp, n), p.root)] = (s.st_ino, s.st_mtime_ns, s.st_size)
    return out


def keep(p, art):
    """The project with nothing but its sources and these artifacts, as a checkout would have them."""
    p.clear_generated()
    for f, d in art.items():
        if d is not None:
            q = p.path("artifacts/" + f)
            os.makedirs(os.path.dirname(q), exist_ok=True)
            with open(q, "wb") as h:
                h.write(d)
            t = 1_500_000_000 + len(d)
            os.utime(q, (t, t))


def cli(root, seed):
    """the real command with its own workers"""
    e = dict(os.environ, PYTHONPATH=env.REPO, PYTHONHASHSEED=str(seed), PYTHONDONTWRITEBYTECODE="1")
    r = subprocess.run([sys.executable, "-W", "ignore", "-m", "vanillaplusjs.main", "build", "--folder", root], env=e, cwd=os.path.dirname(root), stdin=subprocess.DEVNULL, capture_output=True, timeout=120)
    return None if r.returncode == 0 else r.stderr.decode("utf-8", "replace")[-400:]


def case(a):
    import gc
    gc.enable()
    conf, ca, cb, glue, seeds = a
    key = json.dumps([CONFS.index(conf), ca, cb, glue])
    bad, n = [], 0
    src = project(ca, cb, glue)
    p = env.Project("c30", config=env.default_config(images=conf))
    q = env.Project("c30/deeper/and deeper", config=env.default_config(images=conf))
    for x in (p, q):
        x.set_sources(src)
        x.clear_generated()

    def built(x, how, **kw):
        nonlocal n
        n += 1
        o = x.build(timeout=60, **kw)
        if not o.ok:
            bad.append((key, "%s: the build fails: %s" % (how, o.detail[-300:])))
        return o.ok

    def same(x, how, exact=None):
        t = x.tree("artifacts")
        got = site.artifacts(t)
        if got != want:
            bad.append((key, "%s: the artifacts differ from those of the first build: %s" % (how, next("%s: %r instead of %r" % (k, got.get(k), want.get(k)) for k in sorted(set(got) | set(want)) if got.get(k) != want.get(k))[:600])))
        elif exact is not None and t != exact:
            bad.append((key, "%s: the artifacts change" % how))
        d = env.diff_trees(site.canonical(x.www()), www)
        if d:
            bad.append((key, "%s: %s" % (how, d)))
    if not built(p, "first build"):
        return n, bad
    art = p.tree("artifacts")
    want, www = site.artifacts(art), site.canonical(p.www())
    if built(q, "other order, folder and mode", dev=True, symlinks=True, policy=Last()):
        dev = site.canonical(q.www())
        if site.artifacts(q.tree("artifacts")) != want:
            same(q, "other order, folder and mode")
        elif {k: v for k, v in dev.items() if "constants" not in k} != {k: v for k, v in www.items() if "constants" not in k}:
            bad.append((key, "other order, folder and mode: " + env.diff_trees(dev, www)))
    plain = p.www()
    for how, x, kw in (("artifacts kept", p, {}), ("artifacts kept, other mode", p, dict(dev=True, symlinks=True)), ("artifacts kept, other folder and order", q, dict(policy=Last()))):
        keep(x, art)
        before = stats(x)
        if built(x, how, **kw):
            if stats(x) != before:
                bad.append((key, "%s: artifacts are written again or added: %r" % (how, sorted(k for k in set(before) | set(stats(x)) if before.get(k) != stats(x).get(k))[:4])))
            got = x.www()
            for f in plain:
                if "constants" not in f and got.get(f) != plain[f]:
                    bad.append((key, "%s: %s is published as %r instead of %r" % (how, f, got.get(f, b"")[:80], plain[f][:80])))
                    break
    for s in seeds:
        for how in ("from nothing", "artifacts kept"):
            p.clear_generated()
            if how != "from nothing":
                keep(p, art)
            before = stats(p)
            n += 1
            e = cli(p.root, s)
            if e:
                bad.append((key, "command line, %s: the build fails: %s" % (how, e)))
                continue
            same(p, "command line with hash seed %d, %s" % (s, how), art if how != "from nothing" else None)
            if how != "from nothing" and stats(p) != before:
                bad.append((key, "command line with hash seed %d: kept artifacts are written again" % s))
    # any one lost file comes back (the bookkeeping of the numbers excepted)
    if not cb and not glue and len(ca) == 1 or env.THOROUGH:
        for f in [f for f, d in art.items() if d is not None and not f.endswith(("counter.txt", "placeholder.json"))]:
            keep(p, {k: v for k, v in art.items() if k != f})
            if built(p, "without %s" % f):
                d = env.diff_trees(site.canonical(p.www()), www)
                if d:
                    bad.append((key, "without the artifact %s: %s" % (f, d)))
    return n, bad[:6]


def run(c):
    lists = [()] + [t for k in (1, 2) for t in itertools.permutations(range(len(CMD)), k)]
    seconds = [(), (0,), (2, 3), (1, 0)]
    glues = [(), (0, 4), (3,)]
    cases = []
    for i, (a, b, g) in enumerate(itertools.product(lists, seconds, glues)):
        if not a and not b and not g:
            continue
        for k, conf in enumerate(CONFS):
            if env.THOROUGH or (i + k) % 4 == 0 or (len(a) == 1 and not b and not g):
                cases.append((conf, a, b, g, (1, 2, 3) if env.THOROUGH and i % 5 == 0 else (i,) if i % 12 == k else ()))
    c.cov["rule"] = "%d projects: up to two of %d commands on one page, %d sets on the other, %d glue files, %d settings" % (len(cases), len(CMD), len(seconds), len(glues), len(CONFS))
    c.sample({"project": json.dumps(cases[0][1:])})
    c.assumptions = ["targets are numbered in the order in which they are asked for, which depends on the schedule; everything else is compared byte for byte", "encoders are deterministic"]
    m = 0
    for a, (n, bad) in env.pmap(case, cases, chunk=1, deadline=c.deadline):
        m += 1
        c.add(states=1, transitions=n, traces_validated_against_impl=n)
        for key, why in bad:
            c.violation(key + why[:40], why, {"project": key, "why": why})
    if m < len(cases):
        c.cap("%d of %d projects" % (m, len(cases)))
