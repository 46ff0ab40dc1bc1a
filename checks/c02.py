"""C02: a build that fails or is killed never corrupts later builds.

Kills: for small projects, from every prior state, every build is killed at every file-system effect (with the
file being written empty, cut in half, or complete); from each distinct resulting state every follow-up build
must succeed and publish what a clean build does; with more time, the follow-up is killed at every effect too.
Failures: breadth-first search over the states that builds of valid and of broken sources lead to."""
import os

from vp import bfs, env, site
from checks.universes import CSS, JS, PUB, T, UNIVERSES, page

ROOTVARS = ":root{--col-p:#111;--icon-size-s:1rem}"
I = "<!--[IMAGE: /img/a.png %d 4]-->"
GLUE = '{"k": {"path": "/img/a.png", "width": %d, "height": 4}}'


def KILLS():
    return [
        dict(name="pages", asgs=[
            {PUB + "index.html": page(T("/a.html"), CSS % "/css/main.css" + "<style>p{color:red}</style>"), "src/partials/a.html": "<script>a=1;</script>", PUB + "css/main.css": "a{background:url(data:image/svg+xml,a)}", PUB + "js/m.js": "import '/js/n.js'", PUB + "js/n.js": "1;", PUB + "x.bin": b"\0" * 9000},
            {PUB + "index.html": page(T("/a.html"), "<script>b=2;</script>"), "src/partials/a.html": JS % "/js/m.js", PUB + "js/m.js": "import '/js/n.js'", PUB + "js/n.js": "2;" * 3000, PUB + "x.bin": b"\1" * 9000, PUB + "a/b": "c"},
            {PUB + "index.html": page("x")},
        ]),
        dict(name="icons", asgs=[
            {PUB + "css/main.css": ROOTVARS, PUB + "css/a.css": "/*! PREPROCESSOR: icon tog p all-colors all-sizes */", PUB + "img/icons/tog.svg": "<svg fill='#111'/>", PUB + "index.html": page("", CSS % "/css/a.css")},
            {PUB + "css/main.css": ROOTVARS.replace("#111", "#222"), PUB + "css/a.css": "/*! PREPROCESSOR: icon tog p all-colors all-sizes */b{c:d}", PUB + "img/icons/tog.svg": "<svg fill='#222' a='b'/>", PUB + "index.html": page("", CSS % "/css/a.css")},
            {PUB + "css/main.css": ROOTVARS, PUB + "css/a.css": "a{b:c}", PUB + "index.html": page("", CSS % "/css/a.css")},
        ]),
        dict(name="constants", dev=[False, True], asgs=[
            {PUB + "js/constants.js": "// c", PUB + "js/main.js": "import { API_URL } from '/js/constants.js'; API_URL;", PUB + "index.html": page("", JS % "/js/main.js")},
            {PUB + "js/main.js": "1;", PUB + "index.html": page("", JS % "/js/main.js")},
        ]),
        dict(name="images", images=True, asgs=[
            {PUB + "img/a.png": site.png(8, 8), PUB + "index.html": page(I % 4)},
            {PUB + "img/a.png": site.png(6, 8, (1, 2, 3)), PUB + "index.html": page(I % 4 + I % 3)},
            {PUB + "img/a.png": site.png(8, 8), PUB + "index.html": page("x"), PUB + "b.html": page(I % 3)},
        ]),
        dict(name="glue", images=True, asgs=[
            {PUB + "img/a.png": site.png(8, 8), PUB + "js/x.images.json": GLUE % 4, PUB + "js/use.js": "import x from '/js/x.images.js'; x;"},
            {PUB + "img/a.png": site.png(8, 8), PUB + "js/x.images.json": GLUE % 3, PUB + "js/use.js": "import x from '/js/x.images.js'; x;"},
            {PUB + "img/a.png": site.png(8, 8), PUB + "js/use.js": "1;"},
        ]),
    ]


def published(uni, p):
    w = p.www()
    return site.canonical(w) if uni.get("images") else w


def states(uni):
    return [(a, d) for a in range(len(uni["asgs"])) for d in uni.get("dev", [False])]


def oracle(job):
    uni, (a, dev) = job
    p = env.Project("o_" + uni["name"], config=env.default_config())
    p.set_sources(uni["asgs"][a])
    o = p.build(dev=dev)
    if not o.ok:
        raise Exception("%s %d does not build: %s" % (uni["name"], a, o.detail[-500:]))
    return published(uni, p)


PARTS = 4


def sources_changed(p, before, extra):
    bad = []
    t = p.tree("src")
    for k, v in before.items():
        if t.get(k, 0) != v:
            bad.append("%s %s" % (k, "is gone" if k not in t else "has other content"))
    for k in t:
        if k not in before and not k.endswith(extra):
            bad.append("%s is new" % k)
    return bad


def kill_job(job):
    import gc
    gc.enable()
    uni, prior, target, part, want, depth = job
    p = env.Project("k_" + uni["name"], config=env.default_config())
    bad = []
    seen = set()
    n = [0, 0, 0]
    if prior is not None:
        p.set_sources(uni["asgs"][prior[0]])
        p.build(dev=prior[1])
    first = p.snapshot()

    def explore(snap, tgt, d, hist):
        p.restore(snap)
        p.set_sources(uni["asgs"][tgt[0]])
        o = p.build(dev=tgt[1], kill="count")
        if not o.ok:
            bad.append(("%r" % (hist,), "the build fails: " + o.detail[-400:]))
            return
        for k, written in enumerate(o.value):
            if d == 0 and k % PARTS != part:
                continue
            for torn in (False, True) if written else (False,):
                if len(bad) > 10:
                    return
                p.restore(snap)
                p.set_sources(uni["asgs"][tgt[0]])
                before = p.tree("src")
                r = p.build(dev=tgt[1], kill=(k, torn))
                n[0] += 1
                if r.kind != "killed":
                    bad.append(("%r" % (hist,), "the build was not killed at effect %d: %r" % (k, r)))
                    continue
                h = hist + ("%s killed at effect %d%s" % (tgt, k, " (torn)" if torn else ""),)
                ch = sources_changed(p, before, (".images.js",))
                if ch:
                    bad.append(("src %r" % (h,), "after %s the sources are changed: %s" % (h, ch)))
                can = bfs.canon(p)
                if (can, tgt) in seen:
                    continue
                seen.add((can, tgt))
                s2 = p.snapshot()
                for f in states(uni):
                    p.restore(s2)
                    p.set_sources(uni["asgs"][f[0]])
                    q = p.build(dev=f[1])
                    n[1] += 1
                    if not q.ok:
                        bad.append(("%s %s then %s" % (uni["name"], h, f), "%s: after %s, the build of %s fails: %s" % (uni["name"], h, f, q.detail[-500:])))
                        continue
                    diff = env.diff_trees(published(uni, p), want[f])
                    if diff:
                        bad.append(("%s %s then %s" % (uni["name"], h, f), "%s: after %s, the build of %s: %s" % (uni["name"], h, f, diff)))
                    if d + 1 < depth and f[0] != tgt[0]:
                        explore(s2, f, d + 1, h)
    explore(first, target, 0, (("built %s" % (prior,)) if prior is not None else "nothing built",))
    n[2] = len(seen)
    return n, bad


# ------------------------------------------------------------------ failing builds
def _fails():
    us = {u["name"]: u for u in UNIVERSES("c02")}
    out = [
        dict(us["html"], files={PUB + "index.html": [page(T("/a.html")), page("x", CSS % "/css/main.css")], "src/partials/a.html": ["<p>1</p>", "<p>22</p>" + T("/b.html"), None], "src/partials/b.html": ["<b>1</b><script>c=1</script>", T("/a.html"), None], PUB + "css/main.css": ["a{color:red}", "a{ {", None]}),
        dict(us["js"], files={PUB + "index.html": [page("", JS % "/js/a.js"), page("<script>import '/js/b.js'</script>")], PUB + "js/a.js": ["import b from '/js/b.js';\nb();", "1;", "'", None], PUB + "js/b.js": ["import '/js/c.js';", "2;", "import '/js/a.js';", None], PUB + "js/c.js": ["3;", None]}),
        dict(us["css"], files={PUB + "css/main.css": [".u{a:b}", ".v{a:b}", None], PUB + "css/x.css": [".x{/*! PREPROCESSOR: import .u */}", ".x{d:e}", ".x{background:url(/img/i.svg)}", None], PUB + "css/y.css": [".y{/*! PREPROCESSOR: import .x FROM /css/x.css */}", None], PUB + "img/i.svg": ["<svg>1</svg>", None]}),
        dict(us["images"], files={PUB + "img/a.png": [site.png(8, 8), b"no image", None], PUB + "index.html": [page(I % 4), page(I % 3), page(I % 9)], PUB + "b.html": [page(I % 4), None]}),
        dict(us["glue"], files={PUB + "img/a.png": [site.png(8, 8), None], PUB + "js/x.images.json": [GLUE % 4, "{", GLUE % 99, None], PUB + "js/use.js": ["import x from '/js/x.images.js'; x();", "1;"]}),
        dict(name="icons", files={PUB + "css/main.css": [ROOTVARS, ":root{--col-p:#222}", ":root{"], PUB + "css/a.css": ["/*! PREPROCESSOR: icon tog p all-colors all-sizes */", "/*! PREPROCESSOR: icon tog none */", None], PUB + "img/icons/tog.svg": ["<svg fill='#111'/>", "<svg fill='#222'/>", None]}),
    ]
    return out


def _clean_build(job):
    uni, asg = job
    p = env.Project("co_" + uni["name"], config=env.default_config())
    p.set_sources(asg)
    before = p.tree("src")
    o = p.build(timeout=20)
    ch = sources_changed(p, before, (".images.js",))
    return o.ok, published(uni, p) if o.ok else o.detail[-300:], p.snapshot(), bfs.canon(p), ch


def _step(job):
    uni, snap, asg, want = job
    p = _step.projects.get(uni["name"])
    if p is None:
        p = _step.projects[uni["name"]] = env.Project("cs_" + uni["name"], config=env.default_config())
    p.restore(snap)
    p.set_sources(asg)
    before = p.tree("src")
    o = p.build(timeout=20)
    ch = sources_changed(p, before, (".images.js",))
    d = None
    if ch:
        d = "the sources are changed: %s" % ch
    elif want is not None and not o.ok:
        d = "the build fails: " + (o.detail or o.kind)[-500:]
    elif want is not None:
        d = env.diff_trees(published(uni, p), want)
    elif o.ok:
        d = "the build succeeds though a clean build of these sources fails"
    c = bfs.canon(p)
    return d, c, None if d or c in _step.seen else p.snapshot()


_step.projects = {}
_step.seen = set()


def distance(a, b):
    return sum(1 for k in set(a) | set(b) if a.get(k) != b.get(k))


def name(uni, asg):
    return "".join("-" if asg.get(k) is None else chr(ord("a") + [x for x in vs if x is not None].index(asg[k])) for k, vs in uni["files"].items())


def failing(c, uni, share):
    import time
    end = min(c.deadline, time.time() + share)
    asgs = bfs.assignments(uni["files"])
    clean = [r for _, r in env.pmap(_clean_build, [(uni, a) for a in asgs], chunk=4)]
    states, frontier = {}, []
    for i, (ok, www, snap, can, ch) in enumerate(clean):
        if ch:
            c.violation("%s:src:%s" % (uni["name"], name(uni, asgs[i])), "%s: building %s changes the sources: %s" % (uni["name"], name(uni, asgs[i]), ch))
        if can not in states:
            states[can] = (snap, i, (i,), ok)
            frontier.append(can)
    trans = depth = bad = 0
    while frontier and time.time() < end and bad < 40 and (env.THOROUGH or depth < 3):
        depth += 1
        jobs, meta = [], []
        for can in frontier:
            snap, i, hist, ok = states[can]
            for j in range(len(asgs)):
                if (1 if ok or i != j else 0) <= distance(asgs[i], asgs[j]) <= 1 + (env.THOROUGH and depth == 1):
                    jobs.append((uni, snap, asgs[j], clean[j][1] if clean[j][0] else None))
                    meta.append((can, i, j, hist))
        _step.seen = set(states)
        nxt = []
        k = -1
        for k, (job, (d, can, snap)) in enumerate(env.pmap(_step, jobs, chunk=4, deadline=end)):
            _, i, j, hist = meta[k]
            trans += 1
            if d:
                bad += 1
                ns = [name(uni, asgs[x]) + ("" if clean[x][0] else "!") for x in hist + (j,)]
                c.violation("%s:%s" % (uni["name"], ">".join(ns)), "%s: history %s (! fails): %s" % (uni["name"], ns, d), {"history": [{f: str(v)[:300] for f, v in asgs[x].items()} for x in hist + (j,)], "why": d})
            elif can not in states:
                states[can] = (snap, j, hist + (j,), clean[j][0])
                nxt.append(can)
        if k + 1 < len(jobs):
            break
        frontier = nxt
    if frontier:
        c.cov.setdefault("depth_bounds", {})[uni["name"]] = depth
    c.add(states=len(states), transitions=trans, traces_validated_against_impl=trans)
    c.cov.setdefault("per_universe", {})[uni["name"]] = dict(assignments=len(asgs), broken=sum(1 for r in clean if not r[0]), states=len(states), transitions=trans, depth=depth, closed=not frontier)
    c.sample({"universe": uni["name"], "states": len(states)}, 20)


def run(c, only_kill=False):
    c.assumptions = ["a kill happens between two file-system calls, or leaves a prefix of the file being written", "the workers run one at a time before the kill"]
    c.cov["rule"] = "a kill at every file-system effect (file being written empty, halved, complete) of the builds of %d projects from several prior states, every follow-up; all histories over valid and broken sources of further projects" % len(KILLS())
    jobs = []
    for uni in KILLS():
        st = states(uni)
        want = dict(zip(st, [r for _, r in env.pmap(oracle, [(uni, s) for s in st])]))
        quick = {(None, st[0]), (st[1], st[0])} | set(zip(st, st[1:] + st[:1]))
        for prior in [None] + st:
            for target in st:
                if prior != target and (env.THOROUGH or (prior, target) in quick):
                    jobs += [(uni, prior, target, part, want, 2 if env.THOROUGH else 1) for part in range(PARTS)]
    m = 0
    for job, (n, bad) in env.pmap(kill_job, jobs, deadline=c.deadline):
        m += 1
        c.add(states=n[2], transitions=n[0] + n[1], traces_validated_against_impl=n[0] + n[1], crash_points=n[0])
        c.cov.setdefault("kills", {}).setdefault(job[0]["name"], 0)
        c.cov["kills"][job[0]["name"]] += n[0]
        c.sample("%s: %s after %s killed at each effect %d mod %d" % (job[0]["name"], job[2], job[1], job[3], PARTS), 5)
        for key, why in bad:
            c.violation(key, why, {"case": key, "why": why})
    if m < len(jobs):
        c.cap("time budget reached after %d of %d groups of kills" % (m, len(jobs)))
    us = _fails()
    for i, uni in enumerate(us):
        import time
        failing(c, uni, max(15, (c.deadline - time.time() - 10) / (len(us) - i)) if env.THOROUGH else 60)
