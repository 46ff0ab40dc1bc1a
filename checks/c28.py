"""C28: building never changes the sources.

Breadth-first search over histories of builds (source edits x development/production x copies/links, valid and
broken sources), and builds killed at every effect: below src every file and folder must be exactly what it was
(bytes, kind, mode, modification time, identity), apart from new declared placeholders."""
import os
import stat

from vp import bfs, env, site
from checks.universes import CSS, JS, PUB, T, page

GLUE = '{"k": {"path": "/img/a.png", "width": %d, "height": 4}}'
VARS = ":root{--col-p:#111;--icon-size-s:1rem}"


def UNIS():
    base = {PUB + "css/main.css": VARS, "src/partials/h.html": "<script>h=1</script><style>h{color:red}</style>", "src/notes.txt": "n", "src/public2/x.css": "a{", "src/partials/x.js": "'", PUB + "empty.txt": ""}
    pages = [
        dict(base, **{PUB + "index.html": page(T("/h.html") + "<script>a=1</script>", CSS % "/css/main.css" + "<style>p{background:url(data:image/svg+xml,a)}</style>"), PUB + "a/b": "c", PUB + "js/m.js": "import '/js/n.js' // TYPE\n", PUB + "js/n.js": "1", PUB + "js/constants.js": "// own"}),
        dict(base, **{PUB + "index.html": page("<script>b=1</script><script>c=1</script>" + T("/h.html")), PUB + "js/gen/index/9.js": "own=1", PUB + "css/gen/index/own.css": "a{b:c}", PUB + "img/gen/own.svg": "<svg/>", PUB + "a": "file", PUB + "js/constants.js": "// other"}),
        dict(base, **{PUB + "index.html": page("<script>'</script><style>a{</style>" + T("/h.html")), PUB + "x.out.js": "1"}),
        dict(base, **{PUB + "index.html": page("<style>a{color:red}</style>" + T("/missing.html"))}),
        dict(base, **{PUB + "index.html": page("<style>a{/*! PREPROCESSOR: import .zz */}</style><script>import '/js/missing.js'</script>")}),
        dict(base, **{PUB + "css/a.css": "/*! PREPROCESSOR: icon tog p all-colors all-sizes */a{background:url(data:image/png;base64,AAAA)}", PUB + "img/icons/tog.svg": "<svg fill='#111'/>", PUB + "index.html": page(CSS % "/css/a.css")}),
    ]
    img = {PUB + "img/a.png": site.png(8, 8)}
    own = "export default {own: 1};"
    glue = [
        dict(img, **{PUB + "js/x.images.json": GLUE % 4, PUB + "js/use.js": "import x from '/js/x.images.js'; x;"}),
        dict(img, **{PUB + "js/x.images.json": GLUE % 3, PUB + "js/x.images.js": own, PUB + "index.html": page("<!--[IMAGE: /img/a.png 4 4]-->")}),
        dict(img, **{PUB + "js/x.images.js": own}),
        dict(img, **{PUB + "js/x.images.json": "{", PUB + "b.html": page("<!--[IMAGE: /img/a.png 3 4]-->")}),
        dict(img, **{PUB + "js/x.images.json": GLUE % 99}),
        dict(img, **{PUB + "js/x.images.json": GLUE % 4, PUB + "js/y.images.json": GLUE % 3, PUB + "js/y.images.js": own, PUB + "js/b.js": "'"}),
        dict(**{PUB + "js/use.js": "1"}),
    ]
    return [dict(name="pages", asgs=pages, placeholders=True), dict(name="glue", asgs=glue, placeholders=True), dict(name="glue-off", asgs=glue, placeholders=False)]


def listing(p):
    out = {}
    top = p.path("src")
    for dp, dn, fn in os.walk(top):
        for n in dn + fn:
            f = os.path.join(dp, n)
            st = os.lstat(f)
            rel = os.path.relpath(f, top)
            if stat.S_ISDIR(st.st_mode):
                out[rel] = ("folder", st.st_mode, st.st_ino)
            elif stat.S_ISLNK(st.st_mode):
                out[rel] = ("link", os.readlink(f))
            else:
                with open(f, "rb") as h:
                    out[rel] = ("file", st.st_mode, st.st_ino, st.st_mtime_ns, h.read())
    return out


def changes(uni, before, after, done):
    """what a build changed, apart from adding placeholders"""
    bad = []
    for k in sorted(set(before) | set(after)):
        if k not in after:
            bad.append("%s is removed" % k)
        elif k not in before:
            js = k[:-len(".images.js")] + ".images.json" if k.endswith(".images.js") else None
            if not (uni["placeholders"] and js in before and after[k][0] == "file"):
                bad.append("%s %s is added" % (after[k][0], k))
        elif before[k] != after[k]:
            bad.append("%s is changed: %r to %r" % (k, before[k], after[k]))
    return bad


def config(uni):
    c = env.default_config()
    if not uni["placeholders"]:
        c["auto_generate_images_js_placeholders"] = False
    return c


def project(uni):
    p = _projects.get(uni["name"])
    if p is None:
        p = _projects[uni["name"]] = env.Project("c28_" + uni["name"], config=config(uni))
        os.makedirs(p.path("src/public/empty folder/x"), exist_ok=True)
    return p


_projects = {}


def step(job):
    uni, snap, (a, dev, symlinks), kill = job
    p = project(uni)
    if snap is None:
        p.set_sources({})
        p.clear_generated()
    else:
        p.restore(snap)
    p.set_sources(uni["asgs"][a])
    os.makedirs(p.path("src/public/empty folder/x"), exist_ok=True)
    bad = []
    n = 0
    if kill is None:
        before = listing(p)
        o = p.build(dev=dev, symlinks=symlinks, timeout=20)
        bad += changes(uni, before, listing(p), o.ok)
        return bad, p.snapshot(), bfs.canon(p), 1, o.kind
    start = p.snapshot()
    before = listing(p)
    o = p.build(dev=dev, symlinks=symlinks, kill="count")
    count = o.value if o.ok else [False] * 400
    for k in range(kill, len(count), 4):
        p.restore(start)
        os.makedirs(p.path("src/public/empty folder/x"), exist_ok=True)
        before = listing(p)
        r = p.build(dev=dev, symlinks=symlinks, kill=(k, False), timeout=20)
        n += 1
        for b in changes(uni, before, listing(p), False):
            bad.append("killed at effect %d: %s" % (k, b))
        if r.kind != "killed":
            break
    return bad[:10], None, None, n, "killed"


def run(c):
    c.assumptions = ["no external files are configured (C21)"]
    c.cov["rule"] = "every history of up to %s builds of each project state, valid or broken, in development and production, with copies and links; every build of the first level killed at every effect" % ("three" if env.THOROUGH else "two")
    for uni in UNIS():
        ops = [(a, dev, sl) for a in range(len(uni["asgs"])) for dev, sl in ((False, False), (True, True), (True, False), (False, True)) if env.THOROUGH or dev == sl]
        states = {None: (None, ())}
        frontier = [None]
        depth = trans = 0
        while frontier and depth < (3 if env.THOROUGH else 2):
            depth += 1
            jobs, meta = [], []
            for s in frontier:
                for op in ops:
                    jobs.append((uni, states[s][0], op, None))
                    meta.append((s, op))
            if depth <= 2:
                for s in frontier[::1 if env.THOROUGH or depth == 1 else 4]:
                    for op in ops[::1 if env.THOROUGH or depth == 1 else 3]:
                        jobs += [(uni, states[s][0], op, k) for k in range(4)]
                        meta += [(s, op)] * 4
            nxt = []
            k = -1
            for k, (job, (bad, snap, can, n, kind)) in enumerate(env.pmap(step, jobs, chunk=1, deadline=c.deadline)):
                s, op = meta[k]
                hist = states[s][1] + ("%d%s%s" % (op[0], "d" if op[1] else "p", "l" if op[2] else "c"),)
                trans += n
                for b in bad:
                    c.violation("%s %s %s" % (uni["name"], "/".join(hist), b), "%s: history %s%s: %s" % (uni["name"], hist, " (the last build killed)" if job[3] is not None else "", b), {"history": hist, "why": b})
                if can is not None and can not in states:
                    states[can] = (snap, hist)
                    nxt.append(can)
                if len(hist) == depth and k % 97 == 3:
                    c.sample({"project": uni["name"], "history": hist, "outcome": kind}, 8)
            if k + 1 < len(jobs):
                c.cap("%s: time budget reached at depth %d" % (uni["name"], depth))
            frontier = nxt
        c.add(states=len(states), transitions=trans, traces_validated_against_impl=trans)
        c.cov.setdefault("per_project", {})[uni["name"]] = dict(states=len(states), builds=trans, depth=depth)
