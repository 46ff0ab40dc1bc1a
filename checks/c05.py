"""C05: exactly the public sources and their declared products are published.

State space: every tree of up to k files over an alphabet of folders x names x contents, and every change of a
one-file tree into another, in copy and symlink mode, development and production.  Oracle: the set of files and
their bytes written down from the path alone.  Also every sequence of builds of projects with generated files in
either mode, the project folder given in every way (absolute, relative to several folders), compared with copies."""
import base64
import hashlib
import itertools
import os

from vp import env, site

TOPS = ["src/public", "src/public2", "src/publicity", "src/partials", "src", "src/Public", "src/a/src/public", "src/public.d", "src/publi", "src/artifacts", "src/out/www"]
DIRS = ["", "a", "public", "a.b", "\u00e9", "a b", ".hid", "src/public", "x.html", "y.css", "z.js", "out/www", "css", "index.html.hash", "a/b/c/d/e"]
NAMES = ["a.txt", "a", ".htaccess", "A.HTML", "x.html.txt", "x.htm", "x.mjs", "x.jsx", "x.json", "x.images.jsonx", "html", "js", "css", "a%20b.txt", "a#b?c.txt", "a b .txt", "\u65e5\u672c.txt", "-rf", "a\\b.txt", "a\nb.txt", "'q\".txt", "x.js.map", "x.ts", "x.CSS", "a.html~", "b.hashx", "images.js.bak", "robots.txt", "x.svg", "~", "*", "x.html.", "__proto__", "a\tb", "unfinished_build", "manifest.webmanifest"]
PROC = {"x.html": "<!DOCTYPE html><html><head><title>t</title></head><body><p>MARK</p></body></html>", ".html": "<p>MARK</p>", "a.b.html": "<p>MARK</p>", "x.css": ".MARK{color:red}", ".css": ".MARK{color:red}", "x.js": "MARK;", ".js": "MARK;", "a.html.js": "MARK;", "a.js.css": ".MARK{color:red}", "css.html": "<p>MARK</p>", "-.js": "MARK;", "\u00e9.html": "<p>MARK</p>", "a b.css": ".MARK{color:red}"}
BYTES = [b"text\n", b"", b"a\r\nb\rc\n\n", bytes(range(256)), b"\xef\xbb\xbfbom", b"x" * 70000, b"\x00" * 10, b"<html><style>a{}</style>", b"\xff\xfe"]


def content(name, n):
    if name in PROC:
        return PROC[name].encode()
    return BYTES[n % len(BYTES)]


def oracle(files):
    """{published path: bytes, or None for the output of a processor}"""
    out = {}
    for f, v in files.items():
        if f.startswith("src/public/"):
            r = f[len("src/public/"):]
            out[r] = None if r.endswith((".html", ".css", ".js")) else v
    return out


def compare(files, www, root, symlinks):
    want = oracle(files)
    bad = []
    for f, v in want.items():
        if f not in www:
            bad.append((f, "%s is not published" % f))
        elif v is not None and www[f] != v:
            bad.append((f, "%s is published with other content: %r instead of %r" % (f, www[f][:80], v[:80])))
        elif v is None and b"MARK" not in www[f]:
            bad.append((f, "%s is published without its content: %r" % (f, www[f][:80])))
        if f in www:
            h = base64.urlsafe_b64encode(hashlib.sha256(www[f]).digest())
            if www.get(f + ".hash") != h:
                bad.append((f, "the hash of %s is published as %r instead of %r" % (f, www.get(f + ".hash"), h)))
            if symlinks and v is not None and os.path.islink(os.path.join(root, "out/www", f)) and os.path.realpath(os.path.join(root, "out/www", f)) != os.path.realpath(os.path.join(root, "src/public", f)):
                bad.append((f, "%s is a link to another file" % f))
    for f in www:
        if f not in want and not (f.endswith(".hash") and f[:-5] in want):
            bad.append((f, "%s is published without a source" % f))
    return bad


def paths(tops, dirs, names):
    return [(t + "/" + (d + "/" if d else "") + n) for t in tops for d in dirs for n in names]


def fits(*ps):
    """whether these files can exist together, and no two have one product"""
    return len(set(ps)) == len(ps) and not any(a != b and (b.startswith(a + "/") or b == a + ".hash" or b.startswith(a + ".hash/")) for a in ps for b in ps)


def spread(i, p):
    """the same place below a folder of its own"""
    for t in sorted(TOPS, key=len, reverse=True):
        if p.startswith(t + "/"):
            return "%s/%d/%s" % (t, i, p[len(t) + 1:])


def job(j):
    kind, symlinks, dev, items = j
    p = env.Project("c05", config=env.default_config())
    root = p.path(".")
    bad = []

    def one(files, label, fresh=True):
        if fresh:
            p.set_sources({})
            p.clear_generated()
        p.set_sources(files)
        o = p.build(dev=dev, symlinks=symlinks, timeout=30 + 0.2 * len(files))
        if not o.ok:
            return [(label, "the build fails: %s" % o.detail[-400:])]
        return compare(files, p.www(), root, symlinks)

    mode = "%s, %s" % ("symlinks" if symlinks else "copies", "dev" if dev else "prod")
    if kind == "together":
        def go(its):
            files = {}
            for i, ps, n in its:
                for k, x in enumerate(ps):
                    files[spread(i, x)] = content(x.rsplit("/", 1)[1], n + k)
            b = one(files, repr(its[0][1]))
            if b and len(its) > 1 and "the build fails" in b[0][1]:
                h = len(its) // 2
                return go(its[:h]) + go(its[h:])
            return b
        bad += go(items)
    else:
        for seq in items:
            for k, ps in enumerate(seq):
                files = {x: content(x.rsplit("/", 1)[1], n) for x, n in ps}
                b = one(files, repr(seq), fresh=not k)
                if b:
                    bad += [("%r %s" % (seq[:k + 1], f), w + " (%r)" % (seq[:k + 1],)) for f, w in b]
                    break
    return len(items), [(f, "%s: %s" % (mode, w)) for f, w in bad[:20]]


# ------------------------------------------------------------------ generated files
ICON = "/*! PREPROCESSOR: icon tog p all-colors all-sizes */"


def _page(body, head=""):
    return "<!DOCTYPE html><html><head><title>t</title>%s</head><body>%s</body></html>" % (head, body)


def projects():
    p = "src/public/"
    own = {p + "a.txt": b"a", p + "img/i.svg": b"<svg/>", p + "css/main.css": b":root{--col-p:#111;--icon-size-s:1rem}"}
    img = dict(own, **{p + "img/a.png": site.png(8, 8)})
    return {
        "image": [dict(img, **{p + "index.html": _page("<!--[IMAGE: /img/a.png 4 4]-->")}), dict(img, **{p + "index.html": _page("<!--[IMAGE: /img/a.png 3 4]-->"), p + "a.txt": b"bb"})],
        "glue": [dict(img, **{p + "js/x.images.json": b'{"k": {"path": "/img/a.png", "width": 4, "height": 4}}', p + "index.html": _page("", "<script src=/js/x.images.js type=module></script>")}), dict(img, **{p + "js/x.images.json": b'{"k": {"path": "/img/a.png", "width": 4, "height": 3}}'})],
        "icons": [dict(own, **{p + "img/icons/tog.svg": b"<svg fill='#111'/>", p + "css/x.css": ICON.encode()}), dict(own, **{p + "img/icons/tog.svg": b"<svg fill='#111' a='b'/>", p + "css/x.css": ICON.encode()})],
        "data": [dict(own, **{p + "css/x.css": b".y{background:url(data:image/svg+xml,a)}"}), dict(own, **{p + "css/x.css": b".y{background:url(data:image/svg+xml,bb)}"})],
        "outlined": [dict(own, **{p + "index.html": _page("<script>a=1</script><style>a{b:c}</style><img src=/img/i.svg>")}), dict(own, **{p + "index.html": _page("<script>a=2</script>")})],
    }


def cwds(root):
    """ways of naming the project: absolute, as the current folder, from the parent, a sibling, a source folder, the top"""
    return [None, root, os.path.dirname(root), os.path.join(os.path.dirname(root), "other"), os.path.join(root, "src/public"), "/"]


def wants(name, k, dev):
    key = (name, k, dev)
    if key not in wants.seen:
        p = env.Project("c05w", config=env.default_config())
        p.set_sources(projects()[name][k])
        o = p.build(dev=dev)
        wants.seen[key] = p.www() if o.ok else None
        if not o.ok:
            raise Exception("%s %d does not build: %s" % (name, k, o.detail[-300:]))
    return wants.seen[key]


wants.seen = {}


def modes(j):
    """every sequence: [(state, symlinks, way of naming the project)]"""
    name, dev, items = j
    p = env.Project("c05m", config=env.default_config())
    os.makedirs(os.path.join(p.base, "other"), exist_ok=True)
    bad, n = [], 0
    for seq in items:
        p.set_sources({})
        p.clear_generated()
        for i, (k, symlinks, way) in enumerate(seq):
            p.set_sources(projects()[name][k])
            label = "%s, %s: %r" % (name, "dev" if dev else "prod", seq[:i + 1])
            o = p.build(dev=dev, symlinks=symlinks, cwd=cwds(p.root)[way])
            n += 1
            if not o.ok:
                bad.append((label, "%s: the build fails: %s" % (label, o.detail[-300:])))
                break
            links = [os.path.join(dp, f) for dp, _, fn in os.walk(p.path("out/www")) for f in fn if os.path.islink(os.path.join(dp, f))]
            if links and not symlinks:
                bad.append((label, "%s: %r is a link" % (label, links[0])))
                break
            loose = [f for f in links if not os.path.isfile(f)]
            if loose:
                bad.append((label, "%s: %r leads nowhere: %r" % (label, loose[0], os.readlink(loose[0]))))
                break
            got, want = p.www(), wants(name, k, dev)
            if i:
                got, want = site.canonical(got), site.canonical(want)
            d = env.diff_trees(got, want)
            if d:
                bad.append((label, "%s: %s" % (label, d)))
                break
    return n, bad[:10]


def mode_jobs():
    one = [(k, s, w) for k in (0, 1) for s in (False, True) for w in range(6)]
    seqs = [[a] for a in one if not a[0]] + [[a, b] for a in one if not a[0] for b in one if (a[2] in (0, 1) or env.THOROUGH)]
    return [(name, dev, seqs[i:i + 40]) for name in sorted(projects()) for dev in ((False, True) if env.THOROUGH else (False,)) for i in range(0, len(seqs), 40)]


def run(c):
    c.assumptions = ["src contains no links to folders", "no two sources have the same output (a.txt.hash next to a.txt)"]
    names = NAMES + sorted(PROC)
    singles = paths(TOPS, DIRS, names)
    small = [x for x in paths(TOPS[:6], ["", "a", "x.html"], ["a.txt", "a", "x.html", "x.js", "x.css", "a b .txt", "robots.txt"]) if fits(x)]
    tog = [((x,), k) for k, x in enumerate(singles)]
    tog += [(ps, k) for k, ps in enumerate(itertools.combinations(small, 2)) if fits(*ps)]
    if env.THOROUGH:
        tog += [(ps, k) for k, ps in enumerate(itertools.combinations(small[::2], 3)) if fits(*ps)]
    tog = [(i, ps, n) for i, (ps, n) in enumerate(tog)]
    tog = [(i, ps, n) for i, ps, n in tog if all(len(x) < 200 for x in ps)]
    exact = [[[(x, k)]] for k, x in enumerate(singles[::7] + [x for x in singles if x in set(paths(TOPS, [""], names))])]
    ch = [("src/public/a", 0), ("src/public/a", 1), ("src/public/a/a", 0), ("src/public/a.txt", 0), ("src/public/a.txt", 2), ("src/public2/a.txt", 0), ("src/partials/a.txt", 0), ("src/public/x.html", 0), ("src/public/x.html/a.txt", 0), ("src/public/x.js", 0), ("src/public/x.js/x.js", 0), ("src/public/x.css", 0), ("src/public/x.htm", 3), ("src/public/a/b/c/a.txt", 0), ("src/Public/x.js", 0)]
    changes = [[[x], [y]] for x in ch for y in ch]
    changes += [[[x], [], [x]] for x in ch] + [[[x], [x, y], [y]] for x in ch for y in ch if fits(x[0], y[0])]
    if env.THOROUGH:
        changes += [[[x], [y], [z]] for x in ch for y in ch for z in ch]
    jobs = []
    for symlinks in (False, True):
        for dev in (False, True):
            jobs += [("exact", symlinks, dev, exact[i:i + 60]) for i in range(0, len(exact), 60)]
            jobs += [("exact", symlinks, dev, changes[i:i + 60]) for i in range(0, len(changes), 60)]
            if symlinks == dev or env.THOROUGH:
                jobs += [("together", symlinks, dev, tog[i:i + 500]) for i in range(0, len(tog), 500)]
    c.cov["rule"] = "%d files (%d tops, %d folders, %d names), %d trees side by side, %d trees alone, %d changes of trees; copies and links, dev and prod" % (len(singles), len(TOPS), len(DIRS), len(names), len(tog), len(exact), len(changes))
    m = 0
    for j, (n, bad) in env.pmap(job, jobs, deadline=c.deadline):
        m += 1
        c.add(states=n, transitions=n, traces_validated_against_impl=n)
        c.sample(repr(j[3][len(j[3]) // 2])[:200], 6)
        for f, why in bad:
            c.violation(f, why, {"case": f, "why": why})
    if m < len(jobs):
        c.cap("time budget reached after %d of %d groups" % (m, len(jobs)))
    mj = mode_jobs()
    m = 0
    for j, (n, bad) in env.pmap(modes, mj, deadline=c.deadline):
        m += 1
        c.add(states=n, transitions=n, traces_validated_against_impl=n, builds_by_mode_and_folder=n)
        for f, why in bad:
            c.violation(f, why, {"case": f, "why": why})
    if m < len(mj):
        c.cap("time budget reached after %d of %d groups of modes" % (m, len(mj)))
