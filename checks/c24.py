"""C24: scanning a file predicts exactly what building it does.

State space: every sequence of up to three (quick: in one order) of the referring pieces of pages, templates,
stylesheets, scripts and glue files, and every change of one small project into another, built by the real
code; what scanning each file announced is compared with what building that file, in the same build, reported
and (by listing the published tree and the artifacts) really did."""
import itertools
import json
import os

from vp import env, executor, site

PUB = "src/public/"
JS0 = "export default 1;"
COMMON = {
    PUB + "css/main.css": ":root{--col-p:#111;--col-q:#222;--icon-size-s:1rem}.m{a:b}.n{background:url(/f.bin)}", PUB + "css/lib.css": ".l{c:d;/*! PREPROCESSOR: import .m */}", PUB + "css/c.css": "c{d:e}",
    PUB + "img/icons/i.svg": "<svg fill='#111'/>", PUB + "img/icons/j.svg": "<svg/>", PUB + "img/a.png": site.png(8, 8), PUB + "img/b.png": site.png(6, 6), PUB + "f.bin": b"\0\1", PUB + "g.bin": b"\2",
    PUB + "js/m.js": JS0, PUB + "js/n.js": "import '/js/m.js';" + JS0, PUB + "js/constants.js": "", PUB + "js/g.images.json": '{"k": {"path": "/img/a.png", "width": 4, "height": 4}}',
    "src/partials/p.html": "<b>p</b>", "src/partials/q.html": '<link rel="stylesheet" href="/css/c.css"><!--[TEMPLATE: ["p.html", {}]]-->', "src/partials/r.html": "<script>import '/js/n.js'</script><!--[IMAGE: /img/b.png 3 3]-->",
}
DATA = "data:image/svg+xml,%s"
HTML = ["text", "<!-- c -->", '<link rel="stylesheet" href="/css/c.css">', '<link rel="stylesheet" href="/css/lib.css" media="print">', '<link rel="preload" as="font" href="/f.bin">', '<link rel="icon" href="/img/a.png">',
        '<link rel="stylesheet" href="https://x.org/a.css">', '<link rel="stylesheet" href="/css/c.css?v=1">', '<script src="/js/m.js"></script>', '<script type="module" src="/js/n.js"></script>', '<script src="//x.org/a.js"></script>',
        "<script>1;</script>", "<script type=\"module\">import '/js/m.js';</script>", "<script>import g from '/js/g.images.js';</script>", "<script>import { API_URL } from '/js/constants.js';</script>", '<script type="application/ld+json">{}</script>',
        "<style>a{b:c}</style>", "<style>a{b:url(/f.bin)}</style>", "<style>a{b:url(" + DATA % "a" + ")}</style>", "<style>/*! PREPROCESSOR: icon i p all-colors all-sizes */</style>", "<style>a{/*! PREPROCESSOR: import .l FROM /css/lib.css */}</style>",
        '<!--[TEMPLATE: ["/p.html", {}]]-->', '<!--[TEMPLATE: ["/q.html", {}]]-->', '<!--[TEMPLATE: ["/r.html", {}]]-->', "<!--[IMAGE: /img/a.png 4 4]-->", "<!--[IMAGE: /img/a.png 3 4]-->", "<!--[IMAGE: /img/b.png 3 3]-->",
        "<img src=\"/img/a.png\">", "<a href=\"/css/c.css\">x</a>"]
CSS = ["a{b:c}", "a{b:url(/f.bin)}", "a{b:url('/img/a.png')}", "a{b:url(x.png)}", "a{b:url(/f.bin?x)}", "a{b:url(https://x.org/a)}", "a{b:url(" + DATA % "a" + ")}", "a{b:url(" + DATA % "bb" + ")}", "@import url(/css/c.css);", "@import '/css/c.css';",
       "/*! PREPROCESSOR: icon i p all-colors all-sizes */", "/*! PREPROCESSOR: icon i p [\"q\"] all-sizes */", "/*! PREPROCESSOR: icon j p all-colors all-sizes default */", ".x{/*! PREPROCESSOR: import .m */}", ".y{/*! PREPROCESSOR: import .n */}",
       ".z{/*! PREPROCESSOR: import .l FROM /css/lib.css */}", "/* c */", "@font-face{src:url(/g.bin)}"]
JS = ["1;\n", "import '/js/m.js';\n", "import a from '/js/m.js';\n", "import * as b from \"/js/n.js\";\n", "import g from '/js/g.images.js';\n", "import { API_URL } from '/js/constants.js';\n", "import 'https://x.org/a.js';\n", "import '/js/m.js?x';\n",
      "import('/js/m.js');\n", "import t from '/js/n.js'; // @@type-hint\n", "import '../m.js';\n", "'import \"/js/m.js\"';\n", "// import '/js/m.js'\n", "import.meta;\n", "import { default as c } from '/js/n.js';\n"]
GLUE = [{}, {"a": ("/img/a.png", 4, 4)}, {"a": ("/img/a.png", 3, 4)}, {"a": ("/img/b.png", 3, 3)}, {"a": ("/img/a.png", 4, 4), "b": ("/img/a.png", 4, 4)}, {"a": ("/img/a.png", 4, 4), "b": ("/img/b.png", 3, 3)}]
PLAIN = {PUB + "x": "1", PUB + "a.b/x.txt": "1", PUB + "css.css/y": "2", PUB + "z.HTML": "z", PUB + "z.JS": "z", PUB + "z.mjs": "z", PUB + "z.svg": "<svg/>", PUB + "z.json": "{}", PUB + "z.images.JSON": "{}", PUB + ".hidden": "h", PUB + "z.css.map": "m",
         "src/other.txt": "o", "src/partials/x.css": "x", "src/partials/x.js": "y", "src/publicx/a.html": "z", "src/publicx/b.css": "a{b:c}", "src/publicx/c.js": "1;", "src/partials/i.png": site.png(2, 2), "src/partials/y.txt": "1"}


def page(body):
    return "<!DOCTYPE html><html><head><title>t</title></head><body>%s</body></html>" % body


class Recorder(executor.Policy):
    def __init__(self):
        self.scans = {}
        self.builds = {}

    def on_result(self, t, res):
        f = next((a for a in t.args if isinstance(a, str)), None)
        if res[0] != "ok" or f is None:
            return
        v = res[1]
        if hasattr(v, "dependencies") and hasattr(v, "produces"):
            self.scans[f] = (sorted(v.dependencies), sorted(v.produces))
        elif hasattr(v, "children") and hasattr(v, "produced") and hasattr(v, "reused"):
            self.builds[f] = (sorted(v.children), sorted(v.produced), sorted(v.reused))


def _record(root, dev):
    from vanillaplusjs.runners.build import build
    r = Recorder()
    executor.POLICY = r
    build(root, dev=dev, symlinks=False, delay_files=[])
    return r.scans, r.builds


def compare(p, o, before):
    """-> [(file, text)]"""
    scans, builds = o.value
    bad = []
    after = {t + "/" + f: d for t in ("out/www", "artifacts") for f, d in p.tree(t).items() if d is not None}
    rest = {"out/" + f for f in p.tree("out")}
    claimed = set()
    for f, (children, produced, reused) in builds.items():
        made = sorted(set(produced) | set(reused))
        claimed |= set(made)
        for g in made:
            if g not in after and g not in rest:
                bad.append((f, "%s is said to be produced but does not exist" % g))
        for g in reused:
            if before.get(g) != after.get(g):
                # another file of this build may have produced it
                if not any(g in b[1] for b in builds.values()):
                    bad.append((f, "%s is said to be reused but is different now" % g))
        if f not in scans:
            continue
        deps, products = scans[f]
        if sorted(set(products)) != made:
            bad.append((f, "scanning announces the products %s, building reports %s" % (only(products, made), only(made, products))))
        if sorted(set(deps)) != sorted(set(children)):
            bad.append((f, "scanning announces the dependencies %s, building reports %s" % (only(deps, children), only(children, deps))))
    for g, d in after.items():
        if before.get(g) != d and g not in claimed and not g.endswith("/counter.txt"):
            bad.append((g, "it was written, but no file reports that it produced it"))
    return bad, len(scans), len(builds)


def only(a, b):
    return "%s%r" % ("... and " if set(a) & set(b) else "", sorted(set(a) - set(b)))


def families():
    out = []
    for name, ext, folder, pieces, put in (("html", ".html", PUB + "h/", HTML, lambda s: page("".join(s))), ("css", ".css", PUB + "c/", CSS, "\n".join), ("js", ".js", PUB + "js/j/", JS, "".join)):
        for k in (1, 2):
            for s in itertools.product(pieces, repeat=k):
                out.append((name, ext, folder, put(s)))
        for s in (itertools.product(pieces, repeat=3) if env.THOROUGH else itertools.combinations_with_replacement(pieces, 3)):
            out.append((name, ext, folder, put(s)))
    for s in HTML:
        out.append(("partial", ".html", "src/partials/h/", s))
    for ph, g in itertools.product((None, "export default 1;"), GLUE):
        out.append(("glue", ".images.json", PUB + "js/k/", json.dumps({n: dict(path=p, width=w, height=h) for n, (p, w, h) in g.items()}), ph))
    for f, d in PLAIN.items():
        out.append(("plain", f, "", d))
    return out


def sources(i, it):
    if it[0] == "plain":
        return {it[1]: it[3]}
    r = {it[2] + "%d%s" % (i, it[1]): it[3]}
    if it[0] == "glue" and it[4]:
        r[it[2] + "%d.images.js" % i] = it[4]
    return r


def batch(chunk):
    p = env.Project("c24")
    bad = []
    n = [0, 0]
    files = dict(COMMON)
    for i, it in chunk:
        files.update(sources(i, it))

    def go(items, files):
        p.set_sources(files)
        p.clear_generated()
        before = {}
        for again in range(2):
            o = env.isolated(_record, p.root, bool(again), timeout=300)
            if not o.ok:
                if len(items) == 1:
                    bad.append((repr(items[0][1][3])[:200], "the build of %r fails: %s" % (items[0][1][3], o.detail[-400:])))
                else:
                    h = len(items) // 2
                    for part in (items[:h], items[h:]):
                        fs = dict(COMMON)
                        for i, it in part:
                            fs.update(sources(i, it))
                        go(part, fs)
                return
            v, a, b = compare(p, o, before)
            n[0] += a
            n[1] += b
            for f, text in v:
                s = files.get(f)
                bad.append(("%s %r" % (os.path.splitext(f)[1], s if s is not None and len(s) < 400 else f), "%s (%r): %s" % (f, s if s is None or len(s) < 400 else s[:100], text)))
            if again:
                break
            # everything is built again: only the first byte of what all files depend on changes
            before = {t + "/" + f: d for t in ("out/www", "artifacts") for f, d in p.tree(t).items() if d is not None}
            for f in (PUB + "css/main.css", PUB + "js/m.js", "src/partials/p.html", PUB + "css/c.css"):
                p.put(f, (files[f] if isinstance(files[f], str) else files[f].decode()) + "\n")
    go(chunk, files)
    return bad[:30], n


# ------------------------------------------------------------------ changes from one project into another
def worlds():
    w = []
    for name, f, vs in [
            ("page", PUB + "index.html", [page(x) for x in HTML[11:27]]),
            ("sheet", PUB + "css/x.css", CSS),
            ("script", PUB + "js/k/x.js", JS)]:
        for a, b in itertools.permutations(vs, 2):
            w.append((name, f, a, b))
    for f in (PUB + "img/a.png", PUB + "js/m.js", PUB + "css/main.css", "src/partials/p.html", PUB + "js/g.images.json", PUB + "img/icons/i.svg", PUB + "f.bin"):
        new = site.png(6, 8) if f.endswith("png") else COMMON[f] + b"x" if isinstance(COMMON[f], bytes) else COMMON[f].replace("4}", "3}") + " "
        for name, g, vs in [("page", PUB + "index.html", [page(x) for x in HTML]), ("sheet", PUB + "css/x.css", CSS), ("script", PUB + "js/k/x.js", JS)]:
            for v in vs:
                w.append((name, g, v, (f, new)))
    return w


def change(chunk):
    p = env.Project("c24w")
    bad = []
    n = [0, 0]
    for name, f, a, b in chunk:
        p.clear_generated()
        p.set_sources({**COMMON, f: a})
        o = env.isolated(_record, p.root, False)
        if o.ok:
            before = {t + "/" + g: d for t in ("out/www", "artifacts") for g, d in p.tree(t).items() if d is not None}
            if isinstance(b, tuple):
                p.put(b[0], b[1])
            else:
                p.put(f, b)
            o = env.isolated(_record, p.root, False)
        key = "%s %r -> %r" % (f, a, b if isinstance(b, str) else b[0])
        if not o.ok:
            bad.append((key, "%s: the build fails: %s" % (key, o.detail[-400:])))
            continue
        v, x, y = compare(p, o, before)
        n[0] += x
        n[1] += y
        for g, text in v:
            bad.append((key + " " + g, "after the change %s, %s: %s" % (key, g, text)))
    return bad[:30], n


def run(c):
    items = list(enumerate(families()))
    size = 250
    chunks = [("b", items[i:i + size]) for i in range(0, len(items), size)]
    ws = worlds()
    chunks += [("w", ws[i:i + 12]) for i in range(0, len(ws), 12)]
    done = 0
    for ch, (bad, n) in env.pmap(_job, chunks, deadline=c.deadline):
        done += 1
        for k, m in bad:
            c.violation(k, m)
        c.add(scanned_and_built=n[0], built=n[1], states=len(ch[1]), transitions=n[1])
    c.add(sources=len(items), changes=len(ws))
    for f in ("html", "css", "js"):
        c.sample(next(it[3] for _, it in reversed(items) if it[0] == f))
    if done < len(chunks):
        c.cap("%d of %d groups" % (done, len(chunks)))
    if not c.cov.get("scanned_and_built"):
        c.cap("the workers could not be observed")


def _job(ch):
    return (batch if ch[0] == "b" else change)(ch[1])
