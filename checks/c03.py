"""C03: the result of a build does not depend on the timing of its workers.

State space: for small projects (first builds, incremental builds, builds of broken sources) every order in
which the scanning and building workers can complete, waking the coordinating process after any number of them,
and every interleaving of the file-system steps of the workers up to a bound on deviations; each schedule is a
build of the real code under a controlled executor. Every schedule must succeed or fail alike, publish the
bytes of a clean build, store the same graphs, build files only after what they depend on, and never have two
workers write one output at a time; after failing ones the next build must recover."""
from checks.sched import PUB, sweep
from checks.universes import CSS, JS, T, page
from vp import env, site

VARS = ":root{--col-p:#111;--icon-size-s:1rem}"
ICON = "/*! PREPROCESSOR: icon tog p all-colors all-sizes */"
GLUE = '{"k": {"path": "/img/a.png", "width": %d, "height": 4}}'
I = "<!--[IMAGE: /img/a.png %d 4]-->"


def universes():
    pages = {PUB + "index.html": page(T("/a.html"), CSS % "/css/m.css"), "src/partials/a.html": "<b>1</b>" + JS % "/js/m.js", PUB + "css/m.css": "a{b:c}", PUB + "js/m.js": "1;"}
    chain = {PUB + "index.html": page("<script>import '/js/a.js'</script>"), PUB + "js/a.js": "import '/js/b.js';", PUB + "js/b.js": "import '/js/c.js';", PUB + "js/c.js": "3;"}
    outl = {PUB + "a.html": page("<script>1;</script><style>p{q:r}</style>"), PUB + "b.html": page(T("/s.html") + "<script>2;</script>"), "src/partials/s.html": "<script>import '/js/m.js'</script>", PUB + "js/m.js": "1;"}
    icons = {PUB + "css/main.css": VARS, PUB + "css/a.css": ICON, PUB + "css/b.css": ICON, PUB + "img/icons/tog.svg": "<svg fill='#111'/>"}
    nest = {PUB + "css/main.css": ".u{a:b}", PUB + "css/x.css": ".x{/*! PREPROCESSOR: import .u */}", PUB + "css/y.css": ".y{/*! PREPROCESSOR: import .x FROM /css/x.css */ background:url(data:image/svg+xml,a)}", PUB + "css/z.css": ".z{background:url(data:image/svg+xml,a)}"}
    glue = {PUB + "img/a.png": site.png(8, 8), PUB + "js/x.images.json": GLUE % 4, PUB + "js/use.js": "import x from '/js/x.images.js'; x;"}
    const = {PUB + "js/constants.js": "//", PUB + "js/a.js": "import { API_URL } from '/js/constants.js'; API_URL;", PUB + "js/b.js": "import { API_URL as z } from '/js/constants.js'; z;", PUB + "index.html": page("", JS % "/js/a.js")}
    site_ = {PUB + "index.html": page(T("/a.html") + "<style>p{q:url(/x.bin)}</style>", CSS % "/css/b.css"), "src/partials/a.html": "<script>import '/js/c.js'</script>", PUB + "css/a.css": ICON, PUB + "css/b.css": ICON + ".b{/*! PREPROCESSOR: import .m */}", PUB + "css/main.css": VARS + ".m{a:b}", PUB + "img/icons/tog.svg": "<svg fill='#111'/>", PUB + "js/c.js": "1;", PUB + "x.bin": b"\0" * 3000, PUB + "two.html": page("<style>p{q:url(/x.bin)}</style>" + T("/a.html"), JS % "/js/c.js"), PUB + "js/d.js": "import '/js/c.js'"}
    return [
        dict(name="site", asg=site_),
        dict(name="site again", prior=[site_], asg={**site_, PUB + "js/c.js": "2;", PUB + "x.bin": b"1", PUB + "css/main.css": VARS.replace("111", "222") + ".m{c:d}"}),
        dict(name="pages", asg=pages),
        dict(name="pages again", prior=[pages], asg={**pages, "src/partials/a.html": JS % "/js/n.js", PUB + "css/m.css": "b{b:c}", PUB + "js/n.js": "2;"}),
        dict(name="chain", asg=chain),
        dict(name="chain again", prior=[chain], asg={**chain, PUB + "js/c.js": "33;", PUB + "js/b.js": "1;", PUB + "js/a.js": "import '/js/c.js'; import '/js/b.js'"}),
        dict(name="outline", asg=outl),
        dict(name="outline again", prior=[outl], asg={**outl, "src/partials/s.html": "<style>s{t:u}</style>", PUB + "a.html": page("x")}),
        dict(name="icons", asg=icons),
        dict(name="icons again", prior=[icons], asg={**icons, PUB + "css/a.css": ICON + "x{y:z}", PUB + "img/icons/tog.svg": "<svg fill='#111' a='b'/>"}),
        dict(name="icons dropped", prior=[icons], asg={**icons, PUB + "css/a.css": "a{b:c}", PUB + "css/main.css": VARS.replace("111", "222")}),
        dict(name="nest", asg=nest),
        dict(name="nest again", prior=[nest], asg={**nest, PUB + "css/main.css": ".u{d:e}", PUB + "css/z.css": ".z{a:b}"}),
        dict(name="glue", images=True, asg=glue),
        dict(name="glue again", images=True, prior=[glue], asg={**glue, PUB + "js/x.images.json": GLUE % 3, PUB + "img/a.png": site.png(6, 8)}),
        dict(name="glue gone", images=True, prior=[glue], asg={k: v for k, v in glue.items() if "x.images" not in k and "use" not in k}),
        dict(name="constants", asg=const),
        dict(name="constants again", prior=[const], dev=True, asg={**const, PUB + "js/b.js": "1;"}),
        dict(name="images", images=True, asg={PUB + "img/a.png": site.png(8, 8), PUB + "a.html": page(I % 4), PUB + "b.html": page(I % 4 + I % 3)}),
        dict(name="moved", prior=[{PUB + "a": "1", PUB + "b.html": page("<style>a{b:c}</style>"), PUB + "c.css": "c{d:e}"}], asg={PUB + "a/x": "1", PUB + "b.html/y.txt": "2", PUB + "css/gen/b/1.css": "q{r:s}"}),
        dict(name="broken script", fails=True, asg={**chain, PUB + "js/b.js": "import '/js/c.js'; import '/js/none.js'"}, then=chain),
        dict(name="broken page", fails=True, prior=[outl], asg={**outl, PUB + "b.html": page(T("/none.html")), PUB + "js/m.js": "2;"}, then={**outl, PUB + "js/m.js": "2;"}),
        dict(name="broken style", fails=True, prior=[nest], asg={**nest, PUB + "css/x.css": ".x{/*! PREPROCESSOR: import .none */}", PUB + "css/z.css": ".z{e:f}"}, then={**nest, PUB + "css/z.css": ".z{e:f}"}),
        dict(name="broken image", fails=True, images=True, asg={PUB + "img/a.png": b"none", PUB + "a.html": page(I % 4), PUB + "b.html": page("<script>1;</script>")}, then={PUB + "img/a.png": site.png(8, 8), PUB + "a.html": page(I % 4), PUB + "b.html": page("<script>1;</script>")}),
    ]


def run(c):
    us = universes()
    T = env.THOROUGH
    st = sweep(c, [(u, "stepped", 8000 if T else 500) for u in us], workers=4 if T else 3)
    if c.viol:
        return
    jobs = []
    for u, s in zip(us, st):
        # without conflicts between them, the order of the scanning workers cannot matter
        jobs.append((u, "atomic", (15000 if s["scans_conflict"] else 2000) if T else (400 if s["scans_conflict"] else 120)))
        jobs.append((u, "builds", 20000 if T else 2000))
    for s in sweep(c, sorted(jobs, key=lambda j: -j[2])):
        c.sample(s)
    c.assumptions += ["a worker's file-system steps are atomic", "contents of a worker's memory do not depend on which worker of the pool runs it"]
