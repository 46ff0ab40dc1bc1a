"""C11: inline scripts and styles become files, and nothing is lost.

State space: every sequence up to a length of pieces (scripts and styles of all kinds between other markup),
in every region of the page, directly or through a template, over page paths, every change from one
sequence to another, and every set of related page names.  Oracle: the parsed source page with each inline script/style replaced by hand; the
generated file must be what an ordinary file with the same code is published as."""
import hashlib
import base64
import itertools
import re
from urllib.parse import parse_qs, unquote, urlsplit

from vp import csstok, env, htmldom, jsast, site

PNG = "data:image/png;base64," + base64.b64encode(site.png(1, 1, (1, 2, 3))).decode()
COMMON = {"src/public/js/lib.js": "export const lib = 1;\n", "src/public/css/lib.css": "b{color:red}\n", "src/public/img/a.png": site.png(2, 2, (9, 9, 9))}

# inline code by kind
JS = ["alert(1)", "", "\n  // c\n  let a = 'x' + `t${1}` ; /re/.test(a)\n", "if (1 < 2 && 3 > 2) document.title = '<b>&amp;</b>'", "var s = '<\\/script>' + \"<style>\"; <!-- x\n"[:-7] + "\n",
      "'\u00e9 \U0001f600 \u00a0'", "var x = 1 /* no end of line */", "import { T } from '/js/lib.js' // TYPE\n"]
MJS = ["import { lib } from '/js/lib.js';\nlib;", "import lib from \"/js/lib.js\"", "export const z = `</p>`;"]
CSS = ["a{color:red}", "", "\n  /* c */\n  a > b { color : blue ; }\n  a{ &:hover{color:red} b{margin:0} }\n", "@import url(/css/lib.css);\np::before{content:'<b>&amp;'}", ".x{background:url(/img/a.png)}",
       ".y{background:url(%s)}" % PNG, "@media print{a{color:#fff}}", "q{content:'\u00e9'}"]
PIECES = []
PIECES += [("js", "", c) for c in JS]
PIECES += [("js", a, JS[0]) for a in [' id="s" class="a b" data-x="&quot;&amp;"', ' type="text/javascript"', ' TYPE=" Module "', ' type="Application/JavaScript" nonce=n', ' type="" async', ' defer language="javascript"', ' type=module crossorigin="anonymous"', ' nomodule']]
PIECES += [("js", " type=module", c) for c in MJS]
PIECES += [("css", "", c) for c in CSS]
PIECES += [("css", a, CSS[0]) for a in [' media="(max-width: 100px) and (color)"', ' type="text/css" title="t"', ' id=i nonce="n" data-a', ' MEDIA=print class="x y"']]
PIECES += [("raw", "", c) for c in [
    '<script src="https://x.org/a.js"></script>', '<script src="/js/lib.js"></script>', '<script src=""></script>', '<script type="application/ld+json">{"a": "<b>"}</script>', '<script type="importmap">{"imports":{}}</script>',
    '<script type="text/javascript; charset=utf-8">x < y</script>', '<script type="text/x-template"><p>{{ x }}</p></script>', '<script type=speculationrules>{}</script>', "<!-- <script>alert(2)</script> -->",
    '<link rel="stylesheet" href="/css/lib.css">', "<noscript><style>n{color:red}</style></noscript>", "<noscript><link rel=\"stylesheet\" href=\"https://x.org/a.css\"></noscript>", '<script type="application/json" id="d">[1, 2]</script>']]
BODY = ["text", "<p>a<script>b()</script>c</p>", "<div><style>d{color:red}</style><span>x</span></div>", "<textarea><script>t()</script></textarea>", "<svg><style>a{fill:red}</style><script>s()</script><g><title>t</title></g></svg>",
        "<math><mtext><style>m{color:red}</style></mtext></math>", "<svg><foreignObject><style>f{color:red}</style><script>g()</script></foreignObject></svg>", "<template><style>h{color:red}</style><b></b></template>", "<ul><li><script>l1()</script><li><script>l2()</script></ul>",
        "<table><tr><td><script>u()</script></td></tr></table>", "<xmp><script>v()</script></xmp>", "<pre>\n<style>w{}</style> </pre>"]
PIECES += [("body", "", c) for c in BODY]
PATHS = ["index.html", "a/b.html", "a/b.c.html", "js/gen/x.html", "a b.html", "\u00e9.html", "src/public/x.html", "x", "public/x.html", "1.html"]
JS_TYPES = {"", "module"} | {"%s/%s" % (a, b) for a in ("text", "application") for b in ("javascript", "ecmascript", "x-javascript", "x-ecmascript")} | {"text/jscript", "text/livescript"} | {"text/javascript1.%d" % i for i in range(6)}
SUB = [0, 2, 8, 10, 16, 18, 20, 24, 27, 31, 33, 34, 39, 43]


def piece(i):
    k, a, c = PIECES[i]
    return "<script%s>%s</script>" % (a, c) if k == "js" else "<style%s>%s</style>" % (a, c) if k == "css" else c


def page(seq, where, tpl=None):
    body = "" if tpl is None else '<!--[TEMPLATE: ["/t%s.html"]]-->' % tpl
    s = "\n".join(piece(i) for i in seq)
    if tpl is not None:
        h, b = (body, "<p>x</p>") if where == "head" else ("", "<p>x</p>" + body)
    elif where == "split":
        k = (len(seq) + 1) // 2
        h, b = "".join(piece(i) for i in seq[:k]), "<p>x</p>" + "".join(piece(i) for i in seq[k:])
    else:
        h, b = (s, "<p>x</p>") if where == "head" else ("", "<div>" + s + "</div>")
    return "<!DOCTYPE html><html><head><title>t</title>%s</head><body>%s</body></html>" % (h, b), s


def foreign(stack):
    """whether the innermost element is an svg or math element"""
    f = None
    for n in stack:
        if n in ("svg", "math"):
            f = n
        elif (f == "svg" and n in ("foreignObject", "desc", "title")) or (f == "math" and n in ("mi", "mo", "mn", "ms", "mtext", "annotation-xml")):
            f = None
    return f is not None


def expected(doc):
    """[(token | ("gen", kind, attrs, code))] of the published page"""
    out, stack, i = [], [], 0
    while i < len(doc):
        t = doc[i]
        if t[0] == "Start":
            a = dict(t[2:])
            kind = None
            if t[1] == "style" and not foreign(stack):
                kind = "css"
            elif t[1] == "script" and not foreign(stack) and "src" not in a and (a.get("type") or "").strip().lower() in JS_TYPES:
                kind = "js"
            if kind:
                code, i = "", i + 1
                while doc[i] != ("EndTa", t[1]):
                    code += doc[i][1]
                    i += 1
                out.append(("gen", kind, a, code, t))
                i += 1
                continue
            stack.append(t[1])
        elif t[0] == "EndTa":
            stack.pop()
        out.append(t)
        i += 1
    return out


def norm(text):
    """gen paths of images and their versions depend on the place of the file"""
    return re.sub(rb"/img/gen/[^?\"]*\?", b"IMG?", text)


def strip_version(t):
    def val(k, v):
        return (k, v.split("?")[0]) if k in ("src", "href") and v and v.startswith("/") else (k, v)
    return t[:2] + tuple(val(*x) for x in t[2:]) if t[0] == "Start" else t


def compare(path, source, www, refs, seen):
    want = expected(htmldom.doc(source))
    got = htmldom.doc(www[path])
    i = 0
    for w in want:
        if i >= len(got):
            return "the published page lacks %r" % (w,)
        if w[0] != "gen":
            if strip_version(got[i]) != strip_version(w):
                return "%r instead of %r" % (got[i], w)
            i += 1
            continue
        kind, attrs, code, orig = w[1:]
        ref = "src" if kind == "js" else "href"
        if not code.strip() and got[i] == orig:  # nothing to lose
            i += 1
            if code:
                i += 1
            i += 1
            continue
        t = got[i]
        have = dict(t[2:]) if t[0] == "Start" else {}
        u = have.pop(ref, None)
        exp = dict(attrs)
        if kind == "css":
            if (have.pop("rel", None) or "").lower() != "stylesheet":
                return "%r is no stylesheet for %r" % (t, orig)
        if t[:2] != ("Start", "script" if kind == "js" else "link") or u is None or got[i + 1] != ("EndTa", t[1]):
            return "%r %r instead of the reference for %r" % (t, got[i + 1], orig)
        if have != exp:
            return "the reference for %r has attributes %r" % (orig, have)
        i += 2
        s = urlsplit(u)
        f = unquote(s.path)[1:]
        if s.netloc or not s.path.startswith("/") or f not in www:
            return "the reference for %r is to %s, which is not published" % (orig, u)
        if f in seen:
            return "%s is used for %s and for %s" % (f, seen[f], path)
        seen[f] = path
        if not f.endswith("." + kind):
            return "%s does not have the ending of a %s file" % (f, kind)
        h = base64.urlsafe_b64encode(hashlib.sha256(www[f]).digest()).decode()
        if parse_qs(s.query).get("v") != [h]:
            return "the version of %s is not its hash" % u
        if norm(www[f]) != norm(refs[(kind, code)]):
            return "the file for %r is %r, an ordinary file would be %r" % (code, www[f], refs[(kind, code)])
    if i != len(got):
        return "%r at the end" % (got[i:],)
    return None


def sources(i, seq, where, p, tpl):
    path = ("d%d/%s" % (i, PATHS[p])) if PATHS[p] != "x" else "p%d.html" % i
    src, part = page(seq, where, i if tpl else None)
    files = {"src/public/" + path: src}
    if tpl:
        files["src/partials/t%d.html" % i] = part
        full = page(seq, where)[0]
        if where == "body":
            full = full.replace("<div>" + part + "</div>", "<p>x</p>" + part)
        src = full
    return path, src, files


def reference(sources_):
    """{(kind, code): published bytes of an ordinary file with that code}"""
    codes = sorted({w[1:2] + w[3:4] for s in sources_ for w in expected(htmldom.doc(s)) if w[0] == "gen"})
    files = {"src/public/r/%d.%s" % (i, k): c for i, (k, c) in enumerate(codes)}
    p = env.Project("c11r", config=env.default_config())
    p.set_sources({**COMMON, **files})
    p.clear_generated()
    o = p.build(timeout=60)
    if not o.ok:
        raise Exception("the reference files do not build: " + o.detail[-500:])
    w = p.www()
    return {kc: w["r/%d.%s" % (i, kc[0])] for i, kc in enumerate(codes)}


def job(chunk):
    import gc
    gc.enable()
    kind, items = chunk
    if kind == "names":
        return len(items), names_job(items)
    bad = []
    phases = [[x[k] for x in items] for k in range(len(items[0]))] if kind == "change" else [items]
    p = env.Project("c11", config=env.default_config())
    built = [[sources(i, *it) for i, it in ph] for ph in phases]
    refs = reference([s for ph in built for _, s, _ in ph])
    for n, ph in enumerate(built):
        files = dict(COMMON)
        for _, _, f in ph:
            files.update(f)
        before = {k: (v if isinstance(v, bytes) else v.encode()) for k, v in files.items()}
        p.set_sources(files)
        o = p.build(timeout=30 + 0.2 * len(ph))
        if not o.ok:
            if len(items) > 1:
                h = len(items) // 2
                return len(items), job((kind, items[:h]))[1] + job((kind, items[h:]))[1]
            return 1, [(ph[0][1], "the build of %s fails: %s" % (ph[0][1], o.detail[-400:]))]
        t = {top + "/" + k: v for top in ("src", "out") for k, v in p.tree(top).items()}
        for f in t:
            if f.startswith("src/") and f not in before and not f.endswith("/"):
                bad.append(("left " + f, "%s is left in the sources" % f))
            if ".outline" in f or (f.startswith("out/") and f.count("/") == 1 and f.endswith(("tmp", "outline"))):
                bad.append(("left", "%s is left behind" % f))
        for f, v in before.items():
            if t.get(f) != v:
                bad.append(("changed " + f, "the source %s is changed" % f))
        www = p.www()
        seen = {}
        for path, src, _ in ph:
            if path not in www:
                bad.append((src, "%s is not published" % path))
                continue
            d = compare(path, src, www, refs, seen)
            if d:
                bad.append((src, "%s at %s%s: %s" % (src, path, " (after a change)" if n else "", d)))
        used = set(seen)
        for f in www:
            if f.startswith(("js/gen/", "css/gen/")) and not f.endswith(".hash") and f not in used and not re.match(r"(js|css)/gen/.*\.html$", f) and www[f].strip():
                bad.append((f, "%s is published, but no page refers to it%s" % (f, " (after a change)" if n else "")))
    return len(items), bad[:20]


NAMES = ["about.html", "about.de.html", "about.de.fr.html", "About.html", "about/index.html", "about/1.html", "about/0.html", "about/about.html", "about.de/index.html", "about-1.html", "about_1.html", "about 1.html", "about%201.html", "about+1.html",
         "src/public/about.html", "public/about.html", "src/about.html", "js/about.html", "js/gen/about.html", "gen/about.html", "css/gen/about.html", "a.b/about.html", "a/about.html", "a/b/about.html", "b/about.html", "ab/out.html", "1.html", "1/1.html", "1/1/1.html", "html.html", ".about.html", "c#.html", "c.html", "c?x.html", "c%41.html", "cA.html", "c;d,e.html", "c'(d).html", "c\\d.html"]


def names_job(pairs):
    """pages of related names in one project do not share their files"""
    bad = []
    p = env.Project("c11n", config=env.default_config())
    files, pages = dict(COMMON), {}
    for i, names in pairs:
        for n in names:
            path = ("" if i is None else "n%d/" % i) + n
            pages[path] = files["src/public/" + path] = page_of(n)
    p.set_sources(files)
    p.clear_generated()
    o = p.build(timeout=30 + 0.2 * len(pages))
    if not o.ok:
        if len(pairs) > 1:
            return sum((names_job(pairs[k::2]) for k in (0, 1)), [])
        return [("names %s" % (pairs[0][1],), "the build of pages named %s fails: %s" % (pairs[0][1], o.detail[-400:]))]
    www = p.www()
    refs = reference(set(pages.values()))
    seen = {}
    for path, src in pages.items():
        d = compare(path, src, www, refs, seen)
        if d:
            bad.append(("name " + path.split("/", 1)[-1], "%s among %s: %s" % (path, sorted(n for i, ns in pairs for n in ns if i is None or path.startswith("n%d/" % i)), d)))
    return bad[:20]


def page_of(name):
    code = re.sub(r"['\\\\]", "_", name)
    return page((), "head")[0].replace("</head>", "<script>a('%s')</script><style>.a{content:'%s'}</style></head>" % (code, code)).replace("</div>", "<script>b('%s')</script></div>" % code)


def cases():
    n = len(PIECES)
    nb = n - len(BODY)
    for i in range(n):
        for w in ("head", "body") if i < nb else ("body",):
            for tpl in (False, True):
                for p in range(len(PATHS)):
                    yield (i,), w, p, tpl
    for s in itertools.product(range(n), repeat=2):
        for w in ("head", "body", "split"):
            if (w == "head" and max(s) >= nb) or (w == "split" and s[0] >= nb):
                continue
            yield s, w, (sum(s) + len(w)) % len(PATHS), (s[0] + s[1]) % 5 == 0 and w != "split"
    for s in itertools.product(SUB if not env.THOROUGH else range(0, n, 2), repeat=3):
        w = "body" if max(s) >= nb else ("head", "body", "split")[sum(s) % 3]
        if w == "split" and max(s[:2]) >= nb:
            w = "body"
        yield s, w, sum(s) % len(PATHS), False


CHANGES = [(), (0,), (2,), (0, 2), (2, 0), (0, 18), (18, 0), (20, 0, 21), (34,), (44, 45), (21, 22), (37, 0, 16)]


def run(c):
    c.assumptions = ["imports and urls in inline code are absolute", "script and style elements inside svg or math content are no html elements and stay as they are"]
    cs = list(enumerate(cases()))
    ch = [[(i, (s, "body", i % len(PATHS), False)) for s in st] for i, st in enumerate(itertools.product(CHANGES, repeat=2 if not env.THOROUGH else 3))]
    nm = [(None, tuple(NAMES))] + list(enumerate(itertools.combinations(NAMES, 3 if env.THOROUGH else 2)))
    jobs = [("names", nm[:1])] + [("names", nm[i:i + 80]) for i in range(1, len(nm), 80)] + [("change", ch[i:i + 72]) for i in range(0, len(ch), 72)] + [("one", cs[i:i + 300]) for i in range(0, len(cs), 300)]
    c.cov["rule"] = "%d pages of up to 3 of %d pieces (head, body, both, template; %d paths) and %d sequences of changes between pages; %d sets of related page names" % (len(cs), len(PIECES), len(PATHS), len(ch), len(nm))
    m = 0
    for j, (n, bad) in env.pmap(job, jobs, deadline=c.deadline):
        m += 1
        c.add(states=n, transitions=n, traces_validated_against_impl=n)
        if j[0] == "one":
            c.sample(page(*j[1][0][1][:2])[0], 5)
        for s, why in bad:
            c.violation(s, why, {"case": s, "why": why})
    if m < len(jobs):
        c.cap("time budget reached after %d of %d groups" % (m, len(jobs)))
