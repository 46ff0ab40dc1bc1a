"""C04: every cache-busting version equals the hash of the published target.

Part one: every acyclic reference graph over a page, two stylesheets, two modules, a font and a picture;
every graph is built, then every single file is changed and the site rebuilt incrementally; after each
build every reference is versioned with the published hash.
Part two: every spelling of a reference (element, attribute order, rel, quoting, url kind) in HTML and
CSS; local ones are versioned and keep their path, all others are left as written.
Part three: files of every size around the powers of two, and changes of their last byte."""
import html.parser
import itertools
import re
import urllib.parse

from vp import batch, csstok, env, site


class Tags(html.parser.HTMLParser):
    def __init__(self):
        super().__init__(convert_charrefs=True)
        self.tags = []

    def handle_starttag(self, tag, attrs):
        if tag in ("link", "script"):
            self.tags.append((tag, tuple(sorted((k, v or "") for k, v in attrs))))

    handle_startendtag = handle_starttag


def tags(text):
    t = Tags()
    t.feed(text)
    t.close()
    return t.tags


def versioned(path, www):
    d = www.get(path.lstrip("/"))
    if d is None:
        return path + "?MISSING"
    return path + "?" + urllib.parse.urlencode({"v": site.sha(d), "pv": PV})


# --------------------------------------------------------------------------- part one
EDGES = [("p", "m"), ("p", "n"), ("p", "s"), ("p", "t"), ("p", "f"), ("m", "n"), ("m", "f"), ("n", "f"), ("s", "t"), ("n", "g"), ("q", "s"), ("q", "n")]
NAME = {"p": "p.html", "q": "sub/q.html", "m": "css/m.css", "n": "css/n.css", "s": "js/s.js", "t": "js/t.js", "f": "f.woff", "g": "img/g.png"}


def source(node, base, edges, ver):
    out = [b for a, b in edges if a == node]

    def url(x):
        return "/%s/%s" % (base, NAME[x])
    if node in "pq":
        h = ""
        for x in out:
            if x in "mn":
                h += '<link rel="stylesheet" href="%s">' % url(x)
            elif x in "st":
                h += '<script src="%s" type="module"></script>' % url(x)
            else:
                h += '<link as="font" rel="preload" href="%s">' % url(x)
        return "<!DOCTYPE html><html><head><title>%s%s</title>%s</head><body></body></html>" % (node, ver, h)
    if node in "mn":
        s = ""
        for x in out:
            s += {"n": '@import url("%s");', "f": "@font-face{src:url(%s)}", "g": "a{background:url('%s')}"}[x] % url(x)
        return "%s/*%s%s*/" % (s, node, ver)
    if node in "st":
        return "".join('import * as %s from "%s";' % (x, url(x)) for x in out) + "export const %s='%s';" % (node, ver)
    return "%s%s%s" % (node, base, ver)


def refs_of(node, text):
    if node in "pq":
        return [dict(a).get("href") or dict(a).get("src") for t, a in tags(text)]
    if node in "mn":
        return re.findall(r"""url\(["']?([^"')]*)["']?\)""", text)
    return re.findall(r'from "([^"]*)"', text)


def graph_job(graphs):
    p = env.Project("c04")
    bad = []
    builds = refs = 0
    src = {}
    for i, g in enumerate(graphs):
        for node in NAME:
            src["src/public/g%d/%s" % (i, NAME[node])] = source(node, "g%d" % i, g, 0)

    def look(when, prev):
        nonlocal refs
        www = p.www()
        pages = {}
        for i, g in enumerate(graphs):
            for node in "pqmnst":
                text = www["g%d/%s" % (i, NAME[node])].decode()
                got = refs_of(node, text)
                want = [versioned("/g%d/%s" % (i, NAME[b]), www) for a, b in g if a == node]
                refs += len(want)
                if sorted(got) != sorted(want):
                    bad.append(("%s:%s:%s" % ("".join(a + b for a, b in g), node, when), "references %r instead of %r" % (got, want)))
                pages[i, node] = text
        if prev is not None:
            ch = when.split("=")[1]
            for i, g in enumerate(graphs):
                reach = {ch}
                while True:
                    more = {a for a, b in g if b in reach} - reach
                    if not more:
                        break
                    reach |= more
                for node in "pqmnst":
                    if (pages[i, node] != prev[i, node]) != (node in reach):
                        bad.append(("%s:%s:%s" % ("".join(a + b for a, b in g), node, when),
                                    "%s although it %s the changed file" % ("changed" if pages[i, node] != prev[i, node] else "did not change",
                                                                           "reaches" if node in reach else "does not reach")))
        return pages
    p.set_sources(src)
    o = p.build(timeout=120)
    builds += 1
    if not o.ok:
        return builds, refs, [("graphs", "the build fails: " + o.detail[-500:])]
    prev = look("clean", None)
    for ver, node in enumerate("fgntms", 1):
        for i, g in enumerate(graphs):
            src["src/public/g%d/%s" % (i, NAME[node])] = source(node, "g%d" % i, g, ver)
        p.set_sources(src)
        o = p.build(timeout=120)
        builds += 1
        if not o.ok:
            return builds, refs, bad + [("graphs", "the build after changing %s fails: %s" % (node, o.detail[-500:]))]
        prev = look("change=" + node, prev)
        if len(bad) > 20:
            break
    p.reset()
    return builds, refs, bad[:20]


# --------------------------------------------------------------------------- part two
LOCAL = ["/css/t.css", "/f.woff", "/js/t.js", "/img/a b.png", "/a.b/c-d_e.f", "/\u00e9.css", "/noext"]
OTHER = ["https://x.org/css/t.css", "//x.org/css/t.css", "http://x.org/", "/css/t.css?x=1", "/css/t.css#f", "/css/t.css?v=1&pv=2", "css/t.css", "./css/t.css", "../t.css", "", "#a", "?q",
         "data:text/css,a", "HTTPS://x.org/a", "blob:x", "/t?", "/t#"]
COMMON = {"src/public" + u: "content of " + u for u in LOCAL if not u.endswith((".js", ".css"))}
COMMON.update({"src/public" + u: "/*%s*/" % u for u in LOCAL if u.endswith((".js", ".css"))})


def q(s, quote):
    return s.replace("&", "&amp;").replace(quote, "&quot;" if quote == '"' else "&#39;")


def html_cases():
    rels = [("stylesheet", True), ("preload", True), ("Stylesheet", True), ("alternate stylesheet", True), ("stylesheet preload", True), (" stylesheet ", True), ("PRELOAD", True), ("icon", False), ("canonical2", False), ("stylesheets", False), ("", False),
            ("next", False), ("prefetch", False), ("dns-prefetch", False)]
    extra = [(), (("as", "font"),), (("crossorigin", ""),), (("media", "print and (a>b)"), ("id", "x\"y"), ("data-q", "a&b")), (("type", "text/css"), ("title", "'"))]
    for url in LOCAL + OTHER:
        for rel, on in rels:
            for e in extra:
                for quote in "\"'":
                    for order in (0, 1):
                        a = [("rel", rel), ("href", url)] + list(e)
                        if order:
                            a = a[::-1]
                        yield "<link " + " ".join("%s=%s%s%s" % (k, quote, q(v, quote), quote) for k, v in a) + ">", [("link", a, "href" if on and url in LOCAL else None)]
        for e in [(), (("type", "module"),), (("async", ""), ("defer", "")), (("id", "a\"b'c"), ("type", "text/javascript")), (("href", "/css/t.css"),), (("nomodule", ""), ("crossorigin", "anonymous")), (("rel", "stylesheet"),)]:
            for order in (0, 1):
                a = [("src", url)] + list(e)
                if order:
                    a = a[::-1]
                yield "<script " + " ".join('%s="%s"' % (k, q(v, '"')) for k, v in a) + "></script>", [("script", a, "src" if url in LOCAL else None)]
    for url in LOCAL[:3]:
        yield "<link href=%s rel=stylesheet>" % url, [("link", [("href", url), ("rel", "stylesheet")], "href")]
        yield "<LINK HREF='%s' REL='stylesheet'/>" % url, [("link", [("href", url), ("rel", "stylesheet")], "href")]
        yield "<a href='%s'>x</a><img src='%s'>" % (url, url), []
        yield "<!-- <link rel=stylesheet href=%s> -->" % url, []
        yield "<p>&lt;link rel=stylesheet href=%s&gt;</p>" % url, []
        yield "<textarea><link rel=stylesheet href=%s></textarea>" % url, []
        yield "<script src=%s></script><link rel=stylesheet href=%s><script src=%s></script>" % (url, url, url), [
            ("script", [("src", url)], "src"), ("link", [("href", url), ("rel", "stylesheet")], "href"), ("script", [("src", url)], "src")]


def css_cases():
    forms = ["url(%u)", "url( %u )", "URL(%u)", "u\\72l(%u)", 'url("%s")', "url( '%s' )", 'uRL(\n"%s"\n)']
    ctxs = ["a{b:%s}", "@import %s;", "@font-face{src:%s format('woff'),%s}", "a{b:image-set(%s 1x,%s 2x)}", "%s%s", "a{b:c}%s", "@media x{a{b:%s}}", "a{b:f(%s) '/x' %s}", "/*%s*/", "a{b:\"%s\"}", "a{b:'url(/css/t.css)' %s}",
            "a{b:g('/css/t.css')%s}", "a{b:url()%s}", "a{b:x) %s}"]
    for url in LOCAL + OTHER:
        for f in forms:
            u = f.replace("%u", re.sub(r"([ ()'\"\\])", r"\\\1", url)).replace("%s", url)
            for cx in ctxs:
                if '"' in cx and '"' in u:
                    continue
                yield cx.replace("%s", u)


def tok_expect(s, www):
    """the token stream of s with local urls versioned"""
    out = []
    infn = False
    for t in csstok.significant(csstok.tokens(s)):
        if t[0] == "function":
            infn = t[1].lower() == "url"
        elif t[0] == ")":
            infn = False
        elif (t[0] == "url" or t[0] == "string" and infn):
            if t[1].startswith("/") and not t[1].startswith("//") and "?" not in t[1] and "#" not in t[1]:
                t = (t[0], versioned(t[1], www))
        out.append(t)
    return out


def spell_job(job):
    kind, cases = job
    import gc
    gc.enable()
    bad = []
    if kind == "html":
        items = [{"src/public/p/%d.html" % i: "<!DOCTYPE html><html><head><meta charset=utf-8><title>t</title></head><body>" + s + "</body></html>"} for i, (s, w) in enumerate(cases)]
    else:
        items = [{"src/public/p/%d.css" % i: s} for i, s in enumerate(cases)]
    res = batch.build_many(items, common=COMMON, name="c04s")
    for i, (cs, r) in enumerate(zip(cases, res)):
        s = cs[0] if kind == "html" else cs
        if r[0] != "ok":
            bad.append((s, "the build fails: " + r[1][-300:]))
            continue
        www = r[1]
        if kind == "html":
            got = tags(www["p/%d.html" % i].decode())
            want = []
            for name, attrs, ref in cs[1]:
                want.append((name, tuple(sorted((k, versioned(v, www) if k == ref else v) for k, v in attrs))))
        else:
            got = csstok.significant(csstok.tokens(www["p/%d.css" % i].decode()) or [])
            want = tok_expect(s, www)
        if got != want:
            bad.append((s, "published references %r instead of %r" % (got, want)))
    return len(cases), len(cases), bad[:20]


# --------------------------------------------------------------------------- part three
def body(ext, size, last):
    if ext == "woff":
        return (b"0123456789abcde\n" * (size // 16 + 1))[:size - 1] + last
    if size < 6:
        return b" " * size
    return b"/*" + (b"padding * of / this\n" * (size // 20 + 1))[:size - 5] + last + b"*/"


def size_job(job):
    """Files of every size around the powers of two; then only their last byte changes, and their size stays"""
    ext, sizes = job
    p = env.Project("c04z")
    bad = []
    for last in (b"x", b"y"):
        src = {}
        for n in sizes:
            src["src/public/z/%d.%s" % (n, ext)] = body(ext, n, last)
            src["src/public/z/%d.html" % n] = "<!DOCTYPE html><html><head><title>t</title>%s</head><body></body></html>" % (
                '<script src="/z/%d.js"></script>' % n if ext == "js" else '<link rel="preload" href="/z/%d.%s">' % (n, ext))
        p.set_sources(src)
        o = p.build(timeout=200)
        if not o.ok:
            return len(sizes), [("sizes", "the build fails: " + o.detail[-500:])]
        www = p.www()
        for n in sizes:
            rel = "z/%d.%s" % (n, ext)
            d = www.get(rel)
            if d is None or www.get(rel + ".hash") != site.sha(d).encode() or (ext == "woff" and d != src["src/public/" + rel]) or (n > 6 and last + (b"" if ext == "woff" else b"*/") not in d[-4:]):
                bad.append(("%s-%d" % (ext, n), "the hash file of a .%s of %d bytes is not its hash, or it is published incompletely" % (ext, n)))
                continue
            t = [dict(a) for t, a in tags(www["z/%d.html" % n].decode())][0]
            if (t.get("href") or t.get("src")) != versioned("/" + rel, www):
                bad.append(("%s-%d" % (ext, n), "a .%s of %d bytes is referenced as %r instead of %r" % (ext, n, t, versioned("/" + rel, www))))
    p.reset()
    return 2 * len(sizes), bad


def run(c):
    global PV
    import vanillaplusjs.constants
    PV = vanillaplusjs.constants.PROCESSOR_VERSION
    c.assumptions = ["paths are not percent-encoded; every referenced local file exists"]
    graphs = []
    for n in range(len(EDGES) + 1):
        for g in itertools.combinations(EDGES, n):
            graphs.append(g)
    if not env.THOROUGH:
        graphs = [g for g in graphs if ("q", "n") in g or len(g) <= 5]
    hc = list(dict.fromkeys((s, repr(w)) for s, w in html_cases()))
    hc = [(s, eval(w)) for s, w in hc]
    cc = [s for s in dict.fromkeys(css_cases()) if csstok.tokens(s) is not None]
    c.cov["rule"] = ("%d acyclic reference graphs over 8 files, each built and then rebuilt after every file kind changed; %d HTML and %d CSS spellings" % (len(graphs), len(hc), len(cc)))
    jobs = [("html", hc[i:i + 100]) for i in range(0, len(hc), 100)] + [("css", cc[i:i + 200]) for i in range(0, len(cc), 200)]
    for job, (n, refs, bad) in env.pmap(spell_job, jobs, deadline=c.deadline):
        c.add(states=n, transitions=n, traces_validated_against_impl=n, spellings=n)
        c.sample(str(job[1][0])[:300], 3)
        for s, why in bad:
            c.violation(s, "%r: %s" % (s, why), {"source": s, "why": why})
    top = {"woff": 22, "css": 18, "js": 18} if env.THOROUGH else {"woff": 21, "css": 17, "js": 17}
    zj = [(e, [1 << k]) for e in top for k in range(17, top[e] + 1)] + [(e, sorted({n for k in range(17) for n in ((1 << k) - 1, 1 << k, (1 << k) + 1) if n})) for e in top]
    zj += [(e, [(1 << k) + 1]) for e in top for k in (17, 20) if k <= top[e]]
    for job, (n, bad) in env.pmap(size_job, zj, chunk=1, deadline=c.deadline):
        c.add(states=n, transitions=n, traces_validated_against_impl=n, sizes=n)
        for s, why in bad:
            c.violation(s, why, {"job": job, "why": why})
    size = 40
    m = 0
    gj = [graphs[i::len(graphs) // size + 1] for i in range(len(graphs) // size + 1)]
    for g, (builds, refs, bad) in env.pmap(graph_job, gj, deadline=c.deadline):
        m += 1
        c.add(states=len(g) * builds, transitions=len(g) * builds, traces_validated_against_impl=len(g) * builds, references_checked=refs)
        c.sample({"graph": g[len(g) // 2]}, 6)
        for s, why in bad:
            c.violation(s, "%s: %s" % (s, why), {"case": s, "why": why})
    if m < len(gj):
        c.cap("time budget reached after %d of %d groups of graphs" % (m, len(gj)))
