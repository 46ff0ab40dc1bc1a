"""C18: canonical and og:url links get the right absolute url.

State space: every combination of page path, tag form, value and host of the alphabets, alone and next to
other tags, directly in the page or through a template.  Oracle: the published page is the source page with
the value completed by hand."""
import itertools
from urllib.parse import quote, unquote, urlsplit

from vp import batch, env, htmldom

PATHS = ["index.html", "account.html", "a/index.html", "a/b/c-d_e.html", "http.html", "src/public/x.html", "public.html", "a b.html", "\u00e9.html", "a/x#y.html", "p%20q.html", "A.HTML.html", "~u/i.html"]
VALUES = [None, "", "/", "/a", "/a.html", "/a/b?c=d&e#f", "a.html", "a/", "http.html", "https", "httpd/x.html", "/http://x/", "http://x.org/", "https://example.com/a", "HTTPS://X.org/", "//x.org/a", "/\u00e9", "?q=1", "#f", " /a", "/a ",
          "android-app:x", "/src/public/a.html", "mailto:x@y", "./a.html", "/a//b", "/ a", "/%20", "/&quot;"]
HOSTS = ["example.com", "www.example.co.uk", "localhost:8080", "\u00e9xample.org"]
# (format with {v} for the attribute, is it completed, attribute)
TAGS = [('<link rel="canonical"{v}>', "href", True), ('<link{v} rel="canonical" title="t">', "href", True), ("<link rel='CANONICAL' {v}/>", "href", True), ('<link rel=canonical{v} hreflang="en" data-x="1">', "href", True), ('<link rel="nofollow canonical"{v}>', "href", True),
        ('<meta property="og:url"{v}>', "content", True), ('<meta{v} property="og:url" id="m">', "content", True), ('<META PROPERTY="og:url"{v}>', "content", True),
        ('<link rel="canonicals"{v}>', "href", False), ('<link rel="alternate"{v}>', "href", False), ('<link title="canonical"{v}>', "href", False), ('<meta name="og:url"{v}>', "content", False), ('<meta property="og:image"{v}>', "content", False),
        ('<meta property="og:url:x"{v}>', "content", False), ('<meta property="twitter:url"{v}>', "content", False), ('<meta name="canonical"{v}>', "content", False), ('<a rel="canonical"{v}>x</a>', "href", False), ('<meta property="canonical"{v}>', "content", False),
        ('<link property="og:url"{v}>', "href", False), ('<link rel="shortlink"{v}>', "href", False)]
HEADS = ["<title>t</title>%s", "%s<title>t</title><link rel=\"next\" href=\"b.html\"><meta name=\"d\" content=\"/x\">", "<title>t</title><!-- c -->%s<meta property=\"og:title\" content=\"/t\">"]


def attr(name, v):
    return "" if v is None else ' %s="%s"' % (name, v)


def complete(path, v, host):
    if v is None:
        return "https://%s/%s" % (host, quote(path))
    v = v.replace("&quot;", '"').replace("&amp;", "&").strip()
    if v.startswith("//") or (":" in v.split("/")[0].split("?")[0].split("#")[0] and v[:1].isalpha()):
        return None
    return "https://%s%s%s" % (host, "" if v.startswith("/") or not v else "/", v)


def page(head, tag, body="<p>x</p>"):
    return "<!DOCTYPE html><html><head>%s</head><body>%s</body></html>" % (head.replace("%s", tag), body)


def cases():
    for p in range(len(PATHS)):
        for t in range(len(TAGS)):
            for v in range(len(VALUES)):
                yield p, t, v, (p + t + v) % len(HEADS), False
    for t in range(len(TAGS)):
        for v in range(len(VALUES)):
            for h in range(len(HEADS)):
                yield 3, t, v, h, False
            if TAGS[t][0][1] != "a":
                yield 2, t, v, 0, True
    for t, u in itertools.product(range(8), range(8)):
        for v in (0, 2, 12):
            yield 1, (t, u), v, 0, False


def tag_of(t, v):
    f, name, done = TAGS[t]
    return f.replace("{v}", attr(name, v))


def job(j):
    import gc
    gc.enable()
    kind, host, chunk = j
    if kind == "nohost":
        return nohost(chunk)
    bad = []
    items = []
    for i, (p, t, v, h, tpl) in chunk:
        path = "d%d/%s" % (i, PATHS[p])
        ts = t if isinstance(t, tuple) else (t,)
        srcs, wants = "", ""
        for k in ts:
            srcs += tag_of(k, VALUES[v])
            new = complete(path, VALUES[v], host) if TAGS[k][2] else None
            wants += tag_of(k, VALUES[v]) if new is None else tag_of(k, new.replace("&", "&amp;").replace('"', "&quot;"))
        src = {"src/public/" + path: page(HEADS[h], srcs)}
        if tpl:
            src = {"src/public/" + path: page(HEADS[h], '<!--[TEMPLATE: ["/t%d.html"]]-->' % i), "src/partials/t%d.html" % i: srcs}
        items.append((path, src, page(HEADS[h], wants)))
    res = batch.build_many([s for p, s, w in items], config=env.default_config(host=host), name="c18", timeout=100)
    for (path, src, want), r in zip(items, res):
        s = src["src/public/" + path]
        if r[0] != "ok":
            bad.append((s, "the build of %s fails: %s" % (path, r[1][-300:])))
            continue
        got, exp = htmldom.doc(r[1][path]), htmldom.doc(want)
        d = htmldom.first_difference(relax(got), relax(exp))
        if d:
            bad.append((host + " " + path.split("/", 1)[1] + " " + s, "%s as %s on %s: %s" % (s, path, host, d)))
    return len(items), bad[:20]


def relax(doc):
    """page paths may be published encoded or not"""
    def fix(x):
        if isinstance(x, str) and x.startswith("https://"):
            u = urlsplit(x)
            if not u.query and not u.fragment:
                return "https://%s%s" % (u.netloc, quote(unquote(u.path)))
            return x
        if isinstance(x, (list, tuple)):
            return type(x)(fix(y) for y in x)
        if isinstance(x, dict):
            return {k: fix(y) for k, y in x.items()}
        return x
    return fix(doc)


def nohost(chunk):
    """Without a host a page that needs one must not be published; every other page is unchanged."""
    bad = []
    p = env.Project("c18n")
    fine = []
    for i, (t, v) in chunk:
        s = page(HEADS[0], tag_of(t, VALUES[v]))
        if TAGS[t][2] and complete("x.html", VALUES[v], "h") is not None:
            p.write_config(env.default_config(host=None))
            p.set_sources({"src/public/x.html": s})
            p.clear_generated()
            o = p.build(timeout=20)
            if o.ok:
                bad.append(("no host " + s, "without a host, %s is published as %r" % (s, p.www().get("x.html"))))
        else:
            fine.append((i, s))
    res = batch.build_many([{"src/public/x%d.html" % i: s} for i, s in fine], config=env.default_config(host=None), name="c18m", timeout=60)
    for (i, s), r in zip(fine, res):
        d = "the build fails: " + r[1][-300:] if r[0] != "ok" else htmldom.first_difference(htmldom.doc(r[1]["x%d.html" % i]), htmldom.doc(s))
        if d:
            bad.append(("no host " + s, "without a host, %s: %s" % (s, d)))
    return len(chunk), bad[:20]


def run(c):
    c.assumptions = ["the configured host is a bare host name, optionally with a port"]
    cs = list(enumerate(cases()))
    jobs = [("nohost", None, [(i, x) for i, x in enumerate(itertools.product(range(len(TAGS)), range(len(VALUES))))][k::16]) for k in range(16)]
    for h in HOSTS:
        jobs += [("cases", h, cs[i:i + 300]) for i in range(0, len(cs), 300)]
    c.cov["rule"] = "%d pages (%d paths, %d tag forms, %d values, heads, templates, pairs of tags) x %d hosts, and every tag and value without a host" % (len(cs), len(PATHS), len(TAGS), len(VALUES), len(HOSTS))
    m = 0
    for j, (n, bad) in env.pmap(job, jobs, deadline=c.deadline):
        m += 1
        c.add(states=n, transitions=n, traces_validated_against_impl=n)
        if j[0] == "cases":
            p, t, v, h, tpl = j[2][len(j[2]) // 2][1]
            c.sample("%s: %s on %s" % (PATHS[p], tag_of(t if isinstance(t, int) else t[0], VALUES[v]), j[1]), 6)
        for s, why in bad:
            c.violation(s, why, {"case": s, "why": why})
    if m < len(jobs):
        c.cap("time budget reached after %d of %d groups" % (m, len(jobs)))
