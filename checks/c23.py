"""C23: inline data images are published as equal files.

Part one: every data url of a grammar (scheme spelling x type x parameters x encoding x payload), in
every CSS quoting and in every context, built by the real code and compared with an independent
tokenizer and a data-url decoder written from the fetch standard.
Part two: every pair of sources whose file names could share generated files, with different images.
Part three: every transition between stylesheets with up to three images, rebuilt incrementally."""
import base64
import itertools
import re
import urllib.parse

from vp import batch, csstok, env, site

B64 = re.compile(r";[ ]*base64$", re.I)


def decode(url):
    """(type, bytes) of a data url, None if the url is no (valid) data url - fetch standard."""
    u = re.sub("[\t\n\r]", "", url.strip("".join(map(chr, range(33)))))
    if not u[:5].lower() == "data:" or "," not in u:
        return None
    head, body = u[5:].split(",", 1)
    head = head.strip(" \t\n\f\r")
    data = urllib.parse.unquote_to_bytes(body)
    m = B64.search(head)
    if m:
        head = head[:m.start()]
        data = re.sub(rb"[\t\n\f\r ]", b"", data)
        if len(data) % 4 == 0:
            data = re.sub(rb"==?$", b"", data)
        if len(data) % 4 == 1 or re.search(rb"[^A-Za-z0-9+/]", data):
            return None
        data = base64.b64decode(data + b"=" * (-len(data) % 4))
    t = head.split(";")[0].strip().lower()
    return t, data


def image(url):
    r = decode(url)
    if r is None or not re.fullmatch(r"image/[a-z0-9.+-]+", r[0]) or not r[1]:
        return None
    return r


SCHEMES = ["data:", "DATA:", "Data:", " data:", "da\tta:"]
TYPES = ["image/png", "image/svg+xml", "IMAGE/Png", "image/x-icon", "image/vnd.ms-photo", "text/plain", "application/x-image", "", "imagex/png", "xdata:image/png", "font/woff", "text/image/png"]
PARAMS = ["", ";charset=utf-8", ";a=b;c=\"d\"", ";x=image/gif"]
PAYLOADS = [b"a", b"ab", b"abc", b"\x00\xff\x89PNG\r\n", b"<svg xmlns='http://x/'><a b=\"c,d\"/></svg>", b"100% + 2%41?a=b&c;base64,x", "é\u2028".encode(), b"~~~>>>???\n\n"]


def encodings(data):
    """Spellings of the payload as (head suffix, body)."""
    out = []
    out.append(("", urllib.parse.quote(data)))
    out.append(("", urllib.parse.quote(data, safe="<>='/\":,+;?&()!* ").replace("%3C", "%3c")))
    out.append(("", "".join("%%%02x" % b for b in data)))
    b = base64.b64encode(data).decode()
    out.append((";base64", b))
    out.append((";BASE64", b.rstrip("=")))
    out.append(("; base64", b.replace("=", "%3D").replace("+", "%2B")))
    out.append((";base64", b[:3] + "\n" + b[3:]))
    out.append((";base64", b[:2] + " " + b[2:]))
    out.append((";base64", "".join("%%%02X" % ord(c) for c in b)))
    return out


def cstring(s, quote):
    return quote + "".join("\\" + c if c in "\\" + quote else "\\a " if c == "\n" else "\\d " if c == "\r" else "\\c " if c == "\f" else c for c in s) + quote


def cident(s):
    return "".join("\\" + c if c in " ()'\"\\" else "\\%x " % ord(c) if c < " " or c == "\x7f" else c for c in s)


FORMS = [lambda u: "url(%s)" % cident(u), lambda u: "url(%s)" % cstring(u, '"'), lambda u: "url( %s )" % cstring(u, "'"), lambda u: "URL(%s)" % cident(u), lambda u: "u\\72l(\n%s\n)" % cstring(u, '"'),
         lambda u: "url(%s)" % cstring(u, "'").replace("data", "d\\61ta").replace("/", "\\2f ")]
CTX = ["a{b:%s}", "a{b:c %s d,%s 2x}", "@media x{a:hover{b:image-set(%s 1x,%s 2x)}}", "@font-face{src:%s format('x')}", "%s", "a{b:f(%s)g}",
       # not a url
       "a{b:%S}", "a{b:f(%S)}", "/*%s*/", "a{b:url(/x.png) %S}", "a{b:url() %S}", "a[b=%S]{}", "a{b:url(x);c:%S}", "a{c:%s;b:%S}", "a{b:f(url(x) %S)}"]


def urls():
    base = TYPES[0]
    seen = set()
    for s, t, p in itertools.product(SCHEMES, TYPES, PARAMS):
        pay = PAYLOADS if s == "data:" and p in PARAMS[:2] else PAYLOADS[3:5]
        for d in pay:
            for suf, body in encodings(d):
                u = "%s%s%s%s,%s" % (s, t, p, suf, body)
                if u not in seen:
                    seen.add(u)
                    yield u
    for u in ["data:image/png;base64,AAA=A", "data:image/png;base64,A", "data:image/png;base64,****", "data:image/png", "data:image/png;base64", "data:,image/png,x", "data:;base64,aW1hZ2UvcG5n",
              "data:image/png;base64=1,abcd", "data:image/png;base64;x=y,abcd", "data:image/png;xbase64,abcd", "image/png;base64,abcd", "/data:image/png,abc", "x.png", "data:image/,abc",
              "data:image/png,a,b,c;base64,d", "data:text/plain,data:image/png,abc", "https://x.org/data:image/png,x", "#data:image/png,x", "data:image/png;a=b,c;base64,YQ=="]:
        yield u


def cases():
    for u in urls():
        if "#" in u and not u.startswith("#"):
            continue
        full = u.startswith("data:image/png")
        for fi, f in enumerate(FORMS):
            if "\\2f" in f("/") and not full and "svg" not in u:
                continue
            for ci, cx in enumerate(CTX):
                # every url in every form; contexts crossed with a subset in the quick tier
                if not env.THOROUGH and ci and fi != ci % len(FORMS) and not (full and fi < 2):
                    continue
                yield cx.replace("%S", cstring(u, "'\""[ci % 2])).replace("%s", f(u))


def expect(s):
    """Token stream of s with image urls as ("IMG", type, bytes); None if s is out of scope."""
    toks = csstok.tokens(s)
    if toks is None:
        return None
    out = []
    infn = False
    for t in csstok.significant(toks):
        if t[0] == "function":
            infn = t[1].lower() == "url"
        elif t[0] == ")":
            infn = False
        elif t[0] == "url" or t[0] == "string" and infn:
            if t[1].startswith("/") and not t[1].startswith("//"):
                t = ("local",)
            else:
                i = image(t[1])
                if i:
                    t = ("IMG", i[0], i[1])
        out.append(t)
    return out


def published(text, www):
    toks = csstok.tokens(text)
    if toks is None:
        return "the published stylesheet %r is invalid" % text
    out = []
    infn = False
    for t in csstok.significant(toks):
        if t[0] == "function":
            infn = t[1].lower() == "url"
        elif t[0] == ")":
            infn = False
        elif t[0] == "url" or t[0] == "string" and infn:
            m = re.fullmatch(r"(/[^?#]*)\?v=([^&]*)&pv=[\d.]+", t[1])
            if m:
                path = urllib.parse.unquote(m.group(1))[1:]
                d = www.get(path)
                if d is None:
                    return "%r refers to a file which is not published" % t[1]
                if urllib.parse.unquote(m.group(2)) != site.sha(d) or www.get(path + ".hash") != site.sha(d).encode():
                    return "the version of %r or the hash file is wrong" % t[1]
                if path in ("x.png", "data:image/png,abc"):
                    t = ("local",)
                else:
                    ext = path.rsplit(".", 1)[-1]
                    t = ("IMG", ext, d)
        out.append(t)
    return out


def match(got, want):
    """None or a reason"""
    if isinstance(got, str):
        return got
    for a, b in itertools.zip_longest(got, want):
        if a == b:
            continue
        if a and b and a[0] == b[0] == "IMG":
            if a[2] != b[2]:
                return "the file holds %r, the data url %r" % (a[2][:80], b[2][:80])
            if a[1] == b[1][6:].split("+")[0].split(".")[-1]:
                continue
            return "extension %r for type %r" % (a[1], b[1])
        return "%r instead of %r" % (a, b)
    return None


COMMON = {"src/public/x.png": "x", "src/public/data:image/png,abc": "y"}


def job(js):
    kind, arg = js
    import gc
    gc.enable()
    return {"spell": spell, "files": files, "history": history}[kind](arg)


def spell(cs):
    bad = []
    per = 25
    fs = [cs[i:i + per] for i in range(0, len(cs), per)]

    def texts(f):
        return "\n;\n".join(f) + "\n"
    res = batch.build_many([{"src/public/p/%d.css" % i: texts(f)} for i, f in enumerate(fs)], common=COMMON, name="c23")
    for i, (f, r) in enumerate(zip(fs, res)):
        why = "the build fails: " + r[1][-300:] if r[0] != "ok" else match(published(r[1]["p/%d.css" % i].decode(), r[1]), expect(texts(f)))
        if why is None:
            continue
        if len(f) == 1:
            bad.append((f[0], why))
            continue
        sub = batch.build_many([{"src/public/p/%d.css" % k: s} for k, s in enumerate(f)], common=COMMON, name="c23x")
        n = len(bad)
        for k, (s, r) in enumerate(zip(f, sub)):
            w = "the build fails: " + r[1][-300:] if r[0] != "ok" else match(published(r[1]["p/%d.css" % k].decode(), r[1]), expect(s))
            if w:
                bad.append((s, w))
        if len(bad) == n:
            bad.append((texts(f), "only together: " + why))
        if len(bad) > 20:
            break
    return len(cs), bad[:20]


# ---- part two: different sources
HOSTS = ["a.css", "b.css", "sub/a.css", "a/a.css", "a/1.css", "A.css", "a.b.css", "a.html", "sub/a.html", "a/1.html", "css/a.css", "img/gen/a.css", "css/a.html", "1.css", "gen/a.css", "css/gen/a.css", "c#.css", "c?x.css", "c%41.css", "cA.css", "c.css", "c d.css", "c%20d.css", "\u00e9.css", "c#.html", "c%41.html"]


def hexed(m):
    return "_%x_" % ord(m.group())


def content(h, k, n=2):
    css = "".join("x{b:url(data:image/png,%s-%d-%d)}" % (re.sub(r"\W", hexed, h), k, i) for i in range(n))
    if h.endswith(".html"):
        half = css.index("}") + 1
        return "<!DOCTYPE html><html><head><title>t</title><style>%s</style><style>%s</style></head><body></body></html>" % (css[:half], css[half:])
    return css


def images(www):
    got = []
    for p, d in www.items():
        if p.endswith(".css"):
            r = published(d.decode(), www)
            if isinstance(r, str):
                return r
            got += [t[2].decode() for t in r if t[0] == "IMG"]
    return sorted(got)


def files(sets):
    bad = []
    p = env.Project("c23f")
    n = 0
    for hs in sets:
        p.clear_generated()
        for k in (0, 1):
            p.set_sources({"src/public/" + h: content(h, k) for h in hs})
            o = p.build()
            n += 1
            if not o.ok:
                bad.append(("%s" % (hs,), "the build fails: " + o.detail[-300:]))
                break
            got = images(p.www())
            want = sorted("%s-%d-%d" % (re.sub(r"\W", hexed, h), k, i) for h in hs for i in range(2))
            if got != want:
                bad.append(("%s" % (hs,), "the published stylesheets show %r instead of %r" % (got, want)))
                break
    return n, bad


# ---- part three: histories
def states():
    imgs = ["data:image/png,one", "data:image/gif,one", "data:image/png;base64,b25l", "data:image/png,two"]
    out = []
    for n in range(0, 4 if env.THOROUGH else 3):
        for t in itertools.product(imgs, repeat=n):
            out.append("y{}" + "".join("x{b:url(%s)}" % u for u in t))
    return out


def history(first):
    p = env.Project("c23h")
    bad = []
    n = 0
    p.set_sources({"src/public/a.css": first})
    p.clear_generated()
    o = p.build()
    snap = p.snapshot()
    for s in states():
        p.restore(snap)
        p.set_sources({"src/public/a.css": s})
        o = p.build()
        n += 1
        why = "the build fails: " + o.detail[-300:] if not o.ok else match(published(p.www()["a.css"].decode(), p.www()), expect(s))
        if why is None:
            # nothing left behind
            used = set(map(urllib.parse.unquote, re.findall(r"/(img/gen/[^?]*)\?", p.www()["a.css"].decode())))
            have = {x for x in p.www() if x.startswith("img/gen/") and not x.endswith(".hash")}
            if used != have:
                why = "image files %r, references %r" % (sorted(have), sorted(used))
        if why:
            bad.append(("%s -> %s" % (first, s), why))
    return n, bad


def run(c):
    c.assumptions = ["data urls are not empty and contain no unescaped fragment", "the reference decoder is written from the fetch standard"]
    cs = [s for s in dict.fromkeys(cases()) if expect(s) is not None and csstok.tokens(s + "\n;\n") is not None]
    pairs = list(itertools.combinations(HOSTS, 2))
    if env.THOROUGH:
        pairs += list(itertools.combinations(HOSTS, 3))
    st = states()
    c.cov["rule"] = ("%d stylesheets: every data url of the grammar (%d schemes x %d types x %d parameters x 9 encodings x %d payloads) x %d quotings x %d contexts; %d sets of sources; %d transitions between %d stylesheets"
                     % (len(cs), len(SCHEMES), len(TYPES), len(PARAMS), len(PAYLOADS), len(FORMS), len(CTX), len(pairs), len(st) ** 2, len(st)))
    jobs = [("files", pairs[i::8]) for i in range(8)] + [("history", s) for s in st] + [("spell", cs[i:i + 2000]) for i in range(0, len(cs), 2000)]
    m = 0
    for j, (n, bad) in env.pmap(job, jobs, deadline=c.deadline):
        m += 1
        c.add(states=n, transitions=n, traces_validated_against_impl=n)
        if j[0] == "spell":
            c.sample(j[1][len(j[1]) // 2][:300], 5)
        for s, why in bad:
            c.violation(s, "%r: %s" % (s, why), {"case": s, "why": why})
    if m < len(jobs):
        c.cap("time budget reached after %d of %d groups" % (m, len(jobs)))
