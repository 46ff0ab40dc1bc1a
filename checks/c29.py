"""C29: the development server serves exactly the published site, as it is now.

State space: published sites (built with symlinks and without) under the real `run` command in a process of its
own: every published file, every request path over an alphabet of path segments (names, dots, escapes) up to a
length, every method and validator; every transition between source states rebuilt under a running server; the
`dev` command with and without --watch over a chain of source states.  Oracle: the files below out/www and the
path normalisation of the URL standard; a system whose mime tables are wrong."""
import ctypes
import http.client
import itertools
import os
import signal
import socket
import subprocess
import sys
import time
from urllib.parse import quote, unquote

from vp import env, site

PUB = "src/public/"
TYPES = {"html": ("text/html",), "css": ("text/css",), "js": ("text/javascript", "application/javascript"), "svg": ("image/svg+xml",), "jpg": ("image/jpeg",), "jpeg": ("image/jpeg",), "png": ("image/png",),
         "gif": ("image/gif",), "webp": ("image/webp",)}
WRONG_TABLES = "text/plain js css html\napplication/x-css css\ntext/xml svg\nimage/x-png png\napplication/octet-stream webp jpg jpeg gif\napplication/x-javascript js\n"


def page(t):
    return "<!DOCTYPE html><html><head><title>%s</title><link rel=\"stylesheet\" href=\"/css/a.css\"><script type=\"module\" src=\"/js/a.js\"></script></head><body><!--[IMAGE: /img/p.png 4 4]--></body></html>" % t


BASE = {PUB + "index.html": page("root"), PUB + "css/a.css": "a{color:red}", PUB + "css/main.css": ":root{}", PUB + "js/a.js": "export const a = 1;", PUB + "img/p.png": site.png(8, 8), PUB + "img/x.svg": "<svg xmlns='http://www.w3.org/2000/svg'/>"}
SITES = [
    BASE,
    dict(BASE, **{PUB + k: v for k, v in {
        "a/index.html": "<!DOCTYPE html><html><head><title>a</title></head><body><script>x=1</script></body></html>", "a/b/c.html": "<p>c", "b.html": "<p>b", "a b.html": "<p>s", "c#.html": "<p>h", "c?x.html": "<p>q",
        "c%41.html": "<p>p", "cA.html": "<p>A", "\u00e9.html": "<p>e", "f/g.JPG": b"\xff\xd8jpeg", "f/g.jpeg": b"\xff\xd8\xff", "f/g.gif": b"GIF89a", "f/g.webp": b"RIFF", "f/g.PNG": b"png", "f/g.txt": "t", "f/g": "none",
        "f/g.svg": "<svg/>", "f/x.tar.gz": b"\x1f\x8b", "f/g.json": "{}", "+.html": "<p>+", "a+b.css": "a{}", "empty.js": "", "empty.txt": "", "f/empty.html": ""}.items()}),
    dict(BASE, **{PUB + "404.html": "<p>not here", PUB + "a/x.html": "<p>x", PUB + "404/index.html": "<p>folder"}),
]
NAMES = ["index.html", "a", "b", "c.html", "b.html", "css", "a.css", "img", "x.svg", "src", "public", "www", "www2", "secret", "vanillaplusjs.json", "out"]
SEGS = NAMES + ["", ".", "..", "%2e%2e", ".%2E", "..%2f..", "%2f", "%5c..", "%61", "..%2f..%2f..%2fsecret", "%252e%252e"]
_libc = ctypes.CDLL(None)


def child():
    os.setpgid(0, 0)
    _libc.prctl(1, signal.SIGKILL)


class Server:
    """The real command in a process of its own"""

    def __init__(self, p, *args, tables=False):
        self.p = p
        e = dict(os.environ, PYTHONPATH=env.REPO, PYTHONDONTWRITEBYTECODE="1")
        if tables:
            d = os.path.join(p.base, "site")
            os.makedirs(d, exist_ok=True)
            with open(os.path.join(d, "tables"), "w") as f:
                f.write(WRONG_TABLES)
            with open(os.path.join(d, "sitecustomize.py"), "w") as f:
                f.write("import mimetypes\nmimetypes.knownfiles = [%r]\n" % os.path.join(d, "tables"))
            e["PYTHONPATH"] += ":" + d
        for attempt in range(5):
            s = socket.socket()
            s.bind(("127.0.0.1", 0))
            self.port = s.getsockname()[1]
            s.close()
            self.log = open(os.path.join(p.base, "log"), "w+b")
            self.proc = subprocess.Popen([sys.executable, "-W", "ignore", "-m", "vanillaplusjs.main", args[0], "--folder", p.root, "--host", "127.0.0.1", "--port", str(self.port)] + list(args[1:]), env=e, cwd=p.base,
                                         stdin=subprocess.DEVNULL, stdout=self.log, stderr=self.log, preexec_fn=child)
            end = time.time() + 120
            while time.time() < end and self.proc.poll() is None:
                try:
                    socket.create_connection(("127.0.0.1", self.port), 1).close()
                    self.conn = None
                    return
                except OSError:
                    time.sleep(0.02)
            self.stop()
        raise Exception("the server does not start: " + self.output())

    def output(self):
        self.log.seek(0)
        return self.log.read().decode("utf-8", "replace")[-600:]

    def get(self, path, method="GET", headers=()):
        for again in (0, 1):
            try:
                if self.conn is None:
                    self.conn = http.client.HTTPConnection("127.0.0.1", self.port, timeout=60)
                self.conn.putrequest(method, path)
                for k, v in headers:
                    self.conn.putheader(k, v)
                self.conn.endheaders()
                r = self.conn.getresponse()
                return r.status, {k.lower(): v for k, v in r.getheaders()}, r.read()
            except (OSError, http.client.HTTPException):
                self.conn = None
                if again:
                    raise

    def stop(self):
        try:
            os.killpg(self.proc.pid, signal.SIGKILL)
        except OSError:
            pass
        self.proc.wait()


def site_files(p):
    """what is published, with symlinks resolved"""
    return p.www()


def files_ok(s, www, tables=False, seen=None):
    """every file is served at its url; seen: path -> (etag, modified, bytes) of earlier answers"""
    bad = []
    for f, d in www.items():
        if f.endswith("/index.html") or f == "index.html":
            urls = [quote(f), quote(f[:-10])]
        else:
            urls = [quote(f)]
        for u in urls + [quote(f, safe="/!$&'()*+,:;=@~") + "?v=abc&pv=1.2"]:
            st, h, body = s.get("/" + u)
            if st != 200 or body != d:
                bad.append(("file %s" % f, "/%s is answered with %d and %r instead of %r" % (u, st, body[:60], d[:60])))
                continue
            ext = f.rsplit(".", 1)[-1].lower()
            t = h.get("content-type", "").split(";")[0].strip().lower()
            if "." in f and ext in TYPES and t not in TYPES[ext]:
                bad.append(("type %s" % ext, "/%s is served as %r%s" % (u, t, " where the system's tables are wrong" if tables else "")))
        st, h2, body = s.get("/" + quote(f), "HEAD")
        if st != 200 or body or h2.get("content-length") != str(len(d)):
            bad.append(("head %s" % f, "HEAD /%s is answered with %d, %r" % (f, st, h2)))
        if seen is not None:
            if f in seen and seen[f][2] != d:
                for k in (1, 2, 3):
                    hs = [x for i, x in enumerate((("If-None-Match", seen[f][0]), ("If-Modified-Since", seen[f][1]))) if k & (1 << i)]
                    if k == 2:
                        continue    # whole seconds cannot tell
                    st, h3, body = s.get("/" + quote(f), "GET", hs)
                    if st != 200 or body != d:
                        bad.append(("stale %s" % f, "after a rebuild changed %s, a browser which validates the old one is answered with %d" % (f, st)))
            seen[f] = (h.get("etag", '"x"'), h.get("last-modified", ""), d)
    return bad


def resolve(path):
    """segments the request path stands for, or None if it climbs out of the root"""
    out = []
    for seg in unquote(path.split("?")[0]).split("/"):
        if seg in ("", "."):
            continue
        if seg == "..":
            if not out:
                return None
            out.pop()
        else:
            out.append(seg)
    return "/".join(out)


def weird(path):
    return any(s in ("", ".", "..") for s in unquote(path)[1:].split("/")[:-1]) or unquote(path).rsplit("/", 1)[-1] in (".", "..") or "%2f" in path.lower() or "%5c" in path.lower()


def path_ok(s, www, dirs, path):
    f = resolve(path)
    st, h, body = s.get(path)
    lost = www.get("404.html")
    if weird(path) and st != 200:
        return None if 300 <= st < 500 else "is answered with %d" % st
    if f is None:
        return None if body in www.values() or st >= 400 else "is answered with %d %r" % (st, body[:80])
    if f in www:
        want = (200, www[f])
        if path.endswith("/") and st == 404:
            return None
    elif (f in dirs or f == "") and (f + "/index.html").lstrip("/") in www:
        if not unquote(path).endswith("/") and not weird(path):
            if st in (301, 302, 307, 308):
                to = h.get("location", "")
                return None if resolve(to.split("//", 1)[-1].split("/", 1)[-1]) == f and to.endswith("/") else "is redirected to %r" % to
            return "is answered with %d instead of a redirection to the folder" % st
        want = (200, www[(f + "/index.html").lstrip("/")])
    else:
        if st in (400, 404, 405) and (lost is None or body == lost or st != 404):
            return None
        return "is answered with %d %r although nothing is there" % (st, body[:80])
    return None if (st, body) == want else "is answered with %d %r instead of %r" % (st, body[:80], want[1][:80])


def secrets(p):
    for rel in ("out/www2/secret", "out/secret", "secret", "out/wwwb/index.html"):
        q = p.path(rel)
        os.makedirs(os.path.dirname(q), exist_ok=True)
        with open(q, "w") as f:
            f.write("SECRET")


def paths_job(a):
    k, mode, chunk, first = a
    p = env.Project("c29")
    p.set_sources(SITES[k])
    p.clear_generated()
    o = p.build(dev=mode, symlinks=mode, timeout=60)
    if not o.ok:
        return 0, [("build", "the site does not build: " + o.detail[-300:])]
    secrets(p)
    www, dirs = site_files(p), {x[:-1] for x, v in p.tree("out/www").items() if v is None}
    bad, n = [], 0
    s = Server(p, "run", tables=first == 2)
    try:
        if first:
            bad += files_ok(s, www, first == 2)
            n += 4 * len(www)
            for f in list(www) + ["", "nothing"]:
                for m in ("POST", "PUT", "DELETE", "PATCH", "OPTIONS"):
                    st, h, body = s.get("/" + quote(f), m, [("Content-Length", "0")])
                    n += 1
                    if st < 400 or body in www.values() and body:
                        bad.append(("method", "%s /%s is answered with %d" % (m, f, st)))
        for segs in chunk:
            path = "/" + "/".join(segs)
            n += 1
            why = path_ok(s, www, dirs, path)
            if why:
                bad.append((path, "%s %s (site %d%s)" % (path, why, k, ", symlinks" if mode else "")))
        if site_files(p) != www:
            bad.append(("changed", "serving changes the site"))
    finally:
        s.stop()
    return n, bad[:20]


STATES = [
    {},
    {"css/a.css": "b{color:blue}", "index.html": page("two")},
    {"img/p.png": site.png(8, 8, (1, 200, 3)), "img/x.svg": "<svg xmlns='http://www.w3.org/2000/svg'></svg>"},
    {"img/x.svg": None, "a/index.html": "<p>a", "js/a.js": "export const a = 2;"},
    {"a": "file", "index.html": page("rood")},
]


def state(k):
    return {f: v for f, v in dict(BASE, **{PUB + f: v for f, v in STATES[k].items()}).items() if v is not None}


def history_job(a):
    seq, mode, real = a
    p = env.Project("c29h")
    p.set_sources(state(seq[0]))
    p.clear_generated()
    bad, n, seen = [], 0, {}
    if real:
        s = Server(p, "dev", *real)
    else:
        o = p.build(dev=mode, symlinks=mode, timeout=60)
        if not o.ok:
            return 0, [("build", o.detail[-300:])]
        s = Server(p, "run")
    try:
        for i, k in enumerate(seq):
            if i:
                p.set_sources(state(k))
                if not real:
                    o = p.build(dev=mode, symlinks=mode, timeout=60)
                    if not o.ok:
                        return n, [("build", "a rebuild fails: " + o.detail[-300:])]
            if real:
                q = env.Project("c29clean")
                q.set_sources(state(k))
                q.clear_generated()
                o = q.build(dev=True, symlinks=True, timeout=60)
                want = site.canonical(q.www())
                end = time.time() + 60
                while site.canonical(site_files(p)) != want and time.time() < end and s.proc.poll() is None:
                    time.sleep(0.05)
                if site.canonical(site_files(p)) != want:
                    bad.append(("%s" % (seq[:i + 1],), "dev %s does not publish state %d: %s; %s" % (" ".join(real), k, env.diff_trees(site.canonical(site_files(p)), want), s.output())))
                    break
            www = site_files(p)
            n += 4 * len(www)
            b = files_ok(s, www, seen=seen)
            bad += [(x, "after the states %s (%s): %s" % (seq[:i + 1], "dev " + " ".join(real) if real else "run", y)) for x, y in b]
            gone = [f for f in seen if f not in www]
            for f in gone:
                st, h, body = s.get("/" + quote(f))
                if st == 200:
                    bad.append(("gone %s" % f, "%s is still served" % f))
                seen.pop(f)
            if s.proc.poll() is not None:
                bad.append(("end", "the server ended: " + s.output()))
                break
    except Exception as e:
        bad.append(("%s" % (seq,), "the server fails: %r; %s" % (e, s.output())))
    finally:
        s.stop()
    return n, bad[:8]


def job(a):
    import gc
    gc.enable()
    return {"paths": paths_job, "history": history_job}[a[0]](a[1])


def run(c):
    c.assumptions = ["request paths which the URL standard would normalise first (dot and empty segments, escaped slashes) may also be refused", "validators that only tell whole seconds are not relied upon",
                     "types are judged for html, css, js and the picture formats"]
    L = 3
    paths = [t for n in range(1, L + 1) for t in itertools.product(SEGS, repeat=n)]
    if not env.THOROUGH:
        small = ["index.html", "a", "b", "c.html", "www2", "secret", "vanillaplusjs.json", "", ".", "..", "%2e%2e", "..%2f..", "%2f", "%5c.."]
        paths = [t for n in (1, 2) for t in itertools.product(SEGS, repeat=n)] + list(itertools.product(small, repeat=3))
    jobs = []
    for k in range(len(SITES)):
        for mode in (False, True):
            part = paths if env.THOROUGH or (k == 1) == mode or k == 2 else paths[:len(SEGS) + len(SEGS) ** 2]
            for i in range(0, len(part), 900):
                jobs.append(("paths", (k, mode, part[i:i + 900], 1 if i == 0 else 0)))
            jobs.append(("paths", (k, mode, [], 2)))
    seqs = [t for t in itertools.permutations(range(len(STATES)), 2)] if not env.THOROUGH else [t for t in itertools.product(range(len(STATES)), repeat=3) if t[0] != t[1] != t[2]]
    hist = [("history", (t, m, None)) for t in seqs for m in (False, True)]
    hist += [("history", ((0, 1, 2, 3, 4, 0), True, ("--watch",))), ("history", ((4, 2, 1, 0, 3), True, ("--watch", "--debounce", "20"))), ("history", ((0,), True, ())), ("history", ((3,), True, ()))]
    if env.THOROUGH:
        hist += [("history", (t, True, ("--watch",))) for t in itertools.permutations(range(len(STATES)), 3)]
    c.cov["rule"] = "%d request paths of up to %d segments on %d sites; %d histories of rebuilds under a running server" % (len(paths), L, 2 * len(SITES), len(hist))
    m = 0
    for j, (n, bad) in env.pmap(job, hist + jobs, chunk=1, deadline=c.deadline):
        m += 1
        c.add(states=1, transitions=n, traces_validated_against_impl=1)
        for key, why in bad:
            c.violation(key, why, {"job": j[1][:2], "why": why})
    if m < len(hist) + len(jobs):
        c.cap("time budget reached after %d of %d groups" % (m, len(hist) + len(jobs)))
