"""C21: external files are only ever installed when their integrity matches.

State space: breadth-first search over all histories of configuration changes (two files, two versions, moved
and dropped files), local modifications, behaviours of the server (a real one on the loopback interface: right
and wrong contents, errors, cut and refused answers, redirects) and builds, with a reference model; and from every
built configuration, the builds of every other one killed at every file-system effect (also with the file being
written cut), followed by the builds of every configuration.  Also, every way of changing an installed file (in
place or replaced, every relation of the sizes and modification times in which something of the signature differs)."""
import base64
import hashlib
import http.server
import json
import os
import threading

from vp import bfs, env, site

F, G = "public/lib/f.txt", "public/lib/deep/g.txt"
BODY = {"/1": b"one\n" * 50, "/2": b"two \xff\0\n" * 3000}


def integrity(kind, d):
    return "%s-%s" % (kind, base64.b64encode(hashlib.new(kind, d).digest()).decode())


E = {"f1": (F, "/1", "sha384"), "f2": (F, "/2", "sha512"), "g1": (G, "/1", "sha256")}
CONFIGS = [(), ("f1",), ("f2",), ("g1",), ("f1", "g1"), ("f2", "g1")]
MODES = ["good", "wrong", "cut", "error", "close", "redirect", "part"]
OPS = [("config", c) for c in CONFIGS] + [("server", m) for m in MODES] + [("local", "mine"), ("local", "/1"), ("local", None), ("build", 0)]
_SRV = None


class Handler(http.server.BaseHTTPRequestHandler):
    protocol_version = "HTTP/1.1"

    def log_message(self, *a):
        pass

    def do_GET(self):
        s = self.server
        s.seen.append(self.path)
        path, mode = self.path, s.mode
        if mode == "redirect" and not path.startswith("/r"):
            self.send_response(302)
            self.send_header("Location", "/r" + path)
            self.send_header("Content-Length", "0")
            self.end_headers()
            return
        d = BODY[path[2:] if path.startswith("/r") else path]
        if mode == "close":
            self.close_connection = True
            self.connection.close()
            return
        if mode == "error":
            self.send_response(404)     # with the right contents as the body
        else:
            self.send_response(200)
        body = {"wrong": d + b"!", "cut": d[:len(d) // 2], "part": d[:-1]}.get(mode, d)
        self.send_header("Content-Length", str(len(d) if mode == "cut" else len(body)))
        self.end_headers()
        self.wfile.write(body)
        if mode == "cut":
            self.close_connection = True


def server():
    global _SRV
    if _SRV is None or _SRV[0] != os.getpid():
        class S(http.server.ThreadingHTTPServer):
            daemon_threads = True
            request_queue_size = 64

            def handle_error(self, *a):
                pass
        s = S(("127.0.0.1", 0), Handler)
        s.mode, s.seen = "good", []
        threading.Thread(target=s.serve_forever, kwargs={"poll_interval": 0.05}, daemon=True).start()
        _SRV = (os.getpid(), s)
    return _SRV[1]


def config(names):
    port = server().server_address[1]
    return env.default_config(external_files={"src/" + E[n][0]: {"url": "http://127.0.0.1:%d%s" % (port, E[n][1]), "integrity": integrity(E[n][2], BODY[E[n][1]])} for n in names})


def step(job):
    snap, model, op = job
    s = server()
    p = env.Project("c21")
    bad = []
    if op is None:
        p.set_sources({"src/public/index.html": "<!DOCTYPE html><html><head><title>t</title></head><body></body></html>", "src/public/own.txt": "own"})
        return [], p.snapshot(), canon(p), {"config": (), "server": "good", "must": [], "may": [], "broken": False}
    p.restore(snap)
    model = json.loads(json.dumps(model))
    k, v = op
    before = p.tree("src")
    if k in ("config", "server"):
        v = list(v) if k == "config" else v
        if model[k] == v:
            return None
        model[k] = v
    elif k == "local":
        new = None if v is None else b"mine" if v == "mine" else BODY[v]
        if before.get(F) == new:
            return None
        p.put("src/" + F, new) if new is not None else p.delete("src/" + F)
        model["must"] = [f for f in model["must"] if f != F]
    else:
        p.write_config(config(model["config"]))
        s.mode = model["server"]
        s.seen = []
        o = p.build(env={"NO_PROXY": "*", "no_proxy": "*"}, timeout=30)
        after = p.tree("src")
        want = {E[n][0]: BODY[E[n][1]] for n in model["config"]}
        urls = {E[n][0]: E[n][1] for n in model["config"]}
        need = [f for f in want if before.get(f) != want[f]]
        ok = not need or model["server"] in ("good", "redirect")
        for f in set(before) | set(after):
            b, a = before.get(f), after.get(f)
            if f in want:
                if a != b and a != want[f]:
                    bad.append(("install", "%s has neither its previous nor the configured contents: %r" % (f, env._clip(a))))
            elif a != b and not (a is None and f in model["may"]):
                if a is not None or f in before and b is not None:
                    bad.append(("other", "%s changes from %r to %r" % (f, env._clip(b), env._clip(a))))
        tmp = [f for top in ("out", "src") for f in p.tree(top) if ".tmp" in f]
        if tmp:
            bad.append(("temporary", "%r are left behind" % tmp))
        asked = [u for u in s.seen if not u.startswith("/r")]
        if ok != o.ok:
            bad.append(("outcome", "the build %s although %r had to be fetched and the server is %s: %s" % ("succeeds" if o.ok else "fails", need, model["server"], o.detail[-300:])))
        elif o.kind not in ("ok", "exc"):
            bad.append(("outcome", "the build does not end: %r" % o))
        elif o.ok:
            for f in want:
                if after.get(f) != want[f]:
                    bad.append(("integrity", "%s does not have the configured integrity" % f))
            if sorted(asked) != sorted(urls[f] for f in need):
                bad.append(("requests", "%r are fetched instead of %r" % (asked, [urls[f] for f in need])))
            for f in model["must"]:
                if f not in want and f in after:
                    bad.append(("dropped", "%s is not removed" % f))
            www = p.www()
            exp = {f[7:]: d for f, d in after.items() if f.startswith("public/") and d is not None}
            got = {f: d for f, d in www.items() if not f.endswith(".hash")}
            exp.pop("index.html"), got.pop("index.html", None)
            if got != exp:
                bad.append(("published", env.diff_trees(got, exp)))
            model["must"] = model["may"] = sorted(want)
        else:
            if not set(asked) <= {urls[f] for f in need}:
                bad.append(("requests", "%r are fetched" % asked))
            model["may"] = sorted(set(model["may"]) | set(want))
            model["must"] = [f for f in model["must"] if f in want and after.get(f) == before.get(f)]
    return bad, p.snapshot(), canon(p), model


def contents(p):
    return {f: d for f, d in p.tree("src").items() if d is not None}


def kill_job(job):
    first, local, second, mode = job
    s = server()
    p = env.Project("c21k")
    net = {"NO_PROXY": "*", "no_proxy": "*"}
    bad, n = [], [0, 0]
    s.mode = "good"
    p.set_sources({"src/public/index.html": "<!DOCTYPE html><html><head><title>t</title></head><body></body></html>", "src/public/own.txt": "own"})
    p.write_config(config(first))
    o = p.build(env=net)
    if not o.ok:
        return n, [("first", "the first build fails: " + o.detail[-300:])]
    if local is not None:
        p.put("src/" + F, b"mine")
    p.write_config(config(second))
    prior, before = p.snapshot(), contents(p)
    want = {E[x][0]: BODY[E[x][1]] for x in second}
    s.mode = mode
    o = p.build(env=net, kill="count")
    if o.kind not in ("ok", "exc") or o.ok != (mode == "good" or all(before.get(f) == d for f, d in want.items())):
        return n, [("count", "the build of %r after %r with a server that is %s ends %s: %s" % (second, first, mode, o.kind, o.detail))]
    if not o.ok:
        return n, []
    seen = set()
    for k, written in enumerate(o.value):
        for torn in (False, True) if written else (False,):
            if len(bad) > 10:
                return n, bad
            p.restore(prior)
            p.write_config(config(second))
            s.mode = mode
            r = p.build(env=net, kill=(k, torn))
            n[0] += 1
            what = "%r built, %s, the build of %r killed at effect %d%s" % (first, "edited" if local else "not edited", second, k, " (torn)" if torn else "")
            if r.kind != "killed":
                bad.append((what, "the build is not killed: %r" % r))
                continue
            now = contents(p)
            for f in set(now) | set(before):
                if f in want:
                    if now.get(f) not in (before.get(f), want[f], None):
                        bad.append((what + f, "%s: %s has other contents: %s" % (what, f, env._clip(now[f]))))
                elif f in (F, G):
                    if now.get(f) not in (before.get(f), None):
                        bad.append((what + f, "%s: %s is changed" % (what, f)))
                elif now.get(f) != before.get(f):
                    bad.append((what + f, "%s: the own file %s is changed" % (what, f)))
            c1 = canon(p)
            if c1 in seen:
                continue
            seen.add(c1)
            snap = p.snapshot()
            for third in CONFIGS:
                p.restore(snap)
                p.write_config(config(third))
                w3 = {E[x][0]: BODY[E[x][1]] for x in third}
                u3 = {E[x][0]: E[x][1] for x in third}
                s.mode, s.seen = "good", []
                q = p.build(env=net)
                n[1] += 1
                key, h = what + repr(third), "%s, then the build of %r" % (what, third)
                if not q.ok:
                    bad.append((key, "%s: fails: %s" % (h, q.detail[-300:])))
                    continue
                after = contents(p)
                for f in w3:
                    if after.get(f) != w3[f]:
                        bad.append((key, "%s: %s does not have the configured integrity" % (h, f)))
                if sorted(s.seen) != sorted(u3[f] for f in w3 if now.get(f) != w3[f]):
                    bad.append((key, "%s: %r are fetched" % (h, s.seen)))
                for f in (F, G):
                    if f not in w3 and f in after and (f in [E[x][0] for x in first] and local is None or after[f] != now.get(f)):
                        bad.append((key, "%s: %s is still there" % (h, f)))
                for f in set(before) | set(after):
                    if f not in (F, G) and before.get(f) != after.get(f):
                        bad.append((key, "%s: the own file %s is changed" % (h, f)))
                exp = {f[7:]: d for f, d in after.items() if f.startswith("public/")}
                got = {f: d for f, d in p.www().items() if not f.endswith(".hash")}
                exp.pop("index.html"), got.pop("index.html", None)
                if got != exp:
                    bad.append((key, "%s: published: %s" % (h, env.diff_trees(got, exp))))
    return n, bad


def local_ways():
    for shift in (0, 0.004, -0.004, 1, -60, 86400):
        for body in ("same size", "shorter", "longer", "other version"):
            for inplace in (True, False):
                if not (inplace and shift == 0 and body == "same size"):
                    for mode in ("good", "wrong"):
                        yield shift, body, inplace, mode


def changed_job(job):
    shift, body, inplace, mode = job
    s = server()
    p = env.Project("c21w")
    net = {"NO_PROXY": "*", "no_proxy": "*"}
    s.mode = "good"
    p.set_sources({"src/public/index.html": "<!DOCTYPE html><html><head><title>t</title></head><body></body></html>"})
    p.write_config(config(("f1",)))
    o = p.build(env=net)
    if not o.ok:
        return 1, ["the first build fails: " + o.detail[-300:]]
    f = p.path("src/" + F)
    os.utime(f, (1700000000.25, 1700000000.25))
    o = p.build(env=net)
    if not o.ok:
        return 2, ["the build after the file was touched fails: " + o.detail[-300:]]
    os.utime(f, (1700000000.25, 1700000000.25))
    p.build(env=net)
    good = BODY["/1"]
    d = {"same size": good[:-2] + b"!\n", "shorter": good[:-1], "longer": good + b"!", "other version": BODY["/2"]}[body]
    t = os.lstat(f).st_mtime + shift
    if inplace:
        with open(f, "r+b") as h:
            h.write(d)
            h.truncate()
    else:
        with open(f + "~", "wb") as h:
            h.write(d)
        os.replace(f + "~", f)
    os.utime(f, (t, t))
    s.mode, s.seen = mode, []
    o = p.build(env=net)
    now = contents(p).get(F)
    if o.kind not in ("ok", "exc") or o.ok != (mode == "good"):
        return 4, ["the build ends %s with a server that is %s: %s" % (o.kind, mode, o.detail[-300:])]
    if s.seen != ["/1"]:
        return 4, ["%r are fetched" % s.seen]
    if now != (good if o.ok else d):
        return 4, ["the file holds %s" % env._clip(now)]
    if o.ok and p.www().get(F[7:]) != good:
        return 4, ["what is published does not have the configured integrity"]
    return 4, []


def canon(p):
    p.write_config(env.default_config())    # the port differs between workers
    return bfs.canon(p)


def run(c):
    for job, (n, bad) in env.pmap(changed_job, list(local_ways()), chunk=1, deadline=c.deadline):
        c.add(transitions=n, ways_of_changing=1)
        for msg in bad:
            c.violation("ways:" + json.dumps(job), "an installed file is changed (%s, %+g s, %s): %s" % (job[1], job[0], "in place" if job[2] else "replaced", msg), {"way": job})
    bfs.search(c, "external files", step, OPS, maxdepth=None if env.THOROUGH else 5, cap=60000)
    jobs = [(a, loc, b, "good") for a in CONFIGS for b in CONFIGS for loc in (None, "mine") if loc is None or any(E[x][0] == F for x in a)]
    for job, (n, bad) in env.pmap(kill_job, jobs, deadline=c.deadline):
        c.add(builds_killed=n[0], builds_after_kill=n[1])
        for key, msg in bad:
            c.violation(key, msg, {"built": job[0], "edited": job[1], "then": job[2], "problem": key})
    c.assumptions += ["two failing builds in a row may or may not forget which files were installed by them"]
