"""C06: the dev watcher loses no change, whatever the event timing.

State space: every sequence of up to two file operations (and of three of a smaller alphabet) - writes, deletes,
moves, atomic saves, folders made, moved, moved away and removed - with the notifications the operating system
gives for them delivered at once or late, and with polls (too early ones too) at every place; every sequence of
edits that break and repair the sources; and every pair of operations where the second happens at each single
file-system access of the rebuild for the first, its notifications delivered at once, after the rebuild, or
after the poll that follows. The real handler runs the real rebuild; in the end the published tree must be that
of a clean build of the final sources."""
import itertools
import os
import shutil
import threading

from vp import env, executor, hooks, site
from checks.universes import CSS, JS, T, page

PUB = "src/public/"
GLUE = '{"k": {"path": "/img/a.png", "width": %d, "height": 4}}'
DEBOUNCE = 0.1
S0 = {
    PUB + "index.html": page(T("/p.html"), CSS % "/css/a.css"), "src/partials/p.html": "<b>1</b>", PUB + "css/a.css": "a{b:c}", PUB + "js/m.js": "import '/js/n.js';", PUB + "js/n.js": "1;",
    PUB + "d/x.txt": "x", PUB + "d/y.html": page("<script>import '/js/n.js'</script>"),
}
PAGE2 = page("2", CSS % "/css/b.css")


# an operation: (name, precondition(files), list of (effect, event...)); files are relative to the project
def W(f, v):
    return ("write", f, v)


OPS = [W(PUB + "css/a.css", "a{d:e}"), W(PUB + "css/b.css", "b{b:b}"), W("src/partials/p.html", "<b>22</b>"), W("src/partials/p.html", T("/none.html")), W(PUB + "index.html", PAGE2), W(PUB + "js/n.js", "2;"), W(PUB + "d/x.txt", "z"),
       ("touch", PUB + "css/a.css"), ("delete", PUB + "css/a.css"), ("delete", PUB + "js/n.js"), ("delete", PUB + "d/x.txt"), ("delete", PUB + "index.html"),
       ("move", PUB + "css/a.css", PUB + "css/b.css"), ("move", PUB + "css/b.css", PUB + "css/a.css"), ("move", PUB + "d/x.txt", PUB + "js/n.js"),
       ("drop", PUB + "css/a.css", "a{f:g}"), ("drop", PUB + "css/b.css", "b{f:g}"), ("save", PUB + "css/a.css", "a{h:i}"), ("save", "src/partials/p.html", "<b>3</b>"), ("out", PUB + "css/a.css"),
       ("movedir", PUB + "d", PUB + "e"), ("movedir", PUB + "e", PUB + "d"), ("outdir", PUB + "d"), ("indir", PUB + "d", {"x.txt": "new", "s/z.txt": "zz"}), ("rmtree", PUB + "d"), ("mktree", PUB + "e", {"x.txt": "e", "s/z.css": "q{r:s}"}), ("outdir", PUB + "css"), ("mktree", PUB + "css/a.css", {"i": "j"})]
SMALL = [0, 1, 3, 2, 4, 5, 8, 12, 13, 15, 16, 20, 22, 23]
GLUEOPS = [W(PUB + "js/x.images.json", GLUE % 4), W(PUB + "js/x.images.json", GLUE % 3), W(PUB + "js/x.images.json", "{"), ("delete", PUB + "js/x.images.json"), W(PUB + "js/x.images.js", "export default 1;"), ("delete", PUB + "js/x.images.js"),
           W(PUB + "js/u.js", "import x from '/js/x.images.js'; x;"), ("delete", PUB + "js/u.js"), ("save", PUB + "img/a.png", site.png(6, 6)), ("delete", PUB + "img/a.png")]
G0 = {PUB + "img/a.png": site.png(8, 8), PUB + "index.html": page("x")}


class World:
    def __init__(self, root, handler=True):
        from vanillaplusjs.runners import dev
        self.root = root
        self.now = 1e9
        hooks.CLOCK = lambda: self.now
        self.h = dev.DevEventHandler(folder=root, debounce_seconds=DEBOUNCE, symlinks=False) if handler else None
        self.queue = []
        self.last = None
        self.known = self.files()
        self.bad = []
        self.threads = []
        self.told = 0           # notifications the watcher has reasons to act upon
        self.polled = None      # how many there were when the last poll started
        self.errors = 0
        self.failed = False     # the last rebuild ended with an error
        from loguru import logger
        logger.remove()
        logger.add(self.on_log, level="ERROR")
        self.stash = 0
        self.aside = os.path.join(os.path.dirname(root), "aside")
        if os.path.isdir(self.aside):
            env.wipe(self.aside)
        os.mkdir(self.aside)

    def p(self, f):
        return os.path.join(self.root, f)

    def on_log(self, message):
        self.errors += 1

    def files(self):
        out = set()
        for d, _, fs in os.walk(self.p("src")):
            out.update(os.path.relpath(os.path.join(d, f), self.root) for f in fs)
        return out

    # -- operations of the user: the effect on the disk and the notifications of the operating system
    def event(self, kind, f, isdir=False, dest=None):
        self.queue.append((kind, f, isdir, dest))

    def enabled(self, op):
        k, f = op[0], self.p(op[1])
        if k == "write":
            return not os.path.isdir(f) and os.path.isdir(os.path.dirname(f))
        if k in ("drop", "save"):
            return not os.path.isdir(f) and os.path.isdir(os.path.dirname(f))
        if k in ("touch", "delete", "out"):
            return os.path.isfile(f)
        if k == "move":
            return os.path.isfile(f) and not os.path.isdir(self.p(op[2])) and os.path.isdir(os.path.dirname(self.p(op[2])))
        if k == "movedir":
            return os.path.isdir(f) and not os.path.lexists(self.p(op[2]))
        if k in ("outdir", "rmtree"):
            return os.path.isdir(f)
        return not os.path.lexists(f) and os.path.isdir(os.path.dirname(f))

    def do(self, op):
        if not self.enabled(op):
            return False
        k, rel, f = op[0], op[1], self.p(op[1])
        self.stash += 1
        aside = os.path.join(self.aside, str(self.stash))
        if k == "write":
            if not os.path.lexists(f):
                self.event("created", rel)
            env_write(f, op[2])
            self.event("modified", rel)
            self.event("closed", rel)
        elif k == "touch":
            with open(f, "rb") as fp:
                d = fp.read()
            env_write(f, d)
            self.event("modified", rel)
            self.event("closed", rel)
        elif k == "delete":
            os.unlink(f)
            self.event("deleted", rel)
        elif k == "move":
            os.rename(f, self.p(op[2]))
            self.event("moved", rel, False, op[2])
        elif k == "drop":       # a file from elsewhere replaces this one
            env_write(aside, op[2])
            os.rename(aside, f)
            self.event("created", rel)
        elif k == "save":
            env_write(f + "~", op[2])
            self.event("created", rel + "~")
            self.event("modified", rel + "~")
            self.event("closed", rel + "~")
            os.rename(f + "~", f)
            self.event("moved", rel + "~", False, rel)
        elif k == "out":
            os.rename(f, aside)
            self.event("deleted", rel)
        elif k == "movedir":
            os.rename(f, self.p(op[2]))
            self.event("moved", rel, True, op[2])
            for d, ds, fs in os.walk(self.p(op[2])):
                for n in sorted(ds) + sorted(fs):
                    q = os.path.relpath(os.path.join(d, n), self.p(op[2]))
                    self.event("moved", rel + "/" + q, n in ds, op[2] + "/" + q)
        elif k == "outdir":
            os.rename(f, aside)
            self.event("deleted", rel, True)
        elif k == "indir":
            tree(aside, op[2])
            os.rename(aside, f)
            self.event("created", rel, True)
            for d, ds, fs in os.walk(f):
                for n in sorted(ds) + sorted(fs):
                    self.event("created", os.path.relpath(os.path.join(d, n), self.root), n in ds)
        elif k == "rmtree":
            for d, ds, fs in os.walk(f, topdown=False):
                for n in fs:
                    self.event("deleted", os.path.relpath(os.path.join(d, n), self.root))
                self.event("deleted", os.path.relpath(d, self.root), True)
            shutil.rmtree(f)
        elif k == "mktree":
            tree(f, op[2])
            for d, ds, fs in os.walk(f):
                self.event("created", os.path.relpath(d, self.root), True)
                for n in fs:
                    for e in ("created", "created", "modified", "closed"):
                        self.event(e, os.path.relpath(os.path.join(d, n), self.root))
        return True

    # -- the watcher
    def deliver(self, limit=None):
        if not self.queue:
            return
        q = self.queue[:limit] if limit else self.queue
        self.queue = self.queue[limit:] if limit else []
        tells = [e for e in q if e[0] != "closed" and not (e[2] and e[0] in ("created", "modified"))]
        self.told += len(tells)
        if hooks.HOOK is None:
            self.now += DEBOUNCE * 3    # they take a while

        def work():
            for e in q:
                self.h.dispatch(self.watchdog_event(*e))
        t = threading.Thread(target=work)
        t.start()
        t.join(0.2)         # it waits if the handler holds its lock
        if t.is_alive():
            self.threads.append(t)
        if tells:
            self.last = self.now

    def watchdog_event(self, kind, f, isdir, dest):
        from watchdog import events
        name = {"created": "Created", "modified": "Modified", "deleted": "Deleted", "moved": "Moved", "closed": "Closed"}[kind]
        cls = getattr(events, ("Dir" if isdir else "File") + name + "Event")
        return cls(self.p(f), self.p(dest)) if dest is not None else cls(self.p(f))

    def poll(self, early=False, inject=None):
        """inject: (k, function): called before the k-th file-system access of this process during the rebuild"""
        if early:
            if self.last is None or self.now - self.last >= DEBOUNCE / 2:
                return 0
            self.now += DEBOUNCE / 4
        else:
            self.now += DEBOUNCE * 2
        me = os.getpid()
        n = [0, 0]

        def hook(kind, path):
            if os.getpid() != me:
                return
            k = n[0]
            n[0] += 1
            if kind in ("openw", "opened", "mkdir", "rmdir", "unlink", "rename", "symlink") and path.startswith("out"):
                n[1] += 1
            if inject is not None and k == inject[0]:
                hooks.HOOK = None
                try:
                    inject[1]()
                finally:
                    hooks.HOOK = hook
        idle = self.polled == self.told
        told = self.told
        hooks.ROOT = self.root
        hooks.HOOK = hook
        before = self.files()
        base = n[0]
        errors = self.errors
        try:
            self.h.rebuild_if_appropriate()
        except Exception as e:
            self.bad.append("polling raises %s: %s" % (type(e).__name__, e))
        finally:
            hooks.HOOK = None
        for t in self.threads:
            t.join(5)
        self.threads = []
        if not early:
            self.polled = told
        if n[0] > base:
            self.failed = self.errors > errors
        if idle and n[0] > base:
            self.bad.append("a rebuild starts although nothing happened since the last one")
        if early and n[1]:
            self.bad.append("a rebuild starts %.3f s after the last notification" % (self.now - self.last))
        for f in sorted(self.files() - before):
            if f.endswith(".images.js") and not any(e[1] == f and e[0] == "created" for e in self.queue):
                # a placeholder which the rebuild has generated
                self.event("created", f)
                self.event("modified", f)
                self.event("closed", f)
        return n[0]

    def settle(self):
        for _ in range(4):
            self.deliver()
            self.poll()
        for t in self.threads:
            t.join(5)


def env_write(f, d):
    if os.path.isfile(f) and os.lstat(f).st_nlink > 1:
        os.unlink(f)        # it is shared with the masters of the harness
    with open(f, "wb") as fp:
        fp.write(d if isinstance(d, bytes) else d.encode())


def tree(d, files):
    for k, v in files.items():
        os.makedirs(os.path.dirname(os.path.join(d, k)), exist_ok=True)
        env_write(os.path.join(d, k), v)


def play(root, hist):
    """one history in its own process -> (complaints, number of accesses of the last rebuild with injection, done)"""
    w = World(root)
    n = 0
    for a in hist:
        if a == "D":
            w.deliver()
        elif a == "1":
            w.deliver(1)
        elif a == "E":
            w.poll(early=True)
        elif a == "P":
            w.poll()
        elif a[0] == "during":
            _, k, op, how = a

            def act():
                if w.do(op) and how == "now":
                    w.deliver()
                elif how == "one":
                    w.deliver(1)
            n = w.poll(inject=(k, act))
        elif not w.do(a):
            return None, n
    w.settle()
    return w.bad + (["FAILED"] if w.failed else []), n


def start(root, op, at):
    """"dev --watch" itself, the operation being done at its at-th access to the project until it serves the site"""
    from vanillaplusjs.runners import dev
    w = World(root, handler=False)
    me = os.getpid()
    n = [0, 0]
    done = threading.Event()

    class Observer:
        """watchdog's, as far as the runner knows"""
        daemon = False
        started = False

        def schedule(self, handler, path, recursive=False):
            assert recursive and os.path.samefile(path, w.p("src")), (path, recursive)
            w.h = handler

        def start(self):
            self.started = True

        def is_alive(self):
            return self.started

        def stop(self):
            self.started = False

        def join(self, timeout=None):
            pass
    obs = []

    def make():
        obs.append(Observer())
        return obs[0]

    def inject():
        if w.do(op) and not (obs and obs[0].started):
            w.queue = []        # nobody is watching

    def hook(kind, path):
        if os.getpid() != me or n[1]:
            return
        k = n[0]
        n[0] += 1
        if k == at:
            hooks.HOOK = None
            inject()
            hooks.HOOK = hook

    def sleep(s):
        # the main loop, between two polls
        hooks.HOOK = None
        if n[1] == 0 and n[0] <= at:
            inject()
        n[1] += 1
        w.deliver()
        w.now += DEBOUNCE * 2
        if n[1] > 8:
            done.set()

    def server(folder, host, port, event):
        done.wait()
    dev.Observer = make
    dev.host_static_files_with_event = server
    hooks.SLEEP = sleep
    hooks.ROOT = root
    hooks.HOOK = hook
    os.chdir(os.path.dirname(root))
    dev.dev(folder=os.path.basename(root), host="localhost", port=1, watch=True, debounce=int(DEBOUNCE * 1000))
    return w.bad, n[0]


_P = {}


def project(name, s0):
    if name not in _P:
        p = env.Project("c06" + name, config=env.default_config())
        p.set_sources(s0)
        o = p.build(dev=True)
        if not o.ok:
            raise Exception(o.detail)
        q = env.Project("c06o" + name, config=env.default_config())
        _P[name] = (p, p.snapshot(), q, {})
    return _P[name]


def wanted(name, s0, src):
    """what a clean build of these sources publishes, None if it fails"""
    p, snap, q, memo = project(name, s0)
    key = tuple(sorted(src.items()))
    if key not in memo:
        q.set_sources({"src/" + k: v for k, v in src.items()})
        q.clear_generated()
        o = q.build(dev=True)
        memo[key] = site.canonical(q.www()) if o.ok else None
    return memo[key]


def one(name, s0, hist):
    p, snap, q, memo = project(name, s0)
    p.restore(snap)
    if hist[0] == "corrupt":
        # the first build may have to start over with a fresh out folder
        state = sorted(f for f in os.listdir(p.path("out")) if os.path.isfile(p.path("out/" + f)))
        if hist[1] >= len(state):
            return None, 0
        os.unlink(p.path("out/" + state[hist[1]]))
        with open(p.path("out/" + state[hist[1]]), "wb") as f:
            f.write(b"\xff{")
        o = env.isolated(start, p.root, ("delete", PUB + "none"), 10 ** 9, timeout=30)
    elif hist[0] == "start":
        if hist[3]:
            p.clear_generated()
        o = env.isolated(start, p.root, hist[1], hist[2], timeout=30)
    else:
        o = env.isolated(play, p.root, hist, timeout=60)
    text = " ".join(a if isinstance(a, str) else repr(a) for a in hist)
    if hist[0] == "start" and o.kind == "exc":
        return [], 10 ** 6 if hist[2] < 400 else 0      # the first build fails, and says so
    if not o.ok:
        return [(name + " " + text, "%s: the watcher does not survive: %r" % (text, o))], 0
    bad, n = o.value
    if bad is None:
        return None, n
    failed = "FAILED" in bad
    out = [(name + " " + text, "%s: %s" % (text, b)) for b in bad if b != "FAILED"]
    src = {k: v for k, v in p.tree("src").items() if v is not None}
    want = wanted(name, s0, src)
    if want is not None:
        d = env.diff_trees(site.canonical(p.www()), want)
        if d:
            out.append((name + " " + text, "%s: in the end, %s" % (text, d)))
        elif failed:
            out.append((name + " " + text, "%s: in the end the rebuild fails, the sources being fine" % text))
    return out, n


def job(j):
    import gc
    gc.enable()
    name, hists = j
    s0 = S0 if name == "site" else G0
    bad = []
    n = 0
    for h in hists:
        if h[0] == "start":
            k = 0
            while True:
                r, m = one(name, s0, h[:2] + (k,) + h[2:])
                n += 1
                bad += r
                k += 1
                if k > m + 1 or len(bad) > 15:
                    break
        elif h[0] == "inject":
            # the second operation at every access of the rebuild for the first
            _, pre, op, how, post = h
            k = 0
            while True:
                r, m = one(name, s0, pre + (("during", k, op, how),) + post)
                if r is None:
                    break
                n += 1
                bad += r
                k += 1
                if k > m + 1 or len(bad) > 15:
                    break
        else:
            r, _ = one(name, s0, h)
            if r is not None:
                n += 1
                bad += r
        if len(bad) > 15:
            break
    return n, bad


def real_events(root, op):
    """(notifications of the model, those of the real observer) for one operation, None if it is not possible"""
    import time
    from watchdog.events import FileSystemEventHandler
    from watchdog.observers import Observer
    w = World(root, handler=False)
    hooks.CLOCK = None
    got = []

    class H(FileSystemEventHandler):
        def on_any_event(self, e):
            if not (e.is_directory and e.event_type == "modified") and not e.event_type.startswith(("opened", "closed_no")):
                got.append((e.event_type, os.path.relpath(e.src_path, root), e.is_directory, os.path.relpath(e.dest_path, root) if e.event_type == "moved" else None))
    o = Observer()
    o.schedule(H(), w.p("src"), recursive=True)
    o.start()
    if not w.do(op):
        return None
    end = time.monotonic() + 4
    while time.monotonic() < end and len(set(got)) < len(set(w.queue)):
        time.sleep(0.05)
    time.sleep(0.3)
    return w.queue, got


def conform(i):
    p, snap, q, memo = project("site", S0)
    p.restore(snap)
    for k, v in S0.items():     # not the masters of the harness
        os.unlink(p.path(k))
        env_write(p.path(k), v)
    o = env.isolated(real_events, p.root, OPS[i], timeout=30)
    return o.value if o.ok else ([], repr(o))


GAPS = [(), ("D",), ("D", "E"), ("P",), ("D", "P"), ("1", "P")]


def histories():
    out = []
    for a in OPS:
        out.append(("site", (a,)))
        out.append(("site", (a, "D", "E", "P")))
    for a, b in itertools.product(OPS, repeat=2):
        for g in GAPS:
            out.append(("site", (a,) + g + (b,)))
    small = [OPS[i] for i in (SMALL if env.THOROUGH else SMALL[:9])]
    for a, b, x in itertools.product(small, repeat=3):
        for g, h in itertools.product([(), ("D",), ("D", "P")] if env.THOROUGH else [(), ("D", "P")], repeat=2):
            out.append(("site", (a,) + g + (b,) + h + (x,)))
    for a, b in itertools.product(GLUEOPS, repeat=2):
        for g in GAPS:
            out.append(("glue", (a,) + g + (b,)))
    for a, b, x in itertools.product(GLUEOPS, repeat=3):
        for g in [("D", "P", "D", "P")] if env.THOROUGH else []:
            out.append(("glue", (a,) + g + (b,) + g + (x,)))
    inj = []
    firsts = OPS if env.THOROUGH else [OPS[i] for i in (0, 3, 9, 12)]
    seconds = OPS if env.THOROUGH else [OPS[i] for i in (0, 2, 1, 8, 12, 15, 22)]
    for a, b in itertools.product(firsts, seconds):
        for how, post in (("now", ()), ("late", ()), ("late", ("P",)), ("one", ())) if env.THOROUGH else (("now", ()), ("late", ()), ("late", ("P",))):
            inj.append(("site", ("inject", (a, "D"), b, how, post)))
    broken = W("src/partials/p.html", T("/none.html"))
    for b in (W("src/partials/p.html", "<b>4</b>"), ("delete", "src/partials/p.html"), ("save", "src/partials/p.html", "<b>3</b>")):
        for post in ((), (W("src/partials/p.html", "<b>4</b>"),)):
            inj.append(("site", ("inject", (broken, "D", "P", ("touch", PUB + "css/a.css"), "D"), b, "now", post)))
    for a, b in ((GLUEOPS[0], GLUEOPS[5]), (GLUEOPS[0], GLUEOPS[4]), (GLUEOPS[0], GLUEOPS[3]), (GLUEOPS[0], GLUEOPS[1])):
        inj.append(("glue", ("inject", (a, "D"), b, "now", ())))
    out += [("site", ("corrupt", i)) for i in range(10)]
    for op in OPS if env.THOROUGH else [OPS[i] for i in (0, 1, 2, 9, 12, 20, 23)]:
        inj.append(("site", ("start", op, True)))
    for op in OPS if env.THOROUGH else [OPS[0]]:
        inj.append(("site", ("start", op, False)))
    return out, inj


def run(c):
    hs, inj = histories()
    jobs = [(n, [h]) for n, h in inj]
    for name in ("site", "glue"):
        sel = [h for n, h in hs if n == name]
        jobs += [(name, sel[i:i + 40]) for i in range(0, len(sel), 40)]
    done = 0
    for j, (n, bad) in env.pmap(job, jobs, deadline=c.deadline):
        done += 1
        c.add(histories=n, states=n, transitions=n)
        if j[1][0][0] in ("inject", "start"):
            c.add(injected_histories=n)
        for k, m in bad:
            c.violation(k, m, dict(universe=j[0]))
    # are the notifications of the model those of the real observer (informative: it depends on the machine's load)
    same = other = 0
    for i, r in env.pmap(conform, range(len(OPS))):
        if r is not None:
            if set(r[0]) == set(r[1]):
                same += 1
            else:
                other += 1
                c.sample(dict(operation=OPS[i], model=sorted(set(r[0]), key=repr), real=sorted(set(r[1]), key=repr) if isinstance(r[1], list) else r[1]))
    c.add(event_lists_as_the_real_observer=same, event_lists_unlike_the_real_observer=other)
    c.sample(hs[500][1])
    c.sample(inj[0][1])
    if done < len(jobs):
        c.cap("%d of %d groups of histories" % (done, len(jobs)))
    c.assumptions += ["notifications are those of watchdog's inotify emitter: delivered in order, late but never lost"]
