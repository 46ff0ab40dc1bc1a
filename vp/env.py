"""Set-up shared by every check: imports /repo under control, scratch projects, forked builds."""
import atexit
import hashlib
import io
import json
import os
import shutil
import signal
import stat
import sys
import tempfile
import time
import traceback

REPO = "/repo"
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
_T0 = time.time()

if os.environ.get("PYTHONHASHSEED") != os.environ.get("VP_HASHSEED", "0"):
    os.environ["PYTHONHASHSEED"] = os.environ.get("VP_HASHSEED", "0")
    os.environ["PYTHONDONTWRITEBYTECODE"] = "1"
    os.execv(sys.executable, [sys.executable] + sys.orig_argv[1:])
sys.dont_write_bytecode = True

from . import hooks, executor  # noqa

hooks.install()
executor.install()
sys.path.insert(0, REPO)
from loguru import logger  # noqa

logger.remove()
os.environ["LOGURU_AUTOINIT"] = "False"

import html5lib  # noqa  (imports used lazily later, before privileges are dropped)
import html5lib.serializer, html5lib.treewalkers.dom, html5lib.treebuilders.dom  # noqa
import PIL.Image  # noqa

PIL.Image.init()
import encodings.idna, encodings.utf_16, encodings.latin_1, encodings.ascii  # noqa


def _warm_up():
    """Fill html5lib's internal caches once, instead of in every forked build."""
    import gc
    doc = html5lib.parse("<!DOCTYPE html><p a=b>x<!--c--><table><tr><td>&amp;<svg></svg><select><option>")
    html5lib.HTMLParser(html5lib.treebuilders.getTreeBuilder("dom"), namespaceHTMLElements=False).parseFragment("<b>x")
    d = html5lib.HTMLParser(html5lib.treebuilders.getTreeBuilder("dom"), namespaceHTMLElements=False).parse("<p>x")
    w = html5lib.getTreeWalker("dom")
    list(html5lib.serializer.HTMLSerializer(omit_optional_tags=False, quote_attr_values="always").serialize(w(d), encoding="utf-8"))
    del doc, d
    gc.collect()
    gc.freeze()
    gc.disable()


def _warn_off():
    import warnings
    warnings.simplefilter("ignore")


_warn_off()

SEED = int(os.environ.get("VERIF_SEED", "1"))
TIER = os.environ.get("VERIF_TIER", "quick")
THOROUGH = TIER == "thorough"
NPROC = min(8, os.cpu_count() or 1)
NOBODY = 65534


def load_repo():
    """Import the code under test; any import failure is a broken tree (an error of the check)."""
    import vanillaplusjs.runners.build
    import vanillaplusjs.runners.clean
    import vanillaplusjs.runners.init
    import vanillaplusjs.runners.dev
    import vanillaplusjs.build.hot_incremental_rebuild
    import vanillaplusjs.build.cold_incremental_rebuild
    import vanillaplusjs.build.graph
    return vanillaplusjs


load_repo()
_warm_up()


# --------------------------------------------------------------------------- scratch
_SCRATCH = None


def scratch():
    """A scratch directory private to this check run (created by the parent, removed at exit)."""
    global _SCRATCH
    if _SCRATCH is None:
        base = "/dev/shm" if os.path.isdir("/dev/shm") and os.access("/dev/shm", os.W_OK) else tempfile.gettempdir()
        _SCRATCH = tempfile.mkdtemp(prefix="vp_", dir=base)
        os.chmod(_SCRATCH, 0o777)
        os.mkdir(os.path.join(_SCRATCH, "store"))
        os.chmod(os.path.join(_SCRATCH, "store"), 0o777)
        pid = os.getpid()

        def cleanup(d=_SCRATCH):
            if os.getpid() == pid:
                shutil.rmtree(d, ignore_errors=True)
        atexit.register(cleanup)
        for s in (signal.SIGTERM, signal.SIGHUP):
            def h(sig, frm):
                if os.getpid() != pid:
                    os._exit(1)
                for c in list(_CHILDREN):
                    try:
                        os.kill(c, signal.SIGKILL)
                    except OSError:
                        pass
                cleanup()
                os._exit(3)
            signal.signal(s, h)
    return _SCRATCH


_CHILDREN = set()


def drop_privileges():
    """The code under test deletes and overwrites files: run it as nobody, who owns only scratch files."""
    if os.getuid() == 0:
        try:
            os.setgroups([])
            os.setgid(NOBODY)
            os.setuid(NOBODY)
        except OSError:
            pass


# --------------------------------------------------------------------------- parallel map
def pmap(fn, items, procs=None, chunk=1, deadline=None):
    """fn(item) for every item in forked unprivileged worker processes; yields results in item order.

    A worker that dies or an exception in fn is an error of the check and raises."""
    items = list(items)
    procs = min(procs or NPROC, max(1, len(items)))
    root = scratch()
    import multiprocessing.connection as mpc
    import multiprocessing as mp
    ctx = mp.get_context("fork")
    conns = {}
    pids = {}

    global _SERIAL
    _SERIAL += 1
    base = os.path.join(root, "w%d_%d_" % (os.getpid(), _SERIAL))

    def worker(conn, idx):
        d = base + str(idx)
        os.mkdir(d)
        os.chmod(d, 0o777)
        drop_privileges()
        os.environ["HOME"] = d
        os.environ["TMPDIR"] = d
        tempfile.tempdir = d
        global WORKDIR
        WORKDIR = d
        os.chdir(d)
        while True:
            try:
                job = conn.recv()
            except EOFError:
                break
            if job is None:
                break
            out = []
            for k in job:
                try:
                    out.append((k, True, fn(items[k])))
                except BaseException:
                    out.append((k, False, traceback.format_exc()))
            conn.send(out)

    jobs = [list(range(i, min(i + chunk, len(items)))) for i in range(0, len(items), chunk)]
    nxt = 0
    results = {}
    emit = 0
    busy = 0
    for i in range(min(procs, len(jobs))):
        a, b = ctx.Pipe()
        pid = os.fork()
        if pid == 0:
            try:
                for s in (signal.SIGTERM, signal.SIGHUP):
                    signal.signal(s, signal.SIG_DFL)
                a.close()
                for c in conns:
                    c.close()
                worker(b, i)
            except BrokenPipeError:     # the parent stopped listening
                pass
            except BaseException:
                traceback.print_exc()
            finally:
                sys.stdout.flush()
                os._exit(0)
        b.close()
        conns[a] = i
        pids[a] = pid
        _CHILDREN.add(pid)
    try:
        for c in list(conns):
            if nxt < len(jobs):
                c.send(jobs[nxt])
                nxt += 1
                busy += 1
        while busy:
            for c in mpc.wait(list(conns)):
                try:
                    out = c.recv()
                except EOFError:
                    raise RuntimeError("a worker process of the check died")
                busy -= 1
                for k, ok, val in out:
                    if not ok:
                        raise RuntimeError("worker error on item %r:\n%s" % (items[k] if len(repr(items[k])) < 2000 else k, val))
                    results[k] = val
                if nxt < len(jobs) and not (deadline and time.time() > deadline):
                    c.send(jobs[nxt])
                    nxt += 1
                    busy += 1
            while emit in results:
                yield items[emit], results.pop(emit)
                emit += 1
    finally:
        for c in conns:
            try:
                c.send(None)
                c.close()
            except OSError:
                pass
        for p in pids.values():
            if busy:
                try:
                    os.kill(p, signal.SIGKILL)
                except OSError:
                    pass
            os.waitpid(p, 0)
            _CHILDREN.discard(p)
        for i in range(len(pids)):
            if os.path.isdir(base + str(i)):
                wipe(base + str(i))


_SERIAL = 0
WORKDIR = None


def workdir():
    global WORKDIR
    if WORKDIR is None:
        WORKDIR = os.path.join(scratch(), "main%d" % os.getpid())
        os.makedirs(WORKDIR, exist_ok=True)
        os.chmod(WORKDIR, 0o777)
    return WORKDIR


def wipe(path):
    """Remove a scratch tree (never outside the scratch root)."""
    assert path.startswith(scratch() + "/"), path
    if os.path.islink(path) or os.path.isfile(path):
        os.unlink(path)
    else:
        shutil.rmtree(path, ignore_errors=True)
        if os.path.isdir(path):     # something left unreadable
            for dp, dn, fn in os.walk(path):
                os.chmod(dp, 0o777)
            shutil.rmtree(path)


# --------------------------------------------------------------------------- isolated calls
TIMEOUT = 60


class Outcome:
    """ok: value; exc: exception text (class name first); killed: died; hang: exceeded the horizon."""
    __slots__ = ("kind", "value", "etype", "detail")

    def __init__(self, kind, value=None, etype=None, detail=""):
        self.kind, self.value, self.etype, self.detail = kind, value, etype, detail

    @property
    def ok(self):
        return self.kind == "ok"

    def __repr__(self):
        return "<%s %s %s>" % (self.kind, self.etype or "", (self.detail or "")[-300:])


def isolated(fn, *args, timeout=None, **kw):
    """Call fn in a forked child (its own copy of all interpreter state); returns an Outcome."""
    r, w = os.pipe()
    sys.stdout.flush()
    sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.close(r)
            os.setpgid(0, 0)
            dn = os.open(os.devnull, os.O_RDWR)
            os.dup2(dn, 0)
            os.dup2(dn, 1)
            os.dup2(dn, 2)
            executor.LIVE.clear()
            try:
                v = fn(*args, **kw)
                msg = ("ok", v)
            except BaseException as e:
                msg = ("exc", type(e).__name__, "%s: %s\n%s" % (type(e).__name__, e, traceback.format_exc(limit=-4)))
            import pickle
            data = pickle.dumps(msg)
            off = 0
            while off < len(data):
                off += os.write(w, data[off:off + 65536])
        except BaseException:
            code = 99
        finally:
            os._exit(code)
    os.close(w)
    import pickle
    import select
    buf = io.BytesIO()
    end = time.time() + (timeout or TIMEOUT)
    hang = False
    while True:
        left = end - time.time()
        if left <= 0:
            hang = True
            break
        rd, _, _ = select.select([r], [], [], left)
        if not rd:
            continue
        c = os.read(r, 65536)
        if not c:
            break
        buf.write(c)
    os.close(r)
    if hang:
        try:
            os.killpg(pid, signal.SIGKILL)
        except OSError:
            try:
                os.kill(pid, signal.SIGKILL)
            except OSError:
                pass
    _, st = os.waitpid(pid, 0)
    if hang:
        return Outcome("hang", etype="Hang", detail="no result within %ss" % (timeout or TIMEOUT))
    data = buf.getvalue()
    if not data:
        return Outcome("killed", etype="Killed", detail="exit status %r" % st)
    msg = pickle.loads(data)
    if msg[0] == "ok":
        return Outcome("ok", value=msg[1])
    return Outcome("exc", etype=msg[1], detail=msg[2])


# --------------------------------------------------------------------------- projects
SMALL_IMAGES = {
    "formats": {
        "jpeg": {
            "exports": {
                "100": {"min_area_px2": None, "max_area_px2": None, "preference": 5,
                        "formatter_kwargs": {"quality": 100}},
            },
            "minimum_unit_size_bytes": 85000,
        },
        "webp": {
            "exports": {
                "lossless": {"min_area_px2": None, "max_area_px2": None, "preference": 8,
                             "formatter_kwargs": {"quality": 100, "method": 6, "lossless": True}},
            },
            "minimum_unit_size_bytes": 85000,
        },
    },
    "default_format": "jpeg",
    "maximum_resolution": 2,
    "resolution_step": "0.5",
}


def default_config(**over):
    cfg = {
        "version": __import__("vanillaplusjs.constants").constants.CONFIGURATION_VERSION,
        "host": "example.com",
        "images": json.loads(json.dumps(SMALL_IMAGES)),
        "auto_generate_images_js_placeholders": True,
        "external_files": {},
        "js_constants": {"relpath": "src/public/js/constants.js", "shared": {},
                         "dev": {"API_URL": "http://127.0.0.1:8080"}, "prod": {"API_URL": ""}},
    }
    cfg.update(over)
    return cfg


def B(x):
    return x.encode("utf-8") if isinstance(x, str) else x


class Project:
    """A project folder whose source files are hard links to per-(path, content) master copies, so the
    signature (size, mtime, inode) of a source file is a function of its path and content."""

    def __init__(self, name="p", config=None):
        self.base = os.path.join(workdir(), name)
        self.root = os.path.join(self.base, "proj")
        self.store = os.path.join(scratch(), "store")
        self.config = config or default_config()
        self.reset()

    def reset(self):
        if os.path.isdir(self.base):
            wipe(self.base)
        os.makedirs(self.root)
        self.write_config(self.config)
        self.src = {}

    def write_config(self, config):
        self.config = config
        with open(os.path.join(self.root, "vanillaplusjs.json"), "w") as f:
            json.dump(config, f)

    def path(self, rel):
        return os.path.join(self.root, rel)

    def _master(self, rel, data):
        h = hashlib.sha256(rel.encode("utf-8", "surrogateescape") + b"\0" + data).hexdigest()
        m = os.path.join(self.store, h)
        if not os.path.exists(m):
            tmp = "%s.%d" % (m, os.getpid())
            with open(tmp, "wb") as f:
                f.write(data)
            t = 1_600_000_000 + int(h[:7], 16) % 50_000_000
            os.utime(tmp, (t, t))
            os.chmod(tmp, 0o444)
            try:
                os.link(tmp, m)
            except FileExistsError:
                pass
            os.unlink(tmp)
        return m

    def put(self, rel, data):
        """Create or replace (by rename, as editors do) a source file."""
        data = B(data)
        p = self.path(rel)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        m = self._master(rel, data)
        if os.path.lexists(p):
            os.unlink(p)
        os.link(m, p)
        self.src[rel] = data

    def delete(self, rel):
        p = self.path(rel)
        os.unlink(p)
        self.src.pop(rel, None)
        d = os.path.dirname(p)
        while d != self.path("src") and d.startswith(self.path("src")):
            try:
                os.rmdir(d)
            except OSError:
                break
            d = os.path.dirname(d)

    def set_sources(self, want):
        """Make the tracked sources equal to `want` (rel -> content)."""
        want = {k: B(v) for k, v in want.items() if v is not None}
        for rel in list(self.src):
            if rel not in want:
                if os.path.lexists(self.path(rel)):
                    self.delete(rel)
                else:
                    self.src.pop(rel)
        for rel, data in want.items():
            if self.src.get(rel) != data:
                self.put(rel, data)
        os.makedirs(self.path("src/public"), exist_ok=True)

    # -- observation
    def tree(self, sub):
        """rel -> bytes (symlinks followed), directories as rel + '/' -> None."""
        out = {}
        top = self.path(sub)
        if not os.path.isdir(top):
            return out
        for dp, dn, fn in os.walk(top):
            dn.sort()
            rd = os.path.relpath(dp, top)
            if rd != ".":
                out[rd + "/"] = None
            for n in fn:
                p = os.path.join(dp, n)
                rel = n if rd == "." else os.path.join(rd, n)
                try:
                    with open(p, "rb") as f:
                        out[rel] = f.read()
                except OSError as e:
                    out[rel] = b"<unreadable %s>" % type(e).__name__.encode()
        return out

    def www(self):
        return {k: v for k, v in self.tree("out/www").items() if v is not None}

    # -- snapshots of generated state (out, artifacts and anything untracked in src)
    def snapshot(self):
        for rel, data in list(self.src.items()):    # what a build removed or replaced is no longer what was put there
            try:
                with open(self.path(rel), "rb") as f:
                    same = f.read() == data
            except OSError:
                same = False
            if not same:
                del self.src[rel]
        gen = {}
        for top in ("out", "artifacts", "src"):
            t = self.path(top)
            if not os.path.isdir(t):
                continue
            for dp, dn, fn in os.walk(t):
                rd = os.path.relpath(dp, self.root)
                gen[rd + "/"] = None
                for n in fn:
                    p = os.path.join(dp, n)
                    rel = os.path.join(rd, n)
                    if rel in self.src:
                        continue
                    if top == "src":
                        with open(p, "rb") as f:
                            d = f.read()
                        st = os.lstat(p)
                        h = "x" + hashlib.sha256(repr((rel, d, st.st_mtime_ns, st.st_ino)).encode()).hexdigest()
                        m = os.path.join(self.store, h)
                        try:
                            os.link(p, m)
                        except FileExistsError:
                            pass
                        gen[rel] = ("master", m, d)
                    elif os.path.islink(p):
                        gen[rel] = ("link", os.readlink(p).replace(self.root + os.sep, "\0"))  # absolute, per worker
                    else:
                        with open(p, "rb") as f:
                            gen[rel] = ("file", f.read(), os.lstat(p).st_mtime_ns)
        return (dict(self.src), gen, self.config)

    def restore(self, snap):
        src, gen, cfg = snap
        for top in ("out", "artifacts", "src"):
            if os.path.lexists(self.path(top)):
                wipe(self.path(top))
        if cfg != self.config:
            self.write_config(cfg)
        self.src = {}
        for rel, v in gen.items():
            p = self.path(rel)
            if v is None:
                os.makedirs(p, exist_ok=True)
        for rel, v in gen.items():
            if v is None:
                continue
            p = self.path(rel)
            if v[0] == "master":
                os.link(v[1], p)
            elif v[0] == "link":
                os.symlink(v[1].replace("\0", self.root + os.sep), p)
            else:
                with open(p, "wb") as f:
                    f.write(v[1])
                os.utime(p, ns=(v[2], v[2]))
        for rel, d in src.items():
            self.put(rel, d)

    def clear_generated(self):
        for top in ("out", "artifacts"):
            if os.path.lexists(self.path(top)):
                wipe(self.path(top))

    # -- actions
    def build(self, dev=False, symlinks=False, policy=None, timeout=None, cwd=None, env=None, kill=None):
        """kill: None, "count" (the outcome's value lists the effects) or (effect, torn), see faults.py"""
        return isolated(_do_build, self.root, dev, symlinks, policy, cwd, env, kill, timeout=timeout)

    def clean(self, placeholders=False):
        return isolated(_do_clean, self.root, placeholders)


def _do_build(root, dev, symlinks, policy, cwd, env, kill=None):
    from vanillaplusjs.runners.build import build
    if env:
        os.environ.update(env)
    if cwd:
        os.chdir(cwd)
        root = os.path.relpath(root, cwd) if not os.path.isabs(cwd) or True else root
    if policy is not None:
        executor.POLICY = policy
    if kill is not None:
        from . import faults
        k = faults.Killer(root, None if kill == "count" else kill)
        k.install()
        build(root, dev=dev, symlinks=symlinks, delay_files=[])
        return k.effects()
    build(root, dev=dev, symlinks=symlinks, delay_files=[])
    return getattr(policy, "result", None)


def _do_clean(root, placeholders):
    from vanillaplusjs.runners.clean import clean
    clean(root, placeholders)


def diff_trees(got, want, limit=5):
    """Human readable difference of two {path: bytes} maps (got vs want)."""
    out = []
    for k in sorted(set(got) | set(want)):
        if k not in got:
            out.append("missing %s" % k)
        elif k not in want:
            out.append("extra %s" % k)
        elif got[k] != want[k]:
            out.append("%s differs: got %r want %r" % (k, _clip(got[k]), _clip(want[k])))
        if len(out) >= limit:
            out.append("...")
            break
    return "; ".join(out)


def _clip(b, n=160):
    if b is None:
        return None
    return b if len(b) <= n else b[:n] + b"..."
