"""A controlled stand-in for concurrent.futures.ProcessPoolExecutor / ThreadPoolExecutor.

Tasks run in forked processes (so the isolation, pickling and inherited-globals behaviour of a real
process pool is kept).  Nothing runs until the build process waits; then the *policy* decides which
pending task runs (atomic mode) or which running task takes its next file-system step (stepped mode).
"""
import asyncio
import concurrent.futures
import concurrent.futures.process
import concurrent.futures.thread
import os
import pickle
import select
import signal
import struct
import sys
import traceback
import weakref

from . import hooks

IDLE_HOPS = 12       # event loop turns granted to the main coroutine between task completions


class Policy:
    """choose(kind, options) -> index; default: first option."""
    stepped = False      # True: file-system interleaving of concurrently running tasks
    workers = 1
    batch = False        # True: may complete several tasks before the main coroutine wakes
    log = None

    def choose(self, kind, options):
        return 0

    def on_submit(self, ex, task):
        pass

    def on_complete(self, ex, task):
        pass

    def on_step(self, task, kind, path):
        pass

    def on_result(self, task, res):
        pass

    def relevant(self, at):
        return True


POLICY = Policy()
LIVE = []            # executors with pending tasks


def _send(fd, obj):
    data = pickle.dumps(obj)
    data = struct.pack("<I", len(data)) + data
    while data:
        n = os.write(fd, data)
        data = data[n:]


def _recv(fd):
    def exact(n):
        buf = b""
        while len(buf) < n:
            c = os.read(fd, n - len(buf))
            if not c:
                raise EOFError
            buf += c
        return buf
    (n,) = struct.unpack("<I", exact(4))
    return pickle.loads(exact(n))


class WorkerDied(RuntimeError):
    pass


def _pack_exc(e):
    try:
        pickle.loads(pickle.dumps(e))
        return e
    except Exception:
        return RuntimeError("%s: %s" % (type(e).__name__, e))


def _run(fn, args, kw):
    try:
        return ("ok", fn(*args, **kw))
    except BaseException as e:  # noqa
        if isinstance(e, (KeyboardInterrupt,)):
            raise
        tb = traceback.format_exc(limit=-3)
        return ("exc", _pack_exc(e), tb)


class CFuture(concurrent.futures.Future):
    _ex = None

    def result(self, timeout=None):
        if not self.done():
            _drain_until(self)
        return super().result(timeout)

    def exception(self, timeout=None):
        if not self.done():
            _drain_until(self)
        return super().exception(timeout)


class Task:
    def __init__(self, seq, fn, args, kw, fut, ex):
        self.seq = seq
        self.fn = fn
        self.args = args
        self.kw = kw
        self.fut = fut
        self.ex = ex
        self.pid = None
        self.rfd = self.wfd = None
        self.state = "new"      # new, ready, waiting, done
        self.at = None
        self.name = "%s(%s)" % (getattr(fn, "__name__", "task"), ",".join(a for a in args if isinstance(a, str)))


def _pending():
    out = []
    for ex in LIVE:
        out.extend(t for t in ex._tasks if t.state != "done")
    return out


def _drain_until(fut):
    while not fut.done():
        if not _advance():
            raise RuntimeError("deadlock: waiting for a future nobody runs")


def _advance():
    """Run one atomic task, or one step of a stepped one. False if nothing is pending."""
    pol = POLICY
    pend = _pending()
    if not pend:
        return False
    if not pol.stepped:
        i = pol.choose("task", [t.name for t in pend]) if len(pend) > 1 else 0
        t = pend[i]
        t.ex._run_atomic(t)
        return True
    running = [t for t in pend if t.state in ("ready", "waiting")]
    cand = [t for t in running if t.state == "ready"]
    if len(running) < pol.workers:
        new = [t for t in pend if t.state == "new"]
        cand = cand + new[: max(0, pol.workers - len(running))]
    if not cand:
        # only spinners: wake them all once; a second time without any progress is a deadlock
        if pol.__dict__.get("_spun") or not running:
            raise RuntimeError("deadlock: every running task is waiting: %r" % [(t.name, t.at) for t in running])
        pol._spun = True
        for t in running:
            t.state = "ready"
        cand = running
    cur = getattr(pol, "_cur", None)
    if cur in cand:
        if cur.state == "ready" and not pol.relevant(cur.at):
            cur.ex._step(cur)
            return True
        cand.remove(cur)
        cand.insert(0, cur)
        kind = "preempt"
    else:
        kind = "switch"
    i = pol.choose(kind, [t.name for t in cand]) if len(cand) > 1 else 0
    t = cand[i]
    pol._cur = t
    t.ex._step(t)
    return True


class ControlledExecutor(concurrent.futures.Executor):
    def __init__(self, max_workers=None, *a, **kw):
        self._tasks = []
        self._worker = None
        self._seq = 0
        self._pump_scheduled = False
        self._max_workers = max_workers or (os.cpu_count() or 1)

    # -- API ---------------------------------------------------------------
    def submit(self, fn, /, *args, **kw):
        fut = CFuture()
        try:
            blob = pickle.dumps((fn, args, kw))
            del blob
        except Exception as e:  # a real process pool reports this through the future
            fut.set_running_or_notify_cancel()
            fut.set_exception(_pack_exc(e))
            return fut
        t = Task(self._seq, fn, args, kw, fut, self)
        self._seq += 1
        self._tasks.append(t)
        if self not in LIVE:
            LIVE.append(self)
        POLICY.on_submit(self, t)
        try:
            loop = asyncio.get_running_loop()
        except RuntimeError:
            loop = None
        if loop is not None:
            self._schedule(loop)
        return fut

    def map(self, fn, *iterables, timeout=None, chunksize=1):
        futs = [self.submit(fn, *args) for args in zip(*iterables)]
        return (f.result() for f in futs)

    def shutdown(self, wait=True, *, cancel_futures=False):
        if cancel_futures:
            for t in self._tasks:
                if t.state == "new":
                    t.state = "done"
                    t.fut.cancel()
        while any(t.state != "done" for t in self._tasks):
            _advance()
        self._stop_worker()
        if self in LIVE:
            LIVE.remove(self)

    def __exit__(self, et, ev, tb):
        self.shutdown(wait=True)
        return False

    # -- event loop integration ---------------------------------------------
    def _schedule(self, loop):
        if self._pump_scheduled:
            return
        self._pump_scheduled = True
        self._hops = IDLE_HOPS
        loop.call_soon(self._pump, loop)

    def _pump(self, loop):
        if self._hops > 0:
            self._hops -= 1
            loop.call_soon(self._pump, loop)
            return
        self._pump_scheduled = False
        if not any(t.state != "done" for t in self._tasks):
            return
        before = len([t for t in self._tasks if t.state == "done"])
        while len([t for t in self._tasks if t.state == "done"]) == before:
            if not _advance():
                break
        if POLICY.batch:
            while any(t.state != "done" for t in self._tasks) and POLICY.choose("batch", ["wake", "more"]) == 1:
                b = len([t for t in self._tasks if t.state == "done"])
                while len([t for t in self._tasks if t.state == "done"]) == b:
                    if not _advance():
                        break
        if any(t.state != "done" for t in self._tasks):
            self._schedule(loop)

    # -- atomic mode -----------------------------------------------------------
    def _start_worker(self):
        r1, w1 = os.pipe()
        r2, w2 = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                os.close(w1)
                os.close(r2)
                _become_worker()
                while True:
                    try:
                        fn, args, kw = _recv(r1)
                    except EOFError:
                        break
                    _send(w2, _run(fn, args, kw))
            except BaseException:
                pass
            finally:
                os._exit(0)
        os.close(r1)
        os.close(w2)
        self._worker = (pid, w1, r2)

    def _stop_worker(self):
        if self._worker:
            pid, w, r = self._worker
            os.close(w)
            os.close(r)
            os.waitpid(pid, 0)
            self._worker = None

    def _run_atomic(self, t):
        if self._worker is None:
            self._start_worker()
        if not t.fut.set_running_or_notify_cancel():
            t.state = "done"
            return
        pid, w, r = self._worker
        try:
            _send(w, (t.fn, t.args, t.kw))
            res = _recv(r)
        except (EOFError, BrokenPipeError, OSError):
            self._worker = None
            res = ("exc", WorkerDied(t.name), "")
        self._finish(t, res)

    def _finish(self, t, res):
        t.state = "done"
        POLICY.on_complete(self, t)
        POLICY.on_result(t, res)
        if res[0] == "ok":
            t.fut.set_result(res[1])
        else:
            t.fut.set_exception(res[1])

    # -- stepped mode -----------------------------------------------------------
    def _step(self, t):
        if t.state == "new":
            if not t.fut.set_running_or_notify_cancel():
                t.state = "done"
                return
            r1, w1 = os.pipe()
            r2, w2 = os.pipe()
            pid = os.fork()
            if pid == 0:
                try:
                    os.close(w1)
                    os.close(r2)
                    _become_worker()

                    def hook(kind, path):
                        _send(w2, ("at", kind, path))
                        if not os.read(r1, 1):
                            os._exit(1)

                    def sleep(s):
                        _send(w2, ("wait",))
                        if not os.read(r1, 1):
                            os._exit(1)

                    hooks.HOOK = hook
                    hooks.SLEEP = sleep
                    res = _run(t.fn, t.args, t.kw)
                    hooks.HOOK = None
                    hooks.SLEEP = None
                    _send(w2, ("done", res))
                except BaseException:
                    pass
                finally:
                    os._exit(0)
            os.close(r1)
            os.close(w2)
            t.pid, t.wfd, t.rfd = pid, w1, r2
        else:
            POLICY.on_step(t, *t.at)
            os.write(t.wfd, b"g")
        try:
            msg = _recv(t.rfd)
        except EOFError:
            msg = ("done", ("exc", WorkerDied(t.name), ""))
        if msg[0] == "wait":
            t.state = "waiting"
            t.at = ("sleep", "")
            return
        # real progress by t: spinners may try again
        POLICY.__dict__["_spun"] = False
        for o in _pending():
            if o is not t and o.state == "waiting":
                o.state = "ready"
        if msg[0] == "at":
            t.state = "ready"
            t.at = (msg[1], msg[2])
        else:
            os.close(t.wfd)
            os.close(t.rfd)
            os.waitpid(t.pid, 0)
            self._finish(t, msg[1])


def _become_worker():
    """In a worker process: nested executors start fresh and run atomically in-line."""
    global POLICY
    POLICY = Policy()
    del LIVE[:]
    try:
        asyncio.set_event_loop(None)
        asyncio.events._set_running_loop(None)
    except Exception:
        pass


def _wait(fs, timeout=None, return_when="ALL_COMPLETED"):
    fs = set(fs)
    for f in fs:
        if not f.done():
            _drain_until(f)
    return concurrent.futures._base.DoneAndNotDoneFutures(fs, set())


def _as_completed(fs, timeout=None):
    for f in list(fs):
        if not f.done():
            _drain_until(f)
        yield f


def install():
    cf = concurrent.futures
    for mod in (cf, cf.process, cf.thread):
        for n in ("ProcessPoolExecutor", "ThreadPoolExecutor"):
            if n in ("ProcessPoolExecutor",) and mod is cf.thread:
                continue
            if n in ("ThreadPoolExecutor",) and mod is cf.process:
                continue
            setattr(mod, n, ControlledExecutor)
    cf.wait = _wait
    cf.as_completed = _as_completed
