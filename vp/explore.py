"""Exhaustive exploration of the schedules of a build (stateless, on the real code).

A schedule is the list of choices made while a build runs under the controlled executor.  Schedules are
enumerated breadth-first by the number of deviations from the default choice (0), every one exactly once:
the successors of a run are its trace cut after k choices, plus a choice other than 0, for every k behind the
last deviation.  In stepped mode the choices between file-system steps are only offered before accesses to
paths on which concurrently running tasks conflict (found by a fixed point over all explored runs): switching
before any other access leads to the same behaviours as switching before the next conflicting one."""
import os

from . import env, executor, hooks

WRITES = {"openw", "opened", "mkdir", "rmdir", "unlink", "rename", "symlink", "link", "truncate", "chmod", "utime"}
ENTRY = WRITES - {"opened", "truncate", "chmod", "utime"}


class Diverged(Exception):
    pass


class Scheduled(executor.Policy):
    def __init__(self, prefix, mode, points, workers, batch):
        self.prefix = prefix
        self.stepped = mode == "stepped"
        self.points = points
        self.workers = workers
        self.batch = batch
        self.builds_only = mode == "builds"     # scanning workers run in the default order
        self.trace = []
        self.chosen = []
        self.events = []
        self.accesses = {}
        self.names = {}

    def choose(self, kind, options):
        if self.builds_only and any(t.fn.__name__ == "scan_file" for t in executor._pending()):
            return 0
        k = len(self.trace)
        c = self.prefix[k] if k < len(self.prefix) else 0
        if c >= len(options):
            raise Diverged("choice %d of %r at %d" % (c, options, k))
        self.trace.append((kind, len(options), options[c]))
        self.chosen.append(c)
        return c

    def relevant(self, at):
        return any(k in self.points for k in keys(*at))

    def on_submit(self, ex, t):
        self.events.append(("submit",) + _id(t))

    def on_complete(self, ex, t):
        self.events.append(("complete",) + _id(t))

    def on_step(self, t, kind, path):
        if kind == "sleep":
            return
        w = 2 if kind == "mkdir" else 4 if kind in WRITES else 1
        for k in keys(kind, path):
            a = self.accesses.setdefault(k, {})
            i = _id(t)
            a[i] = a.get(i, 0) | w
        if w > 1:
            self.events.append(("write", t.name, path))


def _id(t):
    return (getattr(t.fn, "__name__", "?"), next((a for a in t.args if isinstance(a, str)), ""))


def keys(kind, path):
    if kind == "list":
        return [(path, "list")]
    if kind in ENTRY:
        return [path, (os.path.dirname(path), "list")]
    return [path]


def conflicts(accesses, atomic=None):
    """accesses: {key: {(function, file): 1 read | 2 folder made | 4 written}} -> the keys on which tasks of one
    phase conflict; atomic: only those of this phase on which the order of whole tasks matters"""
    out = set()
    for k, a in accesses.items():
        by = {}
        for (fn, f), w in a.items():
            if atomic is None or fn == atomic:
                by.setdefault(fn, []).append(w)
        for ws in by.values():
            if len(ws) < 2:
                continue
            for x in range(len(ws)):
                others = 0
                for y in range(len(ws)):
                    others |= ws[y] if y != x else 0
                if isinstance(k, tuple):
                    hit = ws[x] & 1 and others & 6
                else:
                    hit = ws[x] & (4 if atomic else 6) and others
                if hit:
                    out.add(k)
    return out


def _run(root, dev, policy):
    from vanillaplusjs.runners.build import build
    executor.POLICY = policy
    hooks.ROOT = root
    try:
        build(root, dev=dev, symlinks=False, delay_files=[])
        ok, detail = True, ""
    except Diverged:
        raise
    except BaseException as e:
        ok, detail = False, "%s: %s" % (type(e).__name__, e)
    return ok, detail, policy.trace, policy.chosen, policy.events, policy.accesses


def run(p, prefix, mode="atomic", points=frozenset(), workers=3, batch=False, dev=False):
    """-> (ok, detail, trace, chosen, events, accesses)"""
    o = env.isolated(_run, p.root, dev, Scheduled(prefix, mode, points, workers, batch))
    if not o.ok:
        return None, repr(o), [], [], [], {}
    return o.value


def children(prefix, trace, chosen):
    for k in range(len(prefix), len(trace)):
        for i in range(1, trace[k][1]):
            yield tuple(chosen[:k]) + (i,)


def explore(job, mode, workers, batch, deviations, deadline, judge, cap, local=False):
    """mode: "atomic" (orders of whole tasks), "builds" (the same, of the building tasks only), "stepped"
    judge(job, prefix, mode, points, workers, batch) -> (violations, children, accesses) in a worker process;
    returns (statistics, violations)"""
    import time

    def mapped(items):
        if not local:
            yield from env.pmap(judge, items, deadline=deadline, chunk=4 if len(items) > 100 else 1)
            return
        for i in items:
            if time.time() > deadline:
                return
            yield i, judge(i)

    points = set()
    while True:
        acc = {}
        level = [()]
        n = 0
        depth = 0
        bad = []
        done = True
        grown = False
        pts = frozenset(points)
        while level and (deviations is None or depth <= deviations):
            nxt = []
            items = [(job, q, mode, pts, workers, batch) for q in level]
            m = 0
            for _, (v, ch, a) in mapped(items):
                m += 1
                bad += v
                nxt += ch
                for k, d in a.items():
                    e = acc.setdefault(k, {})
                    for t, w in d.items():
                        e[t] = e.get(t, 0) | w
            n += m
            if m < len(items):
                done = False
                break
            if len(bad) > 20:
                done = False
                break
            if mode == "stepped" and not conflicts(acc) <= points:
                points |= conflicts(acc)
                grown = True
                break
            depth += 1
            level = nxt
            if n + len(level) > cap and depth > 1:      # the bound: whole levels of at most cap schedules
                break
        if not grown or bad:
            break
    return dict(schedules=n, deviations=depth - 1 if depth else 0, complete=done and not level, level_complete=done, points=len(points), next_level=len(level), scans_conflict=sorted(map(str, conflicts(acc, "scan_file")))[:5]), bad
