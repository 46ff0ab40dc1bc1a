"""Explicit-state breadth-first search over real project states.

A state is (source assignment, generated state on disk).  A transition edits the sources to another
assignment and runs the real build (or another action).  States are identified by a canonical form:
every byte of out/, artifacts/ and src/, where the recorded signatures of source files are replaced
by 'matches the file on disk or not' and those of produced files are dropped (they are never
compared), so states that are merged have the same futures."""
import hashlib
import itertools
import json
import os

from . import env


def assignments(universe):
    """universe: {path: [variant or None, ...]} -> list of dicts"""
    keys = list(universe)
    return [{k: v for k, v in zip(keys, vals) if v is not None}
            for vals in itertools.product(*(universe[k] for k in keys))]


def _canon_json(obj, proj, key=None):
    if isinstance(obj, dict):
        if "mtime" in obj and "inode" in obj:
            d = {k: _canon_json(v, proj) for k, v in obj.items() if k not in ("mtime", "inode", "filesize", "size")}
            if isinstance(key, str) and key.startswith("src"):
                try:
                    st = os.lstat(proj.path(key))
                    d["__sig"] = (st.st_mtime == obj["mtime"] and st.st_ino == obj["inode"])
                except OSError:
                    d["__sig"] = "gone"
            return d
        return {k: _canon_json(v, proj, k) for k, v in obj.items()}
    if isinstance(obj, list):
        l = [_canon_json(v, proj) for v in obj]
        return sorted(l, key=lambda x: json.dumps(x, sort_keys=True))
    return obj


def canon(proj):
    h = hashlib.sha256()
    for top in ("src", "out", "artifacts"):
        t = proj.tree(top)
        for k in sorted(t):
            v = t[k]
            h.update(("%s/%s\0" % (top, k)).encode("utf-8", "surrogateescape"))
            if v is None:
                continue
            if top in ("out", "artifacts") and k.endswith(".json") and not k.startswith("www"):
                try:
                    v = json.dumps(_canon_json(json.loads(v), proj), sort_keys=True).encode()
                except ValueError:
                    pass
            h.update(hashlib.sha256(v).digest())
    h.update(json.dumps(proj.config, sort_keys=True).encode())
    return h.hexdigest()


def search(c, name, step, ops, cap=100000, maxdepth=None, max_viol=30):
    """Breadth-first search with a reference model in lock-step.

    step((snapshot, model, op)) runs in a worker and returns None (op not enabled) or
    (violations [(key, message)], snapshot, canonical form, model); op None asks for the initial state.
    All operation sequences are covered when the search closes (states with equal canonical form and
    equal model have equal futures)."""
    (job, r), = env.pmap(step, [(None, None, None)])
    viol, snap, can, model = r
    for k, m in viol:
        c.violation("%s:init:%s" % (name, k), m)
    states = {(can, repr(model)): (snap, model, ())}
    frontier = list(states)
    trans = depth = 0
    closed = True
    bad = 0
    while frontier and (maxdepth is None or depth < maxdepth):
        depth += 1
        jobs = []
        meta = []
        for s in frontier:
            snap, model, hist = states[s]
            for op in ops:
                jobs.append((snap, model, op))
                meta.append((hist, op))
        nxt = []
        n = 0
        for k, (job, r) in enumerate(env.pmap(step, jobs, chunk=4, deadline=c.deadline)):
            n += 1
            if r is None:
                continue
            trans += 1
            hist, op = meta[k]
            hist = hist + (op,)
            viol, snap, can, model = r
            for key, m in viol:
                bad += 1
                c.violation("%s:%s:%s" % (name, "/".join(map(str, hist)), key), "%s: after %s: %s" % (name, list(hist), m), {"history": list(hist), "why": m})
            if viol:
                if bad > max_viol:
                    c.cap("stopped after many violations")
                    return len(states), trans, depth
                continue
            s = (can, repr(model))
            if s not in states:
                if len(states) >= cap:
                    closed = False
                    continue
                states[s] = (snap, model, hist)
                nxt.append(s)
                if len(states) % 97 == 5:
                    c.sample({"search": name, "history": list(hist)}, 8)
        if n < len(jobs):
            c.cap("%s: time budget reached at depth %d" % (name, depth))
            closed = False
            break
        frontier = nxt
    if frontier and maxdepth is not None and depth >= maxdepth:
        c.cov.setdefault("depth_bounds", {})[name] = maxdepth
    elif not closed and not c.caps:
        c.cap("%s: state cap %d reached" % (name, cap))
    c.add(states=len(states), transitions=trans, traces_validated_against_impl=trans)
    c.cov.setdefault("searches", {})[name] = dict(states=len(states), transitions=trans, depth=depth, closed=not frontier)
    return len(states), trans, depth
