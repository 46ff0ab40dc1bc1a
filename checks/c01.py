"""C01: incremental build == clean build, by breadth-first search over real project states.

For each universe (a few source files, each absent or one of several variants): every source state is
built from scratch (oracle); then, starting from those, every edit to every other buildable source
state within the universe's edit distance is applied and built incrementally, and the published tree
is compared with the oracle.  States are deduplicated by a canonical form of everything on disk, so
when the search closes, *all* histories of any length over the universe have been covered.
Part two: every way of changing one file of each kind between two builds (in place or replaced, same or other
size, same, slightly or much older or newer modification time), as long as something
of the signature differs, and changes of the contents back and forth."""
import json
import os

from vp import bfs, env, site
from checks.universes import UNIVERSES


def _clean_build(job):
    uni, asg, dev = job
    p = env.Project("oracle", config=uni.get("config") or env.default_config())
    p.set_sources(asg)
    before = p.tree("src")
    o = p.build(dev=dev, symlinks=uni.get("symlinks", False))
    if not o.ok:
        return (False, o.kind, o.detail, None, None)
    www = p.www()
    return (True, None, None, site.canonical(www) if uni.get("images") else www,
            (p.snapshot(), bfs.canon(p)))


def _step(job):
    uni, snap, asg, dev, want = job
    p = _step.projects.get(uni["name"])
    if p is None:
        p = _step.projects[uni["name"]] = env.Project("bfs_" + uni["name"], config=uni.get("config") or env.default_config())
    p.restore(snap)
    p.set_sources(asg)
    o = p.build(dev=dev, symlinks=uni.get("symlinks", False))
    if want is None:
        return ("diff", "the build succeeds though a build from scratch fails", None, None) if o.ok else ("diff", "hangs", None, None) if o.kind == "hang" else ("same", None, None, None)
    if not o.ok:
        return ("fail", "%s: %s" % (o.kind, o.detail), None, None)
    www = p.www()
    got = site.canonical(www) if uni.get("images") else www
    d = env.diff_trees(got, want)
    c = bfs.canon(p)
    if d:
        return ("diff", d, c, None)
    return ("same", None, c, p.snapshot() if c not in _step.seen else None)


_step.projects = {}
_step.seen = set()


# --------------------------------------------------------------------------- part two: ways of changing a file
def _pngs():
    a = site.png(8, 8)
    same = next(b for b in (site.png(8, 8, (x, y, 30)) for x in range(250) for y in range(9)) if len(b) == len(a) and b != a)
    return a, same, next(b for b in (site.png(9 + x, 8) for x in range(40)) if len(b) != len(a))


KINDS = {
    "src/public/a.txt": ("text 1\n", "text 2\n", "another text\n"),
    "src/public/index.html": tuple("<!DOCTYPE html><html><head><title>t</title></head><body><p>%s</p><!--[TEMPLATE: [\"/p.html\"]]--></body></html>" % x for x in ("1", "2", "33")),
    "src/partials/p.html": ("<b>1</b>", "<b>2</b>", "<b>33</b>"),
    "src/public/css/a.css": (".a{b:c}", ".a{b:d}", ".a{b:cc}"),
    "src/public/js/a.js": ("export const a = 1;", "export const a = 2;", "export const a = 33;"),
    "src/public/js/x.images.json": tuple('{"%s": {"path": "/img/p.png", "width": 4, "height": 4}}' % k for k in ("k", "l", "mm")),
    "src/public/img/p.png": _pngs(),
}
BASE = (1700000000.0, 1700000000.25)


def _ways():
    """(kind, in place, contents, shift of the modification time)"""
    for kind in KINDS:
        for shift in (0, 0.004, -0.004, 0.5, 1, -1, 60, -86400, 86400):
            for which in (1, 2):
                for inplace in (True, False):
                    if not (inplace and which == 1 and shift == 0):
                        yield kind, inplace, which, shift


def _write(path, data, mtime, inplace):
    data = data.encode() if isinstance(data, str) else data
    os.makedirs(os.path.dirname(path), exist_ok=True)
    if not inplace:
        with open(path + ".new", "wb") as f:
            f.write(data)
        os.utime(path + ".new", (mtime, mtime))
        os.replace(path + ".new", path)
    else:
        with open(path, "r+b" if os.path.exists(path) else "wb") as f:
            f.write(data)
            f.truncate()
        os.utime(path, (mtime, mtime))


def _changed(job):
    (kind, inplace, which, shift), base = job
    p = env.Project("ways", config=env.default_config())
    p.set_sources({})
    for k, v in KINDS.items():
        _write(p.path(k), v[0], base, True)
    p.clear_generated()
    o = p.build()
    if not o.ok:
        return 1, ["the first build fails: %s" % o.detail[-300:]]
    bad = []
    for i, w in enumerate((which, 0)):
        _write(p.path(kind), KINDS[kind][w], base + (0 if i else shift), inplace)
        o = p.build()
        if not o.ok:
            bad.append("the build after the change (%d) fails: %s" % (i, o.detail[-300:]))
            break
        got = site.canonical(p.www())
        p.clear_generated()
        o = p.build()
        if not o.ok:
            bad.append("the build from nothing fails: %s" % o.detail[-300:])
            break
        d = env.diff_trees(got, site.canonical(p.www()))
        if d:
            bad.append("change %d: %s" % (i, d))
            break
    return 3, bad


def describe(asg, dev):
    return {"dev": dev, "files": {k: (v if isinstance(v, str) else "<%d bytes>" % len(v)) for k, v in sorted(asg.items())}}


def names(uni, asg):
    """short name of an assignment: variant letters in universe order"""
    s = ""
    for k, vs in uni["files"].items():
        v = asg.get(k)
        s += "-" if v is None else chr(ord("a") + [x for x in vs if x is not None].index(v))
    return s


def distance(a, b):
    return sum(1 for k in set(a) | set(b) if a.get(k) != b.get(k))


def run(c):
    c.assumptions = [
        "source files are distinguishable by size, mtime or inode when their content differs (the documented signature)",
        "workers run in default order (other orders: C03)",
    ]
    c.cov["rule"] = ("every buildable assignment of variants to the files of each universe; every transition between "
                     "assignments (from clean states also to unbuildable ones, which must fail) within the universe's edit distance, from every reachable on-disk state; oracle: clean build")
    total_states = 0
    only = os.environ.get("VP_ONLY", "").split(",") if os.environ.get("VP_ONLY") else None
    for uni in UNIVERSES("c01"):
        if only and uni["name"] not in only:
            continue
        maxd = uni.get("edit_distance") or len(uni["files"])
        modes = uni.get("modes", [False])
        asgs = [(a, dev) for a in bfs.assignments(uni["files"]) if not uni.get("valid") or uni["valid"](a) for dev in modes]
        oracle = []
        for (u, a, dev), r in env.pmap(_clean_build, [(uni, a, dev) for a, dev in asgs], chunk=4):
            oracle.append(r)
        good = [i for i, r in enumerate(oracle) if r[0]]
        broken = [i for i, r in enumerate(oracle) if not r[0]]
        c.add(clean_builds=len(asgs), buildable_source_states=len(good))
        bad_expect = uni.get("expect_buildable")
        if bad_expect:
            for i, r in enumerate(oracle):
                if not r[0] and bad_expect(asgs[i][0]):
                    c.violation("%s:%s:clean" % (uni["name"], names(uni, asgs[i][0])),
                                "clean build of a valid project fails: %s" % r[2][-600:], describe(*asgs[i]))
        # states: canonical hash -> (snapshot, index of assignment, history)
        states = {}
        frontier = []
        for i in good:
            snap, can = oracle[i][4]
            if can not in states:
                states[can] = (snap, i, [i])
                frontier.append(can)
        outcomes = set()
        viol0 = len(c.viol)
        depth = 0
        trans = failing = 0
        cap = uni.get("max_states", (20 if env.THOROUGH else 3) * len(good) + 40)
        while frontier:
            depth += 1
            jobs = []
            meta = []
            for can in frontier:
                snap, i, hist = states[can]
                for j in good:
                    if asgs[j] == asgs[i]:
                        if len(hist) > 1:
                            continue
                    d = distance(asgs[i][0], asgs[j][0])
                    if d > maxd:
                        continue
                    jobs.append((uni, snap, asgs[j][0], asgs[j][1], oracle[j][3]))
                    meta.append((can, i, j, hist))
                for j in broken if len(hist) == 1 else ():
                    if distance(asgs[i][0], asgs[j][0]) <= uni.get("broken_distance", min(maxd, 2)):
                        jobs.append((uni, snap, asgs[j][0], asgs[j][1], None))
                        meta.append((can, i, j, hist))
            _step.seen = set(states)
            nxt = []
            stop = False
            for k, (job, (verdict, info, can2, snap2)) in enumerate(env.pmap(_step, jobs, chunk=4, deadline=c.deadline)):
                can, i, j, hist = meta[k]
                trans += 1
                if can2 is not None:
                    outcomes.add(can2)
                if verdict != "same":
                    key = "%s:%s->%s%s" % (uni["name"], names(uni, asgs[i][0]), names(uni, asgs[j][0]), "" if len(hist) == 1 else ":deep")
                    c.violation(key, "%s: after history %s, building %s: %s %s" % (
                        uni["name"], [names(uni, asgs[h][0]) + ("d" if asgs[h][1] else "") for h in hist],
                        names(uni, asgs[j][0]) + ("d" if asgs[j][1] else ""), verdict, info),
                        {"universe": uni["name"], "history": [describe(*asgs[h]) for h in hist + [j]], "result": info})
                    if len(c.viol) - viol0 > 60:
                        stop = True
                        break
                    continue
                if can2 is None:
                    failing += 1
                    continue
                if can2 not in states and len(states) < cap:
                    states[can2] = (snap2, j, hist + [j])
                    nxt.append(can2)
                    c.sample({"universe": uni["name"], "history": [names(uni, asgs[h][0]) for h in hist + [j]]}, 4)
            if trans and c.time_left() < 0:
                c.cap("%s: time budget reached at depth %d" % (uni["name"], depth))
                break
            if stop:
                c.cap("stopped after many violations")
                break
            frontier = nxt
            if len(states) >= cap:
                c.cap("%s: state cap %d reached" % (uni["name"], cap))
                break
        c.add(states=len(states), transitions=trans, traces_validated_against_impl=trans)
        c.cov.setdefault("per_universe", {})[uni["name"]] = dict(
            assignments=len(asgs), buildable=len(good), states=len(states), transitions=trans, depth=depth,
            distinct_result_states=len(outcomes), to_unbuildable=failing)
        c.sample({"universe": uni["name"], "sample_state": describe(*asgs[good[-1]])} if good else uni["name"], 12)
    if not only or "ways" in only:
        jobs = [(w, b) for w in _ways() for b in BASE]
        for (w, b), (n, bad) in env.pmap(_changed, jobs, chunk=1, deadline=c.deadline):
            c.add(transitions=n, ways_of_changing=1)
            for why in bad:
                c.violation("ways:" + json.dumps([w, b]), "%s changed in %s, %s, %+g s: %s" % (w[0], "place" if w[1] else "another file", ("", "same size", "other size")[w[2]], w[3], why), {"way": w, "time": b})

