"""Judging one schedule of a build (shared by C03 and C16)."""
import json
import os

from vp import bfs, env, explore, site

PUB = "src/public/"
_STATE = {}     # per worker process: universe name -> (project, snapshot before the build, reference)


def published(uni, p):
    w = p.www()
    return site.canonical(w) if uni.get("images") else w


def edges(p, name):
    try:
        with open(p.path("out/%s_graph.json" % name)) as f:
            g = json.load(f)
    except FileNotFoundError:
        return None
    from vanillaplusjs.build.graph import FileDependencyGraph
    with open(p.path("out/%s_graph.json" % name)) as f:
        g = FileDependencyGraph.load(f)
    return {n: sorted(g.get_children(n)) for n in g.nodes}


def prepare(uni):
    st = _STATE.get(uni["name"])
    if st is not None:
        return st
    conf = env.default_config(**uni.get("config", {}))
    p = env.Project("s_" + uni["name"], config=conf)
    want = None
    if not uni.get("fails"):
        p.set_sources(uni["asg"])
        o = p.build(dev=uni.get("dev", False))
        if not o.ok:
            raise Exception("%s does not build: %s" % (uni["name"], o.detail[-600:]))
        want = published(uni, p)
    after = None
    if uni.get("then"):
        p.reset()
        p.write_config(conf)
        p.set_sources(uni["then"])
        o = p.build(dev=uni.get("dev", False))
        if not o.ok:
            raise Exception("%s: the later state does not build: %s" % (uni["name"], o.detail[-600:]))
        after = published(uni, p)
    p.reset()
    p.write_config(conf)
    for a in uni.get("prior", ()):
        p.set_sources(a)
        p.build(dev=uni.get("dev", False))
    p.set_sources(uni["asg"])
    st = _STATE[uni["name"]] = dict(p=p, snap=p.snapshot(), want=want, after=after, graphs=None)
    return st


def targets(p):
    """artifact folders -> (their settings, the identity of their files)"""
    out = {}
    for f, d in p.tree("artifacts").items():
        if f.endswith("/metadata.json") and d is not None:
            m = json.loads(d)
            out[os.path.dirname(f)] = json.dumps([m["source"], m["target"]["settings"], m["settings_hash"]], sort_keys=True)
    return out


def identity(p, sub):
    r = {}
    base = p.path("artifacts/" + sub)
    for n in sorted(os.listdir(base)):
        s = os.stat(os.path.join(base, n))
        r[n] = (s.st_ino, s.st_mtime_ns, s.st_size)
    return r


def judge(job):
    import gc
    gc.enable()
    uni, prefix, mode, points, workers, batch = job
    st = prepare(uni)
    p = st["p"]
    p.restore(st["snap"])
    before = p.tree("src")
    t0 = {k: (v, identity(p, k)) for k, v in targets(p).items()} if uni.get("images") else {}
    ok, detail, trace, chosen, events, accesses = explore.run(p, prefix, mode, points, workers, batch, uni.get("dev", False))
    bad = []

    def fault(kind, text):
        key = "%s %s %s %r" % (uni["name"], mode, kind, tuple(chosen) if ok is not None else prefix)
        bad.append((key, "%s, schedule %s: %s" % (uni["name"], [t[2] for t in trace if t[1] > 1], text)))

    if ok is None:
        return [("%s %s broken %r" % (uni["name"], mode, prefix), "%s: the build does not end: %s" % (uni["name"], detail))], [], {}
    if ok and uni.get("fails"):
        fault("success", "the build succeeds though the sources are broken")
    elif not ok and not uni.get("fails"):
        fault("failure", "the build fails: " + detail[-600:])
    elif ok:
        d = env.diff_trees(published(uni, p), st["want"])
        if d:
            fault("published", d)
        else:
            d = env.diff_trees(p.tree("src"), {**before, **{k: v for k, v in p.tree("src").items() if k.endswith(".images.js") and k not in before}})
            if d:
                fault("sources", "the sources are changed: " + d)
            left = [f for f in p.tree("out") if f.endswith((".outline", ".tmp"))]
            if left:
                fault("temporary", "%r are left behind" % left)
        g = edges(p, "dependency")
        built, running, done, wrote = set(), {}, set(), {}
        builds = {e[2] for e in events if e[0] == "submit" and e[1] == "build_file"}
        for e in events:
            if e[0] == "submit" and e[1] == "build_file":
                for dep in (g or {}).get(e[2], ()):
                    if dep in builds and dep != e[2] and dep not in done:
                        fault("order", "%s is built before %s, which it depends on" % (e[2], dep))
                if e[2] in built:
                    fault("twice", "%s is built twice" % e[2])
                built.add(e[2])
            elif e[0] == "complete" and e[1] == "build_file":
                done.add(e[2])
                wrote = {k: v for k, v in wrote.items() if v != "build_file(%s)" % e[2]}
            elif e[0] == "write" and (e[2].startswith("out/www/")) and not os.path.isdir(p.path(e[2])):
                o = wrote.get(e[2])
                if o is not None and o != e[1]:
                    fault("overlap", "%s and %s write %s at the same time" % (o, e[1], e[2]))
                wrote[e[2]] = e[1]
        if not uni.get("images"):
            gs = (g, edges(p, "output"), edges(p, "placeholder"))
            if st["graphs"] is None:
                st["graphs"] = gs
            elif gs != st["graphs"]:
                fault("graphs", "the stored graphs differ from those of another schedule: %r" % ([(a, b) for x, y in zip(gs, st["graphs"]) for a, b in [(sorted(x.items()), sorted(y.items()))] if a != b],))
        else:
            t1 = targets(p)
            for k, v in t1.items():
                same = [q for q, w in t1.items() if w == v]
                if len(same) > 1:
                    fault("duplicate", "%r are the same request" % sorted(same))
                    break
            for k, (v, ident) in t0.items():
                if k in t1 and v == t1[k] and identity(p, k) != ident:
                    fault("recomputed", "%s already satisfied its request but its files are written again" % k)
            if uni.get("reused") and not all(k in t1 for k in t0):
                fault("dropped", "%r are not kept" % sorted(set(t0) - set(t1)))
            if uni.get("targets") is not None and len(t1) != uni["targets"]:
                fault("targets", "there are %d targets instead of %d" % (len(t1), uni["targets"]))
            for k in t1:
                for f in p.tree("artifacts/" + k):
                    if f.endswith(".tmp"):
                        fault("leftover", "%s/%s" % (k, f))
    if uni.get("then") and not bad:
        p.set_sources(uni["then"])
        o = p.build(dev=uni.get("dev", False))
        if not o.ok:
            fault("then", "the next build fails: " + o.detail[-500:])
        else:
            d = env.diff_trees(published(uni, p), st["after"])
            if d:
                fault("then", "after the next build: " + d)
    ch = list(explore.children(prefix, trace, chosen))
    return bad, ch, accesses


def _local(job):
    uni, mode, workers, batch, cap, deadline = job
    return explore.explore(uni, mode, workers, batch, None, deadline, judge, cap, local=True)


def record(c, uni, mode, s, bad):
    for k, m in bad:
        c.violation(k, m, dict(universe=uni["name"], mode=mode))
    c.add(schedules=s["schedules"], states=s["schedules"], transitions=s["schedules"])
    c.cov.setdefault("searches", {})["%s %s" % (uni["name"], mode)] = s
    if not s["level_complete"] and not bad:
        c.cap("%s %s: stopped at %d deviations" % (uni["name"], mode, s["deviations"]))


def sweep(c, jobs, workers=3):
    """jobs: (universe, mode, cap); each is explored by one process; returns the statistics"""
    out = []
    items = [(u, m, workers, True, cap, c.deadline) for u, m, cap in jobs]
    for (u, m, *_), (s, bad) in env.pmap(_local, items, deadline=c.deadline):
        record(c, u, m, s, bad)
        out.append(s)
    if len(out) < len(items):
        c.cap("%d explorations were not started" % (len(items) - len(out)))
    return out
