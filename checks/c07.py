"""C07: breadth-first search over operation sequences on the real FileDependencyGraph, against a plain
directed graph (a dict of edge lists) updated in step.  Every public query is compared in every state."""
import copy
import gc
import io
import itertools
import json

from vp import env

R = None


def sig(i, v):
    return (10 + i, 100.5 + v, 1000 + i)


def ops(names, maxch, versions):
    out = []
    for i, a in enumerate(names + ["zz"]):
        if a != "zz":
            for ch in lists(names, maxch):
                for v in versions:
                    out.append(("add", a, v, ch))
                for pc in (True, False):
                    out.append(("set", a, ch, pc))
        else:
            out.append(("set", a, (), True))
        for cp, cc in itertools.product((False, True), repeat=2):
            out.append(("rm", a, cp, cc))
    return out


def lists(names, maxch):
    yield None
    for n in range(0, maxch + 1):
        for p in itertools.permutations(names, n):
            yield p
    yield ("zz",)
    yield (names[0], "zz")


class Ref:
    """name -> (signature, set of children)"""

    def __init__(self):
        self.sig = {}
        self.ch = {}

    def reach(self, a):
        seen = set()
        st = list(self.ch[a])
        while st:
            x = st.pop()
            if x in seen:
                continue
            seen.add(x)
            st.extend(self.ch[x])
        return seen

    def apply(self, op):
        """True if performed, False if it has to be refused."""
        k = op[0]
        if k == "add":
            _, a, v, ch = op
            if a in self.sig or any(c not in self.sig for c in ch or ()):
                return False
            self.sig[a] = v
            self.ch[a] = set(ch or ())
        elif k == "set":
            _, a, ch, pc = op
            ch = ch or ()
            if a not in self.sig or any(x not in self.sig for x in ch):
                return False
            if pc and any(x == a or a in self.reach(x) for x in ch):
                return False
            self.ch[a] = set(ch)
        else:
            _, a, cp, cc = op
            if a not in self.sig:
                return False
            if not cp and any(a in s for s in self.ch.values()):
                return False
            if not cc and self.ch[a]:
                return False
            del self.sig[a], self.ch[a]
            for s in self.ch.values():
                s.discard(a)
        return True


def apply_impl(g, op, names):
    k = op[0]
    try:
        if k == "add":
            i = names.index(op[1])
            g.add_file(op[1], *sig(i, op[2]), children=None if op[3] is None else list(op[3]))
        elif k == "set":
            g.set_children(op[1], list(op[2] or ()), prevent_cycles=op[3])
        else:
            g.remove_file(op[1], clear_parents=op[2], clear_children=op[3])
        return True
    except ValueError:
        return False


def dump(g):
    f = io.StringIO()
    g.store(f)
    return f.getvalue()


def _norm(d):
    return {k: {a: sorted(b) if isinstance(b, list) else b for a, b in v.items()} for k, v in d.items()}


def inspect(g, ref, names):
    from vanillaplusjs.build.graph import FileDependencyGraph, FileRelationship as FR
    for i, a in enumerate(names):
        if (a in g) != (a in ref.sig):
            return "membership of %s" % a
        if a not in ref.sig:
            for f in (g.get_children, g.get_parents):
                try:
                    f(a)
                    return "%s of unknown %s accepted" % (f.__name__, a)
                except ValueError:
                    pass
            if g.check_file(a, *sig(i, 0)):
                return "check_file of unknown"
            continue
        ch, pa = g.get_children(a), g.get_parents(a)
        if sorted(ch) != sorted(ref.ch[a]):
            return "children of %s are %r, expected %r" % (a, ch, sorted(ref.ch[a]))
        ep = sorted(p for p in ref.ch if a in ref.ch[p])
        if sorted(pa) != ep:
            return "parents of %s are %r, expected %r" % (a, pa, ep)
        ch.append("junk")
        pa.append("junk")
        if "junk" in g.get_children(a) or "junk" in g.get_parents(a):
            return "returned lists alias the graph"
        s = sig(i, ref.sig[a])
        if not g.check_file(a, *s):
            return "check_file rejects the stored signature of %s" % a
        for k in range(3):
            t = list(s)
            t[k] += 1
            if g.check_file(a, *t):
                return "check_file ignores signature component %d" % k
    for a in names:
        for b in names:
            ok = a in ref.sig and b in ref.sig and a != b
            for kind, f in (("direct", g.check_direct_relationship), ("nested", g.check_nested_relationship)):
                try:
                    got = f(a, b)
                except ValueError:
                    got = "refused"
                if not ok:
                    exp = "refused"
                else:
                    down = b in (ref.ch[a] if kind == "direct" else ref.reach(a))
                    up = a in (ref.ch[b] if kind == "direct" else ref.reach(b))
                    exp = FR.cyclic if up and down else FR.parent if down else FR.child if up else FR.unrelated
                if got != exp:
                    return "%s relationship of %s and %s is %r, expected %r" % (kind, a, b, got, exp)
    d = dump(g)
    try:
        parsed = json.loads(d)
    except ValueError:
        return "stored form is not json"
    if sorted(parsed) != sorted(ref.sig):
        return "stored form lists other files"
    h = FileDependencyGraph.load(io.StringIO(d))
    if not (h == g) or not (g == h) or (h != g):
        return "loading the stored form gives a different graph"
    if _norm(json.loads(dump(h))) != _norm(parsed):
        return "storing again gives something else"
    for i, a in enumerate(names):
        if (a in h) != (a in ref.sig) or (a in ref.sig and (
                sorted(h.get_children(a)) != sorted(ref.ch[a]) or not h.check_file(a, *sig(i, ref.sig[a])))):
            return "the loaded graph differs at %s" % a
    return None


def expand(job):
    """All operations from one state (given by its history)."""
    names, oplist, hist = job
    gc.enable()
    from vanillaplusjs.build.graph import FileDependencyGraph
    g0, r0 = FileDependencyGraph(), Ref()
    for o in hist:
        apply_impl(g0, o, names)
        r0.apply(o)
    d0 = dump(g0)
    out = []
    bad = []
    for o in oplist:
        g, r = copy.deepcopy(g0), copy.deepcopy(r0)
        want = r.apply(o)
        got = apply_impl(g, o, names)
        p = None
        if got != want:
            p = "operation %r was %s" % (o, "accepted" if got else "refused")
        elif not want and dump(g) != d0:
            p = "refused operation %r changed the graph" % (o,)
        elif want:
            p = inspect(g, r, names)
            # equality is sound: an edited graph equals the old one only if nothing changed
            same = (r.sig, r.ch) == (r0.sig, r0.ch)
            if not p and not same and (g == g0 or g0 == g):
                p = "graphs with different files or edges compare equal"
        if p:
            bad.append((o, p))
        elif want:
            out.append((dump(g), o))
    return out, bad


def run(c):
    c.cov["rule"] = ("all sequences of add/set/remove operations (every child list, flag and unknown name); states are the "
                     "stored forms including list order; every query, equality and store/load compared in every state")
    plans = [(["src/a", "src/b"], 2, [0, 1], None), (["src/a", "src/b", "src/c"], 2, [0], None if env.THOROUGH else 5)]
    if env.THOROUGH:
        plans.append((["src/a", "src/b", "src/c", "src/d"], 1, [0], 7))
    for names, maxch, versions, maxdepth in plans:
        oplist = ops(names, maxch, versions)
        seen = {"{}\n": []}
        frontier = [[]]
        depth = 0
        trans = 0
        stop = False
        while frontier and (maxdepth is None or depth < maxdepth) and not stop:
            depth += 1
            nxt = []
            for job, (out, bad) in env.pmap(expand, [(names, oplist, h) for h in frontier], chunk=8, deadline=c.deadline):
                trans += len(oplist)
                for o, p in bad:
                    c.violation("%r+%r" % (job[2], o), "after %r: %s: %s" % (job[2], o, p), {"history": job[2] + [o]})
                    if len(c.viol) > 100:
                        stop = True
                for d, o in out:
                    if d not in seen:
                        seen[d] = job[2] + [o]
                        nxt.append(job[2] + [o])
                if stop:
                    break
            frontier = nxt
            if c.time_left() < 0:
                c.cap("time budget")
                break
        if frontier:
            c.cap("%d files: %d states at depth %d not expanded" % (len(names), len(frontier), depth))
        c.add(states=len(seen), transitions=trans, traces_validated_against_impl=trans)
        c.sample({"files": names, "operations": len(oplist), "states": len(seen), "depth": depth,
                  "a_state": list(seen.items())[-1]})
