"""C13: css nesting imports equal inlining the named rules by hand.

State space: every stylesheet body up to a length over an alphabet of rules, importing rules, at-rules and
other top-level items, at a path of its own and as the default stylesheet, with fixed imported files; every
spelling of a selector in a rule times its spellings in an import; every block contents times every position
of an import; every import graph of four rules in one file or two.  Oracle: expansion of the generating model, compared token by token (independent tokenizer)
with the published stylesheet, up to empty declarations.  Bodies with missing or cyclic imports must fail."""
import itertools
import re

from vp import batch, csstok, env

MAIN = "src/public/css/main.css"


class Fail(Exception):
    pass


def R(sel, *parts, spelled=None):
    return ("rule", sel, list(parts), spelled or sel)


def I(sel, frm=None, text=None, kw="FROM"):
    """import of selector `sel` (spelled `text`) from file `frm` (None: default)"""
    return ("imp", sel, frm, text or sel, kw)


def raw(text, *parts):
    """`text` with %s for every part"""
    return ("raw", text, list(parts))


def src_parts(parts, own):
    out = []
    for p in parts:
        if isinstance(p, str):
            out.append(p)
        elif p[0] == "imp":
            f = own if p[2] == "OWN" else p[2]
            out.append("/*! PREPROCESSOR: import %s%s */" % (p[3], "" if f is None else " %s /%s" % (p[4], f[11:])))
        else:
            out.append(src_item(p, own))
    return "".join(out)


def src_item(it, own):
    if it[0] == "rule":
        return "%s{%s}" % (it[3], src_parts(it[2], own))
    return it[1] % tuple(src_parts([p], own) for p in it[2]) if it[2] else it[1]


def source(items, own):
    return "\n".join(src_item(i, own) for i in items) + "\n"


def expand_parts(parts, own, sheets, active):
    out = []
    for p in parts:
        if isinstance(p, str):
            out.append(p)
        elif p[0] == "imp":
            f = own if p[2] == "OWN" else p[2] or MAIN
            key = (f, p[1])
            if key in active or f not in sheets:
                raise Fail("cycle or missing file")
            for it in sheets[f]:
                if it[0] == "rule" and it[1] == p[1]:
                    out.append(";" + expand_parts(it[2], f, sheets, active + (key,)) + ";")
                    break
            else:
                raise Fail("missing rule")
        else:
            out.append(expand_item(p, own, sheets, active))
    return "".join(out)


def expand_item(it, own, sheets, active=()):
    if it[0] == "rule":
        return "%s{%s}" % (it[3], expand_parts(it[2], own, sheets, active + ((own, it[1]),)))
    return it[1] % tuple(expand_parts([p], own, sheets, active) for p in it[2]) if it[2] else it[1]


def expand(items, own, sheets):
    return "\n".join(expand_item(i, own, sheets) for i in items) + "\n"


def canon(text):
    toks = csstok.tokens(text)
    if toks is None:
        return None
    out = []
    for t in csstok.significant(toks):
        if t[0] in ("url", "string"):
            t = (t[0], re.sub(r"\?v=[^)\"']*", "", t[1])) + tuple(t[2:])
        if t[0] == ";":
            while out and out[-1][0] == "ws":
                out.pop()
            if not out or out[-1][0] in (";", "{", "}"):
                continue
        elif t[0] == "}":
            while out and out[-1][0] in (";", "ws"):
                out.pop()
        elif t[0] == "ws" and (not out or out[-1][0] in (";", "{", "}", "ws")):
            continue
        elif t[0] == "{":
            while out and out[-1][0] == "ws":
                out.pop()
        out.append(t)
    return out


def diff(got, want):
    a, b = canon(got), canon(want)
    if b is None:
        raise AssertionError("oracle text has parse errors: %r" % want)
    if a == b:
        return None
    for i, (x, y) in enumerate(itertools.zip_longest(a or [], b)):
        if x != y:
            return "token %d is %r instead of %r; published %r" % (i, x, y, got)
    return "published %r" % got


LIB = {
    MAIN: [raw("@charset \"utf-8\";"), R(".m", I(".mm"), "s:1"), raw("@media x{.mm{t:9}}"), R(".mm", "t:2"), R(".m", "s:9")],
    "src/public/css/lib/a.css": [raw("@import url(b.css);"), R(".n", I(".m"), "u:1"), R(".o", I(".n", "OWN"), I(".p", "src/public/css/lib/b.css"))],
    "src/public/css/lib/b.css": [R(".p", I(".q", "OWN"), "v:url(/img/i.png)"), R(".q", "w:1;w:2")],
}
A = "src/public/css/lib/a.css"
ITEMS = [R(".a", "p:1;"), R(".a", "q:2"), R(".b", I(".a", "OWN")), R(".c", "x:1;", I(".b", "OWN"), "y:2;"), R(".d", I(".m")), R(".e", I(".n", A), I(".a", "OWN")), R(".z"), R(".f", I(".z", "OWN"), "w:1"),
         raw("@import url(q.css);"), raw("@media x{.a{p:7}}"), raw("@media y{.g{%s}}", I(".b", "OWN")), raw("<!--"), raw("-->"), raw("/* c { */"), R(".a", I(".d", "OWN"), "r:1"),
         raw("@font-face{font-family:x}"), R(".k", "&:hover{", I(".a", "OWN"), "}r:1"), R(".l", I(".k", "OWN"), "g:1"), R(".b", I(".e", "OWN"), I(".d", "OWN")), R(".g", "a:1;", I(".o", A))]


def bodies(maxlen):
    for n in range(0, maxlen + 1):
        yield from itertools.product(range(len(ITEMS)), repeat=n)


def structure(chunk):
    bad = []
    n = ok = 0
    lib = {f: source(s, f) for f, s in LIB.items()}
    lib["src/public/img/i.png"] = "x"
    good, fails = [], []
    for i, t in chunk:
        own = "src/public/css/x%d.css" % i
        items = [ITEMS[k] for k in t]
        try:
            good.append((own, items, expand(items, own, dict(LIB, **{own: items}))))
        except Fail:
            if len(t) <= 2:
                fails.append((own, items))
    for k in range(0, len(good), 500):
        part = good[k:k + 500]
        res = batch.build_many([{own: source(it, own)} for own, it, w in part], common=lib, name="c13", timeout=100)
        for (own, it, want), r in zip(part, res):
            n += 1
            ok += 1
            s = source(it, "src/public/css/x.css")
            if r[0] != "ok":
                bad.append((s, "the build fails: " + r[1][-300:]))
                continue
            d = diff(r[1][own[11:]].decode("utf-8", "replace"), want)
            if d:
                bad.append((s, d))
        if len(bad) > 20:
            break
    p = env.Project("c13f")
    for own, it in fails:
        n += 1
        p.set_sources(dict(lib, **{own: source(it, own)}))
        p.clear_generated()
        o = p.build(timeout=20)
        if o.ok or o.kind == "hang":
            bad.append((source(it, "src/public/css/x.css"), "the build of a missing or cyclic import ends as %r, publishing %r" % (o, p.www().get(own[11:]))))
    return n, ok, bad[:20]


def default_sheet(chunk):
    bad = []
    n = ok = 0
    p = env.Project("c13d")
    for t in chunk:
        items = [("raw", i[1].replace("main", "other"), i[2]) if i[0] == "raw" else i for i in (ITEMS[k] for k in t)]
        items = [to_main(i) for i in items]
        sheets = {MAIN: items, A: [R(".n", "u:1;", "t:2"), R(".o", "h:1")]}
        try:
            want = expand(items, MAIN, sheets)
        except Fail:
            want = None
        if want is None and len(t) > 1:
            continue
        n += 1
        src = {f: source(s, f) for f, s in sheets.items()}
        src["src/public/img/i.png"] = "x"
        p.set_sources(src)
        p.clear_generated()
        o = p.build(timeout=20)
        if (want is not None) != o.ok:
            bad.append((src[MAIN], "as the default stylesheet, the build ends as %r %s" % (o, o.detail[-300:])))
        elif want is not None:
            ok += 1
            d = diff(p.www()["css/main.css"].decode("utf-8", "replace"), want)
            if d:
                bad.append((src[MAIN], "as the default stylesheet: " + d))
    return n, ok, bad[:20]


def to_main(it):
    """the item with its imports of the own file written without FROM"""
    if isinstance(it, str):
        return it
    if it[0] == "imp":
        return ("imp", it[1], None, it[3], it[4]) if it[2] == "OWN" else it
    return it[:2] + ([to_main(p) for p in it[2]],) + it[3:]


SELECTORS = [[".a"], [".a .b", ".a  .b", ".a\t.b", ".a\n.b"], [".a>b"], [".a > b"], ["a,b"], ["a, b", "a,\n  b"], [".a[b='c']", ".a[b=\"c\"]"], [".a[b='c d']", ".a[b=\"c d\"]"], ["#i"], ["#\\31 x"], [".a::before"],
             [".a:not(.b, .c)"], [":root"], ["*"], [".\\31 0"], [".from-left"], ["from"], [".a.from"], [".a .from"], [".from .a"], ["from, to"], ["[title='x y from']", "[title=\"x y from\"]"], [".\u00e9", ".\\e9"], [".a\\:b"], [".a\\/b"],
             ["a:nth-child(2n+1)"], ["a:nth-child( 2n + 1 )"], ["a:nth-child(-n+3)"], ["A"], ["x|y"], ["a~b"], ["a+b"], ["a + b"], ["&.x"], ["::selection"], [".import"], [".PREPROCESSOR"], ["[a]"], ["[a|='b']"], ["from.x"], [".transform .from-x"], [".a{", ]]
SELECTORS = SELECTORS[:-1]
PLACES = ["own before", "own after", "main", "lib"]


def spelled():
    for cls in SELECTORS:
        for i, a in enumerate(cls):
            for b in cls:
                if "\n" in b:
                    continue
                for place in PLACES:
                    for kw in (["FROM", "from"] if place != "main" else ["FROM"]):
                        yield a, b, place, kw


# 'lib' and 'main' rules of the spelling family live in files of the case's own
BLOCKS = ["", " ", "p:1", "p:1;", "p:1;;", ";p:1", "p:1 ;", "p:1/*c*/", "p:1;/*c*/", "/*c*/p:1", "/*c*/", "\n  p: 1;\n  q: 2;\n", "p:url(x)", "p:url('/img/i.png')", "p:\"}\"", "p:'/*'", "--x:{a:b}", "--x:[a;b]", "p:f(a;b)", "&:hover{p:1}",
          "q:1;&:hover{p:1}", "&:hover{p:1}q:1", "@media x{p:1}", "p:1!important", "--x:", "p:1\n", "*zoom:1;", "p:\"\u00e9\"", "p:a,b", "p:#fff;q:1e3", "p:\\31 ", "p:1;q:2;r:3"]
AROUND = [("", ""), ("s:1;", ""), ("s:1", ""), ("", "t:1"), ("", "t:1;"), ("s:1;", "t:1;"), ("s:1", "t:1"), ("s:1;/*d*/", "/*e*/t:1"), ("\n\ts:1;\n\t", "\n\tt:1;\n"), ("&:x{s:1}", "&:y{t:1}"), ("--y:{a:b}", "t:1"), ("s:1 ", " t:1")]
WRAPS = ["%s", "@media z{%s}", "@supports (a:b){@media z{%s}}"]


def block_cases():
    for b in BLOCKS:
        for pre, post in AROUND:
            for w in WRAPS:
                for place in ("own before", "own after", "lib"):
                    yield b, pre, post, w, place, 1
                yield b, pre, post, w, "own before", 2
    for b in BLOCKS:
        for b2 in BLOCKS:
            yield b, "", "", "%s", "own chain", b2


def spelling(chunk):
    good = []
    for i, (kind, t) in chunk:
        own = "src/public/css/x%d.css" % i
        lib = "src/public/css/l/y%d.css" % i
        if kind == "sel":
            a, b, place, kw = t
            rule = R(a, "p:1;", spelled=a)
            imp = lambda f: R(".user", I(a, f, b, kw))
        else:
            b, pre, post, w, place, times = t
            rule = R(".r", b)
            if place == "own chain":
                imp = lambda f: R(".user", I(".r2", f))
            else:
                imp = lambda f: raw(w, R(".user", *([pre] + [I(".r", f)] * times + [post])))
        if place == "lib":
            sheets = {own: [imp(lib)], lib: [R(".y", "h:1"), rule]}
        elif place == "main":
            sheets = {own: [imp(lib)], lib: [rule]}
        elif place == "own chain":
            sheets = {own: [imp("OWN"), R(".r2", I(".r", "OWN"), times), rule], lib: [R(".r2", times, I(".r", "OWN")), rule]}
        else:
            sheets = {own: [rule, imp("OWN")] if place == "own before" else [imp("OWN"), rule]}
        good.append(({f: source(s, f) for f, s in sheets.items()}, {f: expand(s, f, sheets) for f, s in sheets.items()}))
    return compare(good)


def compare(good):
    bad = []
    for k in range(0, len(good), 400):
        part = good[k:k + 400]
        res = batch.build_many([g[0] for g in part], common={MAIN: ".m{a:1}", "src/public/img/i.png": "x"}, name="c13s", timeout=100)
        for (src, want), r in zip(part, res):
            for f in src:
                s = src[f].replace(re.search(r"\d+", f).group(), "N")
                if r[0] != "ok":
                    bad.append((s, "the build fails: " + r[1][-300:]))
                    break
                d = diff(r[1][f[11:]].decode("utf-8", "replace"), want[f])
                if d:
                    bad.append((s, d))
        if len(bad) > 40:
            break
    return len(good), len(good), bad[:40]


def acyclic(g):
    """whether the digraph (tuple of imported indices per node) has no cycle"""
    left = set(range(len(g)))
    while left:
        free = {i for i in left if not left & set(g[i])}
        if not free:
            return False
        left -= free
    return True


def graphs():
    """every import graph of some rules: (file of every rule, imports of every rule)"""
    lists = [[t for k in range(4) for t in itertools.permutations([j for j in range(4) if j != i], k)] for i in range(4)]
    for g in itertools.product(*lists):
        if acyclic(g):
            yield (0,) * 4, g
    lists = [[t for k in range(4) for t in itertools.combinations([j for j in range(4) if j != i], k)] for i in range(4)]
    for g in itertools.product(*lists):
        if acyclic(g):
            for f in itertools.product((0, 1), repeat=4):
                if 0 in f and 1 in f and len({(f[i], f[j]) for i in range(4) for j in g[i] if f[i] != f[j]}) == 1:
                    yield f, g
    if env.THOROUGH:
        lists = [[t for k in range(5) for t in itertools.combinations([j for j in range(5) if j != i], k)] for i in range(5)]
        for g in itertools.product(*lists):
            if acyclic(g):
                yield (0,) * 5, g


def cyclic_graphs():
    for g in itertools.product(*[[t for k in range(4) for t in itertools.combinations(range(3), k)]] * 3):
        if not acyclic(g):
            yield (0,) * 3, g
    for g in itertools.product(*[[()] + [(j,) for j in range(4) if j != i] for i in range(4)]):
        if not acyclic(g):
            yield (0,) * 4, g


def graph_sheets(f, g, files):
    out = {files[k]: [R(".y", "h:1")] for k in set(f)}
    for i, t in enumerate(g):
        out[files[f[i]]].append(R(".r%d" % i, "a%d:1;" % i, *[I(".r%d" % j, "OWN" if f[j] == f[i] else files[f[j]]) for j in t]))
    return out


def graph(chunk):
    good = []
    for i, (f, g) in chunk:
        sheets = graph_sheets(f, g, ("src/public/css/x%d.css" % i, "src/public/css/l/y%d.css" % i))
        good.append(({k: source(s, k) for k, s in sheets.items()}, {k: expand(s, k, sheets) for k, s in sheets.items()}))
    return compare(good)


def cyclic(chunk):
    bad = []
    p = env.Project("c13y")
    for f, g in chunk:
        own = "src/public/css/x.css"
        src = {k: source(s, k) for k, s in graph_sheets(f, g, (own,)).items()}
        p.set_sources(dict(src, **{MAIN: ".m{a:1}"}))
        p.clear_generated()
        o = p.build(timeout=20)
        if o.ok or o.kind == "hang":
            bad.append((src[own], "the build of a cyclic import ends as %r, publishing %r" % (o, p.www().get(own[11:]))))
    return len(chunk), 0, bad[:20]


def job(j):
    import gc
    gc.enable()
    return {"structure": structure, "default": default_sheet, "spelling": spelling, "graph": graph, "cyclic": cyclic}[j[0]](j[1])


def run(c):
    c.assumptions = ["selectors match up to white space runs and comments; the first top-level rule with the selector counts; imports stand inside rules"]
    L = 4 if env.THOROUGH else 3
    st = list(enumerate(bodies(L)))
    de = [t for t in bodies(3 if env.THOROUGH else 2)]
    sp = list(enumerate([("sel", t) for t in spelled()] + [("block", t) for t in block_cases()]))
    gr = list(enumerate(graphs()))
    cy = list(cyclic_graphs())
    c.cov["rule"] = "%d bodies of up to %d of %d items, %d bodies as the default stylesheet, %d spellings of selectors, blocks and positions, %d acyclic and %d cyclic import graphs" % (
        len(st), L, len(ITEMS), len(de), len(sp), len(gr), len(cy))
    jobs = [("graph", gr[i:i + 400]) for i in range(0, len(gr), 400)] + [("cyclic", cy[i:i + 80]) for i in range(0, len(cy), 80)] + [("spelling", sp[i:i + 400]) for i in range(0, len(sp), 400)] + [("default", de[i:i + 60]) for i in range(0, len(de), 60)] + [("structure", st[i:i + 800]) for i in range(0, len(st), 800)]
    m = 0
    for j, (n, ok, bad) in env.pmap(job, jobs, deadline=c.deadline):
        m += 1
        c.add(states=n, transitions=n, traces_validated_against_impl=n, rejected_sheets=n - ok)
        if j[0] == "structure":
            c.sample(source([ITEMS[k] for k in j[1][-1][1]], "src/public/css/x.css"), 5)
        for s, why in bad:
            c.violation(s, "%s: %s" % (s, why), {"case": s, "why": why})
    if m < len(jobs):
        c.cap("time budget reached after %d of %d groups" % (m, len(jobs)))
