"""C12: templates and stack variables follow lexical scoping.

State space: every page body up to a length over an alphabet of commands (define, retrieve, template
with no / given / by-reference variables, push, pop, text), times every template body up to a length
over a similar alphabet, times fixed templates with relative includes; every value spelling and every
command spelling in every position of a document.  Oracle: a small interpreter that expands the page by
hand; the published page must be the same document as the expanded page, and pages the interpreter
rejects must fail the build."""
import html
import itertools
import json
import os
import posixpath

from vp import batch, env, htmldom


class Fail(Exception):
    pass


def ref(n):
    return {"type": "variable", "name": n}


# fixed templates: project path -> atoms
FIXED = {
    "src/partials/b.html": [("ret", "y"), ("def", "y", 7), ("ret", "y"), ("tpl", "sub/c.html", {}), ("text", "<b>b</b>")],
    "src/partials/sub/c.html": [("text", "c"), ("def", "x", "in c"), ("ret", "x"), ("tpl", "d.html", {"x": ref("x")}), ("tpl", "../e.html", {"y": ref("x")})],
    "src/partials/sub/d.html": [("ret", "x"), ("def", "x", "d"), ("def", "y", "d")],
    "src/partials/e.html": [("text", "<p>e</p>"), ("ret", "y")],
    "src/partials/a/r.html": [("ret", "x"), ("def", "x", 8), ("text", "r"), ("ret", "x")],
    "src/partials/n.html": [],
    "src/public/p/t.html": [("text", "<u>t</u>"), ("def", "x", "t"), ("ret", "x"), ("tpl", "../inc/u.html", {"x": ref("x")})],
    "src/public/inc/u.html": [("text", "u")],
}
PAGE = [("def", "x", 1), ("def", "x", "2"), ("def", "y", "<b>&amp;\"'"), ("ret", "x"), ("ret", "y"), ("tpl", "/a/K.html", {}), ("tpl", "/a/K.html", {"x": 9}), ("tpl", "/a/K.html", {"x": ref("x")}),
        ("tpl", "/a/K.html", {"y": ref("x"), "x": "v"}), ("tpl", "/b.html", {"y": ref("y")}), ("text", "<i>t</i> u"), ("tpl", "t.html", {"x": 3}), ("push", "/sub/q.html"), ("pop",), ("tpl", "../../partials/e.html", {"y": "rel"})]
TMPL = [("ret", "x"), ("def", "x", 5), ("ret", "y"), ("tpl", "/b.html", {"y": ref("x")}), ("tpl", "r.html", {"x": ref("x")}), ("text", "<i>a</i> "), ("tpl", "../b.html", {"y": "z"}), ("def", "y", ref("x"))]


def command(a, sp=0):
    if a[0] == "text":
        return a[1]
    name = "TEMPLATE" if a[0] == "tpl" else "STACK"
    args = list(a[1:]) if a[0] == "tpl" else [{"def": "define", "ret": "retrieve"}.get(a[0], a[0])] + list(a[1:])
    if a[0] == "tpl" and not a[2]:
        args = args[:1]
    s = json.dumps(args, ensure_ascii=bool(sp % 2), indent=2 if sp == 3 and name == "TEMPLATE" else None)
    return ["<!--[%s: %s]-->", "<!-- [%s: %s] -->", "<!--\n [ %s :  %s ]\n-->", "<!--[%s:\t%s]-->"][sp] % (name, s)


def source(atoms, sp=0):
    return "".join(command(a, sp) for a in atoms)


def interpret(atoms, path, files, variables=None, active=()):
    """Expanded html of a file's commands."""
    if path in active:
        raise Fail("recursion")
    stack = [(path, dict(variables or {}))]
    out = []
    for a in atoms:
        cur, var = stack[-1]
        if a[0] == "text":
            out.append(a[1])
        elif a[0] == "def":
            var[a[1]] = a[2]
        elif a[0] == "ret":
            if a[1] not in var or not isinstance(var[a[1]], (str, int, float)):
                raise Fail("undefined")
            out.append(html.escape(str(var[a[1]])))
        elif a[0] == "push":
            stack.append((resolve(a[1], cur), {}))
        elif a[0] == "pop":
            stack.pop()
            if not stack:
                raise Fail("pop")
        else:
            t = resolve(a[1], cur)
            if t not in files:
                raise Fail("missing")
            given = {k: var.get(v["name"], v) if isinstance(v, dict) and v.get("type") == "variable" else v for k, v in a[2].items()}
            out.append(interpret(files[t], t, files, given, active + (path,)))
    if len(stack) != 1:
        raise Fail("push")
    return "".join(out)


def resolve(p, cur):
    if p.startswith("/"):
        return posixpath.normpath("src/partials" + p)
    return posixpath.normpath(posixpath.join(posixpath.dirname(cur), p))


def wrap(body):
    return '<!DOCTYPE html><html><head><meta charset="utf-8"><title>t</title></head><body>%s</body></html>' % body


def subst(atoms, k):
    return [(a[0], a[1].replace("K", str(k)), a[2]) if a[0] == "tpl" else a for a in atoms]


def abodies():
    out = []
    for n in range(0, 3):
        out += list(itertools.product(TMPL, repeat=n))
    return out


def pages():
    """(page atoms, template index)"""
    ab = abodies()
    few = [0, 1, 2, 4, 10, 13, 20, 33, 45] if not env.THOROUGH else range(len(ab))
    for n in range(0, 4):
        for t in itertools.product(PAGE, repeat=n):
            uses = any(a[0] == "tpl" and "K" in a[1] for a in t)
            for k in (([0] if not uses else few) if n > 2 else range(len(ab)) if uses else [0]):
                yield list(t), k


def job(js):
    import gc
    gc.enable()
    kind, arg = js
    return scoping(arg) if kind == "scoping" else spelling(arg)


def base_files():
    files = dict(FIXED)
    for k, a in enumerate(abodies()):
        files["src/partials/a/%d.html" % k] = list(a)
    return files


def scoping(chunk):
    files = base_files()
    common = {f: source(a) for f, a in files.items()}
    good = []
    fails = []
    n = 0
    for i, (t, k) in chunk:
        atoms = subst(t, k)
        path = "src/public/p/x%d.html" % i
        try:
            good.append((path, atoms, interpret(atoms, path, files)))
        except Fail:
            if len(t) <= 2 or env.THOROUGH and len(t) <= 2:
                fails.append((path, atoms))
    bad = []
    res = batch.build_many([{path: wrap(source(a))} for path, a, want in good], common=common, name="c12", timeout=100)
    for (path, a, want), r in zip(good, res):
        n += 1
        if r[0] != "ok":
            bad.append((source(a), "the build fails: " + r[1][-400:]))
            continue
        d = htmldom.first_difference(htmldom.doc(r[1][path[11:]]), htmldom.doc(wrap(want)))
        if d:
            bad.append((source(a), d))
    p = env.Project("c12f")
    for path, a in fails:
        n += 1
        need = {path: wrap(source(a))}
        todo = [(path, a)]
        while todo:
            pa, at = todo.pop()
            for x in at:
                if x[0] == "tpl":
                    t = resolve(x[1], pa)
                    if t in common and t not in need:
                        need[t] = common[t]
                        todo.append((t, files[t]))
        for f in ("src/public/p/t.html", "src/public/inc/u.html"):
            if f in need:
                need["src/public/p/t.html"] = common["src/public/p/t.html"]
        p.set_sources(need)
        p.clear_generated()
        o = p.build(timeout=20)
        if o.ok:
            bad.append((source(a), "the build succeeds and publishes %r" % p.www()[path[11:]]))
        elif o.kind == "hang":
            bad.append((source(a), "the build does not end"))
        if len(bad) > 20:
            break
    return n, len(good), bad[:20]


VALUES = ["", " ", "a", "<b>x</b>", "&amp;", "&", "\"'", "é\u2028", "a\nb", "\n", "-->", "<!--", "]-->", "[STACK: [\"pop\"]]", "{}", "\\", "\t", "</title>", "</p>", "<script>", "\u00a0", "0", 0, -3, 1.5, 10 ** 20]
CONTEXTS = ["<p>%s</p>", "<p>a%sb</p>", "%s", " %s ", "<ul><li>%s</li></ul>", "<div><b>x</b> %s <i>y</i></div>", "<table><tbody><tr><td>%s</td></tr></tbody></table>", "<select><option>%s</option></select>",
            "<svg><text>%s</text></svg>", "<pre>x%s</pre>", "<p>&lt;%s</p>", "<p>%s&lt;</p>", "<p>%s<br></p><!-- c -->", "<!--c-->%s<!--d-->", "<a href='x'>%s</a>", "<button>%s</button>", "TITLE"]
MISSES = ["<!--[TEMPLATE [\"/n.html\"]]-->", "<!--TEMPLATE: [\"/n.html\"]-->", "<!--[TEMPLATES: [\"/n.html\"]]-->", "<!--[STACK: not json]-->", "<!--[STACK: {}]-->", "<!--[stack: [\"pop\"]]-->", "<!--x [STACK: [\"pop\"]]-->",
          "<!---->", "<!--[]-->", "<!--[STACK: []]-->", "<!--[STACK: [1]]-->", "<!--[TEMPLATE: []]-->", "<!-- a -- b -->", "<!--[STACK: \"pop\"]-->", "<p title='[STACK: [\"pop\"]]'></p>", "<p>[STACK: [\"pop\"]]</p>",
          "<p>&lt;!--[STACK: [\"pop\"]]--></p>", "<p>&lt;!-- x --></p>", "<textarea>&lt;!-- x --></textarea>"]


def spellings():
    for v in VALUES:
        s = v if isinstance(v, str) else ""
        if "-->" in s or s == "<!--" or "<!--" in s:
            continue    # cannot be written in a comment
        for ci, cx in enumerate(CONTEXTS):
            if cx == "TITLE" and ("&" in s or "</title" in s):
                continue    # titles are text: character references are decoded and end tags recognized
            for sp in range(3):
                yield cx, [("def", "v", v), ("ret", "v")], sp
                yield cx, [("tpl", "/v.html", {"v": v})], sp
                yield cx, [("def", "w", v), ("tpl", "/v.html", {"v": ref("w")}), ("text", "z")], sp
    for cx in CONTEXTS:
        for sp in range(4):
            if cx != "TITLE":
                yield cx, [("tpl", "/many.html", {"v": "1"})], sp
            yield cx, [("tpl", "/n.html", {})], sp
            yield cx, [("tpl", "/v.html", {"v": "1"}), ("tpl", "/v.html", {"v": "2"})], sp
        if cx != "TITLE" and not cx.startswith("<svg") and not cx.startswith("<select"):
            for m in MISSES:
                yield cx, [("text", m)], 0


SFILES = {"src/partials/v.html": [("ret", "v")], "src/partials/n.html": [],
          "src/partials/many.html": [("text", "<span class='a'>"), ("ret", "v"), ("text", "</span><!-- keep --><img alt=''> &amp; <em>x</em>"), ("tpl", "/v.html", {"v": ref("v")})]}


def put(cx, s):
    if cx == "TITLE":
        return "<!DOCTYPE html><html><head><title>%s</title></head><body>x</body></html>" % s
    return wrap(cx.replace("%s", s))


def spelling(chunk):
    bad = []
    path = "src/public/p/x.html"
    res = batch.build_many([{"src/public/p/x%d.html" % i: put(cx, source(a, sp))} for i, (cx, a, sp) in enumerate(chunk)],
                           common={f: source(a) for f, a in SFILES.items()}, name="c12s", timeout=100)
    for i, ((cx, a, sp), r) in enumerate(zip(chunk, res)):
        if r[0] != "ok":
            bad.append((put(cx, source(a, sp)), "the build fails: " + r[1][-400:]))
            continue
        d = htmldom.first_difference(htmldom.doc(r[1]["p/x%d.html" % i]), htmldom.doc(put(cx, interpret(a, path, SFILES))))
        if d:
            bad.append((put(cx, source(a, sp)), d))
    return len(chunk), len(chunk), bad[:20]


def recursion():
    """Templates that include themselves can never be published: the build must end with a failure."""
    p = env.Project("c12r")
    bad = []
    n = 0
    for name, files in {"self": {"a": "/a.html"}, "two": {"a": "/b.html", "b": "/a.html"}, "relative": {"a": "a.html"}, "dots": {"a": "../partials/b.html", "b": "/x/../a.html"}}.items():
        p.set_sources(dict({"src/partials/%s.html" % k: "x" + command(("tpl", v, {})) for k, v in files.items()}, **{"src/public/i.html": wrap(command(("tpl", "/a.html", {})))}))
        p.clear_generated()
        o = p.build(timeout=15)
        n += 1
        if o.ok or o.kind != "exc":
            bad.append(("recursion " + name, "the build of a template that includes itself ends as %r" % o))
    return n, n, bad


def run(c):
    c.assumptions = ["templates are phrasing content balanced in push and pop; commands stand where the parser keeps comments (or in a title)"]
    ps = list(enumerate(pages()))
    ss = list(spellings())
    c.cov["rule"] = "%d pages of up to 3 commands x template bodies of up to 2 commands (%d); %d spellings of commands, values and positions" % (len(ps), len(abodies()), len(ss))
    jobs = [("spelling", ss[i:i + 400]) for i in range(0, len(ss), 400)] + [("scoping", ps[i:i + 400]) for i in range(0, len(ps), 400)]
    m = 0
    (x, (n, g, bad)), = env.pmap(lambda _: recursion(), [0])
    c.add(states=n, transitions=n)
    for s, why in bad:
        c.violation(s, "%s: %s" % (s, why), {"case": s, "why": why})
    for j, (n, good, bad) in env.pmap(job, jobs, deadline=c.deadline):
        m += 1
        c.add(states=n, transitions=n, traces_validated_against_impl=n, rejected_pages=n - good)
        if j[0] == "scoping":
            c.sample(source(subst(*j[1][len(j[1]) // 2][1])), 5)
        for s, why in bad:
            c.violation(s, "%s: %s" % (s, why), {"case": s, "why": why})
    if m < len(jobs):
        c.cap("time budget reached after %d of %d groups" % (m, len(jobs)))
