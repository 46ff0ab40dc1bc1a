"""C10: every local static import form is versioned, and only imports are.

State space: every import declaration generated by the ECMAScript grammar up to a clause size, with
every choice of what stands between its tokens, both quotes, every kind of specifier and several
positions in the module; plus every "not an import" context.  Each valid module is built by the real
code; the published tree must equal the source tree with the expected specifiers replaced.  Then
every imported module is changed and an incremental build must change exactly the expected versions."""
import itertools
import json
import re
import urllib.parse

from vp import env, jsast, site

TARGETS = {"src/public/js/t.js": "export default 1;export const a=1;export const b=2;",
           "src/public/t2.js": "export const a=3;",
           "src/public/js/sub/d-e.f.js": "export const a=4;"}
CHANGED = {k: v + "export const zz=1;" for k, v in TARGETS.items()}

# clauses as token lists; S is the specifier
CLAUSES = [["import", "S"]]
DEF = ["d", "from_", "as", "from", "$d", "async", "of"]
NAMED = [[], ["a"], ["a", ","], ["a", "as", "x"], ["a", ",", "b"], ["a", "as", "x", ",", "b", "as", "y", ","], ["default", "as", "x"], ["as"], ["from"], ["as", "as", "as"],
         ["from", "as", "from"], ["import", "as", "y"], ['"st r"', "as", "x"], ["as", ",", "from"], ["if", "as", "z"], ["a", "as", "as"], ["a", "as", "from", ","], ["as", "as", "x"]]
for d in DEF:
    CLAUSES.append(["import", d, "from", "S"])
CLAUSES.append(["import", "*", "as", "n", "from", "S"])
CLAUSES.append(["import", "*", "as", "from", "from", "S"])
CLAUSES.append(["import", "*", "as", "as", "from", "S"])
for n in NAMED:
    CLAUSES.append(["import", "{"] + n + ["}", "from", "S"])
for d in ("d", "as", "from"):
    CLAUSES.append(["import", d, ",", "*", "as", "n", "from", "S"])
    for n in NAMED:
        if d == "d" or n in (["a"], []):
            CLAUSES.append(["import", d, ",", "{"] + n + ["}", "from", "S"])
GAPS = ["", " ", "\n", "/*c*/", "//c\n", " \t", "\r\n", "/* import '/js/t.js' */", " \u00a0", "/*\n*/"]
SPECS = ["/js/t.js", "/t2.js", "/js/sub/d-e.f.js", "./t.js", "../t2.js", "./sub/d-e.f.js", "./sub/../t.js"]
FOREIGN = ["https://x.org/js/t.js", "//x.org/js/t.js", "bare", "@s/p", "/js/t.js?v=1", "/js/t.js#f", "./t.js?x", "http:/js/t.js", "data:text/javascript,1", "", "js/t.js", ".", "node:fs"]
TAIL = [";", "\n", "", ";\n", "\n;", "/*e*/", ' with {type:"json"};', "//e\n", " ;"]
HEAD = ["", "\n", "/*h*/", "//h\n", "const q=1;", "const q=1\n", "{}", "\"use strict\";", "#!/x\n", ";", "export {};", "if(1){}\n", "/a/g;", "`t${1}`;"]
# text which is not an import declaration although it looks like one; T is a local path
NOTS = ['import("T")', 'import ("T")', "import(/*c*/'T')", "x=import('T').then(import.meta.url)", "import.meta.x='T'", "x='import \"T\"'", "x='import a from \"T\"'", "//import 'T'\n",
        "/*import 'T'*/", "/*\nimport 'T'\n*/", "x=`import 'T'`", "x=`\nimport 'T'\n`", "x=`${1}import 'T'`", "x=`${`import 'T'`}`", "x.import('T')", "x={import:'T'}", "x={import(){return 'T'}}",
        "class A{import='T'}", "class B{static import(a='T'){}}", "x.import\n'T'", "x?.import('T')", "/import 'T'/g.test('')".replace("T", "a"), "x=/[/]import 'a'/",
        "f('from','T')", "let from='T'", "let as='T'", "x={from:'T'}", "await import('T')", "async()=>{await import('T')}", "for(let from of ['T']);", "label:import('T')",
        "class C{#import='T'}", "x=a?import('T'):b", "x=[import('T')]", "import.meta", "x.y.import\n('T')"]


def canon_ast(tree, versions, rel_dir):
    """The tree with every local static import specifier replaced by what has to be published."""
    t = json.loads(tree)
    hit = []
    for st in t["body"]:
        if st["type"] == "ImportDeclaration":
            v = st["source"]["value"]
            e = expected(v, rel_dir)
            if e is not None:
                hit.append(e)
                st["source"]["value"] = e + "?" + versions(e)
    return json.dumps(t, sort_keys=True), hit


def expected(v, rel_dir):
    """The published path a local specifier names, or None if it has to stay as written."""
    if v.startswith("//") or not v.startswith(("/", "./", "../")) or "?" in v or "#" in v:
        return None
    return urllib.parse.urljoin("/" + rel_dir + "/", v)


def join(tokens, gaps):
    out = tokens[0]
    for g, t in zip(gaps, tokens[1:]):
        out += g + t
    return out


def forms():
    q = ["'%s'", '"%s"']
    seen = set()

    def emit(s):
        if s not in seen:
            seen.add(s)
            return True
    # every clause, every uniform gap, both quotes, every specifier
    for cl in CLAUSES:
        for g in GAPS:
            for sp in SPECS[:4]:
                for qq in q:
                    s = join([(qq % sp) if t == "S" else t for t in cl], [g] * 20)
                    if emit(s + ";"):
                        yield s + ";"
                    m = join([(qq % sp) if t == "S" else t for t in cl], ["" if not (re.match(r"[\w$]", b[0]) and re.match(r"[\w$]", a[-1])) else (g or " ") for a, b in zip(cl, cl[1:])])
                    if emit(m):
                        yield m
    # every clause, one special gap at one place
    for cl in CLAUSES:
        for i in range(len(cl) - 1):
            for g in GAPS:
                gaps = [" "] * (len(cl) - 1)
                gaps[i] = g
                s = join(['"/js/t.js"' if t == "S" else t for t in cl], gaps)
                if emit(s):
                    yield s
    # every specifier with every head and tail for a few clauses
    for cl in (CLAUSES[0], ["import", "d", "from", "S"], ["import", "{", "a", "}", "from", "S"], ["import", "*", "as", "n", "from", "S"],
               ["import", "d", ",", "{", "a", "as", "x", "}", "from", "S"]):
        for h in HEAD:
            for tl in TAIL:
                for sp in SPECS[:5] + FOREIGN:
                    for qq in q:
                        s = h + join([(qq % sp) if t == "S" else t for t in cl], [" "] * 20) + tl
                        if emit(s):
                            yield s
    # two declarations, and declarations around things which are no imports
    two = [["import", "S"], ["import", "d", "from", "S"], ["import", "{", "a", "}", "from", "S"], ["import", "*", "as", "n", "from", "S"], ["import", "{", "b", "as", "y", "}", "from", "S"]]
    for c1, c2 in itertools.product(two, two):
        for s1, s2 in itertools.product(["/js/t.js", "../t2.js", "bare", "//x.org/a.js"], repeat=2):
            for tl in (";", "\n", ";\n", "/*m*/;"):
                s = join(["'%s'" % s1 if t == "S" else t for t in c1], [" "] * 20) + tl + join(['"%s"' % s2 if t == "S" else t for t in c2], [" "] * 20)
                if emit(s):
                    yield s
    for n in NOTS:
        for p in ("/js/t.js", "./t.js"):
            x = n.replace("T", p)
            for s in (x, x + ";import '/t2.js'", "import '/t2.js';" + x, x + "\nimport d from '/t2.js'", "function f(){" + x + "}", "import {a} from '/t2.js'\n" + x + "\nimport './sub/d-e.f.js';",
                      "(" + x + ")", "class Z{static{" + x + "}}\nimport '/t2.js'"):
                if emit(s):
                    yield s


DIRS = ["js", "js/sub"]


def one(job):
    srcs, trees = job
    p = env.Project("c10")
    bad = []
    hits = 0

    def check_round(done):
        nonlocal hits
        o = p.build(timeout=120)
        if not o.ok:
            return "the build fails: " + o.detail[-400:]
        www = p.www()

        def versions(e):
            h = site.sha(www[e[1:]])
            return urllib.parse.urlencode({"v": h, "pv": PV})
        outs = [www["js/f%d.js" % k].decode() for k in range(len(srcs))]
        got = jsast.asts(outs)
        for k, (s, t) in enumerate(zip(srcs, trees)):
            want, hit = canon_ast(t, versions, "js")
            hits += len(hit)
            g = got[k] and json.dumps(json.loads(got[k]), sort_keys=True)
            if g != want:
                bad.append((s, "%s: published as %r" % (done, outs[k])))
        return None
    base = dict(TARGETS)
    for k, s in enumerate(srcs):
        base["src/public/js/f%d.js" % k] = s
    p.reset()
    p.set_sources(base)
    err = check_round("clean build")
    if err:
        if len(srcs) == 1:
            return 1, hits, [(srcs[0], err)]
        h = len(srcs) // 2
        a = one((srcs[:h], trees[:h]))
        b = one((srcs[h:], trees[h:]))
        return a[0] + b[0], a[1] + b[1], a[2] + b[2]
    base.update(CHANGED)
    p.set_sources(base)
    err = check_round("after the imported modules changed")
    if err:
        bad.append((srcs[0], err))
    p.reset()
    return 2 * len(srcs), hits, bad[:30]


def filt(srcs):
    return [(s, t) for s, t in zip(srcs, jsast.asts(srcs)) if t is not None]


def run(c):
    global PV
    import vanillaplusjs.constants
    PV = vanillaplusjs.constants.PROCESSOR_VERSION
    c.assumptions = ["validity and meaning of a module are what acorn parses", "re-exports (export ... from), self and cyclic imports and percent-encoded paths are outside the claim"]
    allsrc = list(forms())
    c.cov["rule"] = ("%d candidate modules: %d import clauses x %d gaps x quotes x specifiers; every single gap; heads and tails; pairs of declarations; "
                     "%d contexts that are no import; each valid one built cleanly and again after all imported modules changed" % (
                         len(allsrc), len(CLAUSES), len(GAPS), len(NOTS)))
    valid = []
    for _, r in env.pmap(filt, [allsrc[i:i + 2000] for i in range(0, len(allsrc), 2000)]):
        valid += r
    jobs = [([s for s, t in valid[i:i + 150]], [t for s, t in valid[i:i + 150]]) for i in range(0, len(valid), 150)]
    n = 0
    for job, (built, hits, bad) in env.pmap(one, jobs, deadline=c.deadline):
        n += 1
        c.add(states=len(job[0]), transitions=built, versioned_imports_checked=hits, traces_validated_against_impl=built)
        c.sample(job[0][len(job[0]) // 3], 6)
        for s, why in bad:
            c.violation(s, "module %r: %s" % (s, why), {"source": s, "why": why})
    if n < len(jobs):
        c.cap("time budget reached after %d of %d groups" % (n, len(jobs)))
    c.cov["candidates"] = len(allsrc)
