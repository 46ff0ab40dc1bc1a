"""C08: the published stylesheet has the tokens of the source.

State space: every sequence of lexemes up to a length over an alphabet that covers every token kind of
css-syntax-3, every string over a small alphabet of the characters that decide tokenization, and every
character (pair) in every lexical context.  Each text free of parse errors is part of a stylesheet
built by the real code; the published stylesheet is tokenized by an independent tokenizer."""
import itertools

from vp import batch, csstok, env

LEX = ["a", "-a", "--x", "--", "\\31 a", "\\-", "_\u00e9", "u\\72l", "e", "E1", "n", "-n", "1", "+1", "-1.5", ".5", "1e3", "1E+3", "007", "1.0", "0.10", "+.5", "1px", "1e",
       "1e-x", "1--x", "1\\65 3", "2n", "-3n-1", "1e3e4", "50%", "-.5%", "1\\%", "'a'", '"a\'b"', "'a\"b'", '"\\"\'"', "'a\\\nb'", '"\\41 b"', "'\u00e9\\9 \\a '", "'\\'\"'", "''",
       "#fff", "#1a", "#-a", "#\\31 ", "#--", "#-1", "f(", "-f(", "\\66(", "url(x)", "url( x\\) )", "URL(x)", "url(\"x y\")", "url( 'q' )", "u\\72l(x)", "url()", "url(a\\ b\\'c)", "url(\u00e9)",
       "@media", "@-x", "@\\31 ", "@--", "+", "-", ".", "#", "@", "<", "!", "*", ">", "~", "|", "^", "$", "&", "=", "%", "/", "?", "`", "\\26 B", "<!--", "-->", "(", ")", "[", "]", "{", "}",
       ",", ":", ";", "/*c*/", "/**/", "/* * / */", " ", "\t", "\n", "\r\n", "\f", "U+26", "u+0-7F", "\ufffd", "!important", "calc(1px + 2px)", ":not(", "::before"]
SMALL = ["a", "e", "-a", "--", "\\31 ", "1", "+1", ".5", "1e3", "1px", "1e-", "50%", "'a'", '"\\a "', "#f", "#1", "f(", "url(x)", "url('x')", "@m", "+", "-", ".", "#", "@", "<", "/", "*", "\\",
         "<!--", "-->", "(", ")", "{", "}", ":", ";", "/*c*/", " ", "\n", "\u00e9", "n", "!", "\\65 ", "%"]
JOIN = ["", " ", "/**/", "\n", "/*c*/ ", " /*c*/"]
CH = "a1-+.eE\\ \n\"'(/*u%#@x"
BYTES = [chr(i) for i in range(1, 128)] + ["\x80", "\xa0", "\u00e9", "\u200c", "\u2028", "\ufeff", "\ufffd", "\ufffe", "\U0001F600", "\u0301"]
CTX = [("'", "'"), ('"', '"'), ("'\\", "'"), ('"\\', 'b"'), ("a", ""), ("a\\", ""), ("\\", "b"), ("", "a"), ("#", ""), ("#\\", ""), ("@", ""), ("@\\", "a"), ("1", ""), ("1\\", "x"), (".", "1"), ("-", ""),
       ("--", ""), ("-\\", ""), ("url(", ")"), ("url(a\\", ")"), ("url(a\\", "b)"), ("url( ", " )"), ("url('", "')"), ("/*", "*/"), ("a\\4", "b"), ("'\\4", "b'"), ("url(\\4", "b)"), ("1e", "1"), ("a", "(b)"),
       ("1a\\", ""), ("'\\00000", "1'"), ("a\\11000", "0 b"), ("", ""), ("<", "--"), ("a{b:", "}"), ("@media ", "{}"), ("a[b=", "]"), ("u+", "")]


def fam(kind, arg):
    if kind == "pairs":
        for j in JOIN:
            yield j + arg + j
            for b in LEX:
                yield arg + j + b
    elif kind == "triples":
        for b in SMALL:
            for x in SMALL:
                yield arg + b + x
                if env.THOROUGH:
                    for y in SMALL:
                        yield arg + b + x + y
    elif kind == "strings":
        for n in range(0, 5 if env.THOROUGH else 4):
            for t in itertools.product(CH, repeat=n):
                yield arg + "".join(t)
    elif kind == "chars":
        pre, post = arg
        for a in BYTES:
            yield pre + a + post
            for b in (BYTES if env.THOROUGH else " a0\\\n'\"()-*/9g\u00e9"):
                yield pre + a + b + post


SEP = "\n;\n"


def local_url(toks):
    """Urls the build rewrites (see C04 and C23)."""
    fn = None
    for t in toks:
        if t[0] == "url" and t[1].startswith(("/", "data:")):
            return True
        if fn and t[0] == "string" and t[1].startswith(("/", "data:")):
            return True
        if t[0] == "function":
            fn = t[1].lower() == "url"
        elif t[0] == ")":
            fn = None
    return False


def compare(pairs, ext="css"):
    """pairs: (text, significant tokens); built many to a file; returns [(text, why)]"""
    bad = []
    per = 60
    files = [pairs[i:i + per] for i in range(0, len(pairs), per)]
    for k in range(0, len(files), 60):
        part = files[k:k + 60]
        res = batch.build_many([{"src/public/css/f%d.css" % i: SEP.join(s for s, t in f) + SEP} for i, f in enumerate(part)], name="css")
        for i, (f, r) in enumerate(zip(part, res)):
            want = csstok.significant(csstok.tokens(SEP.join(s for s, t in f) + SEP))
            if r[0] == "ok":
                out = r[1]["css/f%d.css" % i].decode("utf-8", "replace")
                got = csstok.tokens(out)
                if got is not None and csstok.significant(got) == want:
                    continue
            if len(f) == 1:
                s = f[0][0]
                if r[0] != "ok":
                    bad.append((s, "the build fails: " + r[1][-300:]))
                else:
                    g = got and csstok.significant(got)
                    d = next((x for x in itertools.zip_longest(g or [], want) if x[0] != x[1]), None)
                    bad.append((s, "published as %r: %s" % (out, "invalid" if g is None else "token %r instead of %r" % d)))
            elif len(bad) < 20:
                h = (len(f) + 1) // 2
                # find which texts are responsible
                sub = []
                for one_ in f:
                    sub += compare([one_])
                    if len(sub) > 5:
                        break
                if not sub:
                    sub = [(SEP.join(s for s, t in f), "only together: tokens differ")]
                bad += sub
        if len(bad) > 30:
            break
    return bad


def one(job):
    import gc
    gc.enable()
    kind, arg = job
    n = 0
    pairs = []
    seen = set()
    for s in fam(kind, arg):
        n += 1
        if s in seen:
            continue
        seen.add(s)
        t = csstok.tokens(s + "\n")
        if t is None or csstok.tokens(s + SEP) is None or local_url(t):
            continue
        pairs.append((s, None))
    return n, len(pairs), compare(pairs)[:30], pairs[len(pairs) // 2][0] if pairs else None


def run(c):
    c.assumptions = ["the reference is a tokenizer written from css-syntax-3 section 4; texts with parse errors are no valid stylesheets"]
    c.cov["rule"] = ("all pairs of %d lexemes with %d joiners, all %s of %d lexemes, all strings up to length %d over %d deciding characters, all characters with "
                     "neighbours in %d lexical contexts" % (len(LEX), len(JOIN), "quadruples" if env.THOROUGH else "triples", len(SMALL), 5 if env.THOROUGH else 4, len(CH), len(CTX)))
    jobs = [("chars", x) for x in CTX] + [("pairs", x) for x in LEX] + [("strings", a) for a in CH] + [("triples", x) for x in SMALL]
    n = 0
    for job, (tried, valid, bad, ex) in env.pmap(one, jobs, deadline=c.deadline):
        n += 1
        c.add(states=valid, transitions=valid, candidates=tried, traces_validated_against_impl=valid)
        if ex:
            c.sample({"family": job[0], "text": ex}, 8)
        for s, why in bad:
            c.violation(s, "stylesheet %r: %s" % (s, why), {"source": s, "why": why})
    if n < len(jobs):
        c.cap("time budget reached after %d of %d families" % (n, len(jobs)))
