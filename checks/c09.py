"""C09: the published module parses to the same program as the source.

State space: every sequence of lexemes up to a length over an alphabet that covers every lexical form
(and every pair of forms whose meeting changes how the next character is read), inside several
contexts, with every joiner; those an independent parser accepts as a module are built by the real
code and the published text is parsed and compared."""
import itertools

from vp import batch, env, jsast

# single tokens; every pair and triple of them
LEX = ["a", "/", "/=", "/a/", "/[/]/g", "/\\//", "/(?<n>a)/u", "++", "--", "+", "-", "(", ")", "[", "]", "{", "}", "${", "`", "`a`", "`${", "}`",
       "`\\``", "'a'", '"\\"\'"', "'\\n\\x41\\u0041\\u{1F600}\\0'", "'\\\n'", "1", ".5", "0x1F", "1n", "1_000", "1e-3", "0b1", "0o7", "1.", ".",
       "?.", "...", "=>", "=", "==", "===", "!=", "!==", "<", ">", "<<=", ">>>=", "**", "**=", "&&=", "||=", "??", "??=", "?", ":", ";", ",",
       "!", "~", "%", "&", "|", "^", "#p", "@", "$a", "_", "\\u0061b", "\u00e9", "let", "const", "var", "if(a)", "while(a)", "for(;;)", "else ",
       "return", "typeof", "void", "delete", "new", "in", "of", "instanceof", "yield", "await", "async", "function", "function f(){}", "()=>{}",
       "class A{}", "class A{#p=1;static{}}", "get", "static", "do{}while(a)", "case 1:", "break", "throw", "import.meta", "null", "this", "super",
       "import", "as", "from", "export", "default"]
JOIN = ["", " ", "\n", "/*c*/", "//c\n"]
CTX = [("", ""), ("x=", ";"), ("async function*g(){", "}"), ("x=`${", "}`"), ("class A{m(){", "}}"), ("switch(a){case 1:", "}"), ("({", "})"), ("class A{", "}"),
       ("const ", ""), ("import(", ")"), ("export default ", "")]

# longer programs out of fewer, larger pieces
PIECES = ["a", "b", "(a)", "[a]", "{}", "{a}", "/", "/a/g", "\n", ";", "++", "=", "`", "${", "}", "'s'", "1", "if(a)", "return", "=>", "function f(){}", ".b",
          "//c\n", "/*c*/", "/*\n*/", "in", "typeof", "else", ")", "("]

BYTES = ([chr(i) for i in range(1, 128)] + ["\x80", "\x85", "\xa0", "\xad", "\u00e9", "\u0100", "\u200b", "\u200c", "\u2028", "\u2029", "\ufeff", "\u3000", "\u4e2d",
                                            "\U0001F600", "\U00010400", "\u0301", "\u2118", "\u1680", "\u0660"])
CHARCTX = [("'", "'"), ('"', '"'), ("`", "`"), ("/", "/"), ("/[", "]/"), ("'\\", "'"), ("`\\", "`"), ("/\\", "/"), ("a", "b"), ("a ", " b"), ("//", "\na"), ("/*", "*/a"),
           ("'\\x4", "'"), ("'\\u004", "'"), ("'\\u{4", "}'"), ("`${", "}`"), ("x.", ""), ("1", ""), ("'a\\", "b'"), ("`a", "${b}`"), ("/a/", ""), ("0", "1"), ("#", ""),
           ("({get ", "(){}})"), ("`$", "{a}`"), ("/*", "\n*/a"), ("#!", "\na"), ("'", "\\\n'"), ("a/", "/b"), ("", "a"), ("a", "")]


def fam_triples(first):
    """all triples (lex, lex, lex) whose first is given, in every context with direct or spaced joining"""
    out = []
    for pre, post in (CTX if env.THOROUGH else CTX[:2] + CTX[6:7]):
        for j in (" ",) if not env.THOROUGH else JOIN:
            for b in LEX:
                out.append(pre + first + j + b + post)
                for c3 in LEX:
                    out.append(pre + first + j + b + j + c3 + post)
    return out


def fam_pairs(first):
    out = []
    for pre, post in CTX:
        for j in JOIN:
            out.append(pre + first + j + post)
            for b in LEX:
                out.append(pre + j + first + j + b + j + post)
    return out


def fam_pieces(first):
    n = 4
    out = []
    for rest in itertools.product(PIECES, repeat=n - 1):
        out.append(" ".join((first,) + rest))
        if n == 4 and env.THOROUGH:
            out.append("".join((first,) + rest))
    return out


def fam_chars(ctx):
    pre, post = ctx
    out = []
    for a in BYTES:
        out.append(pre + a + post)
        for b in (BYTES if env.THOROUGH else "a\\'\"`/$}{\n\r0\u2028*]["):
            out.append(pre + a + b + post)
    return out


def one(job):
    fam, arg = job
    srcs = list(dict.fromkeys({"triples": fam_triples, "pairs": fam_pairs, "pieces": fam_pieces, "chars": fam_chars}[fam](arg)))
    import gc
    gc.enable()
    trees = jsast.asts(srcs)
    valid = [(s, t) for s, t in zip(srcs, trees) if t is not None]
    # one program per syntax tree and lexical skeleton is enough only if the text is equal: keep all
    bad = []
    for i in range(0, len(valid), 400):
        group = valid[i:i + 400]
        items = [{"src/public/js/f%d.js" % k: s} for k, (s, t) in enumerate(group)]
        res = batch.build_many(items, name="js")
        outs = []
        for k, r in enumerate(res):
            outs.append(r[1]["js/f%d.js" % k].decode("utf-8", "replace") if r[0] == "ok" else None)
        got = jsast.asts([o if o is not None else "" for o in outs])
        for (s, t), o, g, r in zip(group, outs, got, res):
            if o is None:
                bad.append((s, "the build fails: " + r[1][-300:]))
            elif g != t:
                bad.append((s, "published as %r which %s" % (o, "is no valid module" if g is None else "parses differently")))
        if len(bad) > 40:
            break
    return len(srcs), len(valid), len({t for s, t in valid}), bad[:40], valid[len(valid) // 2][0] if valid else None


def run(c):
    c.assumptions = ["validity and meaning of a module are what acorn (ECMAScript latest, module goal) parses",
                     "local static imports and type-hint lines are left to C10 and C22"]
    c.cov["rule"] = ("every sequence of 3 of %d lexemes in several and of 2 in all of %d contexts (pairs with 5 joiners), every sequence of 4 of %d pieces, every "
                     "character (pair) of %d in %d lexical contexts; each valid module built and compared" % (
                         len(LEX), len(CTX), len(PIECES), len(BYTES), len(CHARCTX)))
    jobs = [("chars", x) for x in CHARCTX] + [("pairs", x) for x in LEX] + [("pieces", x) for x in PIECES] + [("triples", x) for x in LEX]
    n = 0
    for job, (tried, valid, trees, bad, ex) in env.pmap(one, jobs, deadline=c.deadline):
        n += 1
        c.add(states=valid, transitions=valid, candidates=tried, distinct_programs=trees, traces_validated_against_impl=valid)
        if ex:
            c.sample({"family": job[0], "program": ex}, 8)
        for s, why in bad:
            c.violation(s, "module %r: %s" % (s, why), {"source": s, "why": why})
    if n < len(jobs):
        c.cap("time budget reached after %d of %d families" % (n, len(jobs)))
