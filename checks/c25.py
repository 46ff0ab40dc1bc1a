"""C25: HTML processing preserves the document.

State space: every sequence of fragments up to a length over an alphabet that covers each kind of
element, text and comment (in the body, in the head, around the root), every character (pair) in every
lexical context, every attribute spelling, every doctype.  Each page is built by the real code, many
pages to a build, and must parse to the same document as its source."""
import itertools

from vp import batch, env, htmldom

BODY = ["x", " ", "\n", "\n\n", "<", ">", "&", "&amp;", "&lt;", "&gt;", "&quot;", "&nbsp;", "&eacute", "&#x3c;!--", "&lt;!-- x -->", "&notit;", "\u00e9", "\u2028", "\U0001F600", "<p>", "</p>", "<b>", "</b>", "<i title=x>", "</i>", "<br>", "</br>",
        "<hr/>", "<div>", "</div>", "<ul>", "<li>", "</ul>", "<table>", "<tr>", "<td>", "</table>", "<tbody>", "<caption>", "<select>", "<option selected>", "<optgroup label='a'>", "</select>", "<input disabled>", "<input value=''>",
        "<textarea>", "</textarea>", "<pre>", "</pre>", "<listing>", "<a href='/x?a=b&amp;c=d#e'>", "</a>", "<img src=x alt>", "<svg viewBox='0 0 1 1'>", "<path d='M0'/>", "</svg>", "<math>", "<mi>", "</math>", "<foreignObject>",
        "<!--c-->", "<!---->", "<!-- a - b -->", "<!--[if IE]><p><![endif]-->", "<noscript>", "</noscript>", "<iframe>", "</iframe>", "<xmp>", "</xmp>", "<noembed>", "</noembed>", "<template>", "</template>", "<h1>", "</h1>",
        "<x-y a-b='c'>", "</x-y>", "<dl>", "<dt>", "<dd>", "<button>", "<form>", "</form>", "<label for=a>", "<video controls>", "<source src=y>", "<object>", "<details open>", "<ruby>", "<rt>", "<nobr>", "<font color=red>",
        "<script src='//h/x.js'></script>", "<script type='text/plain'>a<b&amp;\"</script>", "<script type='application/ld+json'>{\"a\": \"<!--\"}</script>", "<meta name=a content='b'>", "<link rel=icon href=/x.ico>", "<base href=/>", "<title>t2</title>",
        "<body class=z>", "<html lang=x>", "<head>", "</body>", "</html>", "<!DOCTYPE html>", "<?php x ?>", "<![CDATA[x]]>", "</nope>", "<>", "</>", "<1>", "<P CLASS=A>", "<span hidden>", "<dialog open=''>"]
SMALL = ["x", " ", "\n", "&lt;", "&amp;", "&#x3c;!--", "-->", "<p>", "</p>", "<b>", "</b>", "<br>", "<div>", "</div>", "<ul><li>", "</ul>", "<table>", "<tr><td>", "</table>", "<select><option>", "</select>", "<textarea>", "</textarea>", "<pre>", "</pre>",
         "<a href=x>", "</a>", "<svg>", "<path/>", "</svg>", "<!--c-->", "<!---->", "<noscript>", "</noscript>", "<iframe>", "</iframe>", "<xmp>", "</xmp>", "<template>", "</template>", "</body>", "<script type=a>", "</script>", "<x-y>", "\u00e9"]
QUICK = [x for x in SMALL if x not in ("<b>", "</b>", "<br>", "\n", "&amp;", "<div>", "</div>", "<a href=x>", "</a>", "<iframe>", "</iframe>", "<xmp>", "</xmp>", "<!---->", "<x-y>", "\u00e9")]
HEAD = ["<title>t</title>", "<title></title>", "<title>a<!--b-->c</title>", "<title>&lt;b&gt; &amp; x</title>", "<title><!--b--></title>", "<title>a <<!--b--> c", "<title>\n\nx</title>", "<meta charset=utf-8>", "<meta charset='UTF-8'/>", "<meta name=viewport content='width=device-width, initial-scale=1'>",
        "<meta http-equiv='X-UA-Compatible' content='IE=edge'>", "<meta property='og:title' content='a &amp; b'>", "<link rel='icon' href='/f.ico'>", "<link rel=alternate hreflang=de href='/de/'>", "<base target=_blank>", "\n  ", "<!-- c -->", "x",
        "<noscript><link rel=x href=y></noscript>", "<noscript><meta name=a></noscript>", "<script type=importmap>{\"imports\": {}}</script>", "<script type='text/template'><p>&lt;</p></script>", "<template><p>x</p></template>", "<p>", "</head>", "<body>", "<meta>", "<meta name=description content=\"it's\">"]
ROOT = ["<!DOCTYPE html>", "<!doctype HTML>", "<!DOCTYPE html SYSTEM \"about:legacy-compat\">", '<!DOCTYPE HTML PUBLIC "-//W3C//DTD HTML 4.01//EN" "http://www.w3.org/TR/html4/strict.dtd">', '<!DOCTYPE html PUBLIC "-//W3C//DTD XHTML 1.0 Transitional//EN" "http://www.w3.org/TR/xhtml1/DTD/xhtml1-transitional.dtd">',
        '<!DOCTYPE HTML PUBLIC "-//IETF//DTD HTML//EN">', "<!DOCTYPE html SYSTEM 'x\"y'>", "<!DOCTYPE foo>", "<!DOCTYPE>", "", "<html>", "<html lang='en' data-x=\"a'b\">", "<head>", "</head>", "<body>", "<body class='a b'>", "</body>", "</html>", "<!--c-->", " ", "\n", "x", "<p>", "<title>t</title>", "\ufeff", "<frameset><frame src=x></frameset>",
        "<?xml version='1.0'?>"]
CHARS = [chr(i) for i in range(1, 128)] + ["\x80", "\x85", "\xa0", "\xad", "\u00e9", "\u0301", "\u200b", "\u2028", "\ufeff", "\ufffd", "\ufffe", "\U0001F600", "\U0001fffe", "&amp;", "&lt;", "&#0;", "&#128;", "&#xD800;", "&ampx", "&hellip;", "&NotEqualTilde;", "&#13;", "&#10;", "&ngE;"]
NEAR = ["", "a", " ", "&", "<", ">", "\"", "'", "\n", "-", "!", "/", "&lt;", ";", "="]
CTX = [("<p>", "</p>"), ("<p title=\"", "\">x</p>"), ("<p title='", "'>x</p>"), ("<p title=a", ">x</p>"), ("<p data-", "=b>x</p>"), ("<!--", "--><p>x"), ("<textarea>", "</textarea>"), ("<pre>", "</pre>"), ("<noscript>", "</noscript>"), ("<iframe>", "</iframe>"),
       ("<script type=t>", "</script>"), ("<xmp>", "</xmp>"), ("<svg><text>", "</text></svg>"), ("<svg><g id=\"", "\"/></svg>"), ("<select><option>", "</select>"), ("<table><tr><td>", "</table>"), ("<a", "b>x"), ("<", "p>x"), ("&", "x"), ("&l", "t;"), ("<p>&lt;", "--></p>"), ("<input value=\"", "\">"), ("", ""),
       ("<listing>", "</listing>"), ("<button>", "</button>"), ("<noembed>", "</noembed>"), ("<math><mi>", "</mi></math>"), ("<title>", "</title>")]
ATTRS = ["a", "a=b", "a=''", "a=\"x y\"", "a='\"'", "a=\"'\"", "a='\"&#39;'", "a=\"&quot;'\"", "a=`b`", "a=b/", "a=&lt;", "a=\"<b>\"", "a=\"a&b;c&amp;d\"", "a=\"?x=1&copy=2&lt=3\"", "A=1", "a=1 a=2", "class=' x  y '", "style='color: red'", "onclick='f(\"x\")'", "data-x='{\"a\": [1]}'", "xlink:href=#a", "xml:lang=en", "xmlns=x", "aria-hidden=true",
         "disabled", "disabled=disabled", "checked=''", "hidden=until-found", "async", "async=false", "contenteditable", "value=' '", "a:b=c", "@a=b", "(a)=b", "[a]=b", "#a=b", "a.b=c", "viewBox='0 0 1 1'", "a=\"\n\"", "a='\t'", "a=\u00e9", "\u00e9=a", "a=\"&nbsp;\u00a0\"", "href=/x", "src=/x.png", "rel=next", "alt", "a=\">\"", "a='--'", "content=x", "name=canonical"]
ELEMS = ["p", "input", "img", "option", "video", "svg", "path", "a", "x-y", "br", "table", "td", "textarea", "button", "script type=t src=//x/y", "meta name=z", "link rel=x", "body", "html", "select", "details", "iframe", "circle", "form"]


def wrap(s):
    return "<!DOCTYPE html><html><head><meta charset=utf-8><title>t</title></head><body>" + s + "</body></html>"


def fam(kind, arg):
    if kind == "body":
        yield wrap(arg)
        for b in BODY:
            yield wrap(arg + b)
            yield wrap(arg + "x" + b)
    elif kind == "small":
        if not env.THOROUGH and arg not in QUICK:
            return
        for b in SMALL if env.THOROUGH else QUICK:
            for x in SMALL if env.THOROUGH else QUICK:
                yield wrap(arg + b + x)
                if env.THOROUGH:
                    for y in SMALL:
                        yield wrap(arg + b + x + y)
    elif kind == "head":
        for n in range(0, 3 if env.THOROUGH else 2):
            for t in itertools.product(HEAD, repeat=n):
                h = arg + "".join(t)
                yield "<!DOCTYPE html><html><head>" + h + "</head><body>x</body></html>"
                yield "<!DOCTYPE html>" + h + "x"
    elif kind == "root":
        for n in range(0, 4 if env.THOROUGH else 3):
            for t in itertools.product(ROOT, repeat=n):
                yield arg + "".join(t)
    elif kind == "chars":
        pre, post = arg
        for a in CHARS:
            for b in NEAR:
                yield wrap(pre + a + b + post)
                if env.THOROUGH or b in "&<a":
                    yield wrap(pre + b + a + post)
    elif kind == "attrs":
        for a in ATTRS:
            yield wrap("<%s %s>x" % (arg, a))
            yield wrap("<%s %s/>x" % (arg, a))
            for b in ATTRS if env.THOROUGH else ATTRS[::7]:
                yield wrap("<%s %s %s>x</%s>" % (arg, a, b, arg.split()[0]))


def out_of_scope(doc):
    """Build commands and what the documentation says is rewritten."""
    for i, t in enumerate(doc):
        if t[0] == "Start":
            a = dict(t[2:])
            if t[1] == "style" or t[1] == "script" and ("src" not in a and a.get("type", "").strip().lower() in ("", "module") or (a.get("src") or "").startswith("/") and not a["src"].startswith("//")):
                return True
            if t[1] == "link" and {"stylesheet", "preload", "canonical"} & set((a.get("rel") or "").lower().split()):
                return True
            if t[1] == "meta" and a.get("property") == "og:url":
                return True
    return False


def one(job):
    import gc
    gc.enable()
    kind, arg = job
    bad = []
    n = 0
    it = iter(dict.fromkeys(fam(kind, arg)))
    ex = None
    while True:
        texts = list(itertools.islice(it, 600))
        if not texts:
            break
        docs = []
        for s in texts:
            try:
                s.encode()
                d = htmldom.doc(s)
            except Exception:
                continue        # no valid input
            if not out_of_scope(d):
                docs.append((s, d))
        res = batch.build_many([{"src/public/p/%d.html" % i: s} for i, (s, d) in enumerate(docs)], name="c25", timeout=100)
        for i, ((s, d), r) in enumerate(zip(docs, res)):
            n += 1
            ex = s
            if r[0] != "ok":
                bad.append((s, "the build fails: " + r[1][-400:]))
                continue
            try:
                x = htmldom.first_difference(htmldom.doc(r[1]["p/%d.html" % i]), d)
            except UnicodeDecodeError as e:
                x = str(e)
            if x and htmldom.expressible(d):
                bad.append((s, "published as %r: %s" % (r[1]["p/%d.html" % i].decode("utf-8", "replace"), x)))
        if len(bad) > 30:
            break
    return n, bad[:30], ex


def run(c):
    c.assumptions = ["documents are judged by html5lib (also the parser of the build); the charset declaration, the values of boolean attributes and white space at the end may change; pages which html5lib repairs to a tree no text parses to are left out"]
    jobs = [("chars", x) for x in CTX] + [("attrs", x) for x in ELEMS] + [("body", x) for x in BODY] + [("head", x) for x in HEAD] + [("root", x) for x in ROOT] + [("small", x) for x in SMALL]
    c.cov["rule"] = ("all pairs of %d body fragments, all %s of %d, all sequences of up to %d head and %d root fragments, %d characters with %d neighbours in %d contexts, %d attributes in pairs on %d elements"
                     % (len(BODY), "quadruples" if env.THOROUGH else "triples", len(SMALL if env.THOROUGH else QUICK), 3 if env.THOROUGH else 2, 4 if env.THOROUGH else 3, len(CHARS), len(NEAR), len(CTX), len(ATTRS), len(ELEMS)))
    n = 0
    for job, (k, bad, ex) in env.pmap(one, jobs, deadline=c.deadline):
        n += 1
        c.add(states=k, transitions=k, traces_validated_against_impl=k)
        if ex and n % 30 == 1:
            c.sample({"family": job[0], "page": ex[:300]}, 8)
        for s, why in bad:
            c.violation(s, "page %r: %s" % (s, why), {"page": s, "why": why})
    if n < len(jobs):
        c.cap("time budget reached after %d of %d families" % (n, len(jobs)))
