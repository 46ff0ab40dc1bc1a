"""Documents as seen by html5lib, in a canonical form."""
import html5lib
from html5lib.constants import booleanAttributes

_W = html5lib.getTreeWalker("dom")


def doc(text, keep_charset=False):
    """Token list of the parsed document: text merged, attributes sorted, values of boolean attributes
    dropped, white space after the last element dropped; the charset declaration is left out."""
    p = html5lib.HTMLParser(html5lib.treebuilders.getTreeBuilder("dom"), namespaceHTMLElements=False)
    if isinstance(text, bytes):
        text = text.decode("utf-8")
    d = p.parse(text)
    out = []
    for t in _W(d):
        k = t["type"]
        if k in ("Characters", "SpaceCharacters"):
            if out and out[-1][0] == "text":
                out[-1] = ("text", out[-1][1] + t["data"])
            else:
                out.append(("text", t["data"]))
        elif k in ("StartTag", "EmptyTag"):
            n = t["name"]
            b = booleanAttributes.get(n, frozenset()) | booleanAttributes[""]
            a = tuple(sorted((str(kk[1]), None if kk[1] in b else v) for kk, v in t["data"].items()))
            if n == "meta" and not keep_charset and (any(x == "charset" for x, v in a) or any(x == "http-equiv" and v and v.lower() == "content-type" for x, v in a)):
                continue
            out.append((k[:5], n) + a)
            if k == "EmptyTag":
                out.append(("EndTa", n))
        elif k == "EndTag":
            out.append(("EndTa", t["name"]))
        elif k == "Comment":
            out.append(("comment", t["data"]))
        elif k == "Doctype":
            out.append(("doctype", t["name"] or "none", t.get("publicId") or "", t.get("systemId") or ""))
        else:
            out.append((k, str(t.get("data"))))
    d.unlink()
    # merge text around left-out elements, trailing white space
    res = []
    for t in out:
        t = tuple("Start" if x == "Empty" else x for x in t)
        if t[0] == "text" and res and res[-1][0] == "text":
            res[-1] = ("text", res[-1][1] + t[1])
        else:
            res.append(t)
    # the line break written after the document
    for end in (("EndTa", "body"), ("EndTa", "html")):
        for i in range(len(res) - 1, 0, -1):
            if res[i] == end:
                if res[i - 1][0] == "text":
                    t = res[i - 1][1].rstrip(" \t\n\r\f")
                    res[i - 1:i] = [("text", t)] if t else []
                break
    return res


def first_difference(got, want):
    import itertools
    for i, (a, b) in enumerate(itertools.zip_longest(got, want)):
        if a != b:
            return "%r instead of %r (after %r)" % (a, b, want[max(0, i - 2):i])
    return None


RAW = {"script", "style", "xmp", "iframe", "noembed", "noframes"}


def text_of(tokens):
    """The tokens of doc() as a document text."""
    import html
    out = []
    names = []
    for i, t in enumerate(tokens):
        if t[0] == "text":
            s = t[1] if names and names[-1] in RAW else html.escape(t[1], quote=False).replace("\r", "&#13;")
            if i and tokens[i - 1][0] == "Start" and tokens[i - 1][1] in ("pre", "listing", "textarea"):
                s = "\n" + s
            out.append(s)
        elif t[0] == "Start":
            out.append("<" + t[1] + "".join(' %s="%s"' % (k, html.escape(v or "").replace("\r", "&#13;")) for k, v in t[2:]) + ">")
            names.append(t[1])
        elif t[0] == "EndTa":
            if t[1] not in html_void:
                out.append("</" + t[1] + ">")
            names.pop()
        elif t[0] == "comment":
            out.append("<!--" + t[1] + "-->")
        elif t[0] == "doctype":
            out.append("<!DOCTYPE " + t[1] + (' PUBLIC "%s"' % t[2] if t[2] else " SYSTEM" if t[3] else "") + (" '%s'" % t[3] if '"' in t[3] else ' "%s"' % t[3] if t[3] else "") + ">")
    return "".join(out)


html_void = {"base", "command", "event-source", "link", "meta", "hr", "br", "img", "embed", "param", "area", "col", "input", "source", "track", "wbr", "basefont", "bgsound", "frame", "keygen", "image"}


def expressible(d):
    """Whether any text parses to this document (some results of error recovery are not)."""
    try:
        return doc(text_of(d)) == d
    except Exception:
        return False
