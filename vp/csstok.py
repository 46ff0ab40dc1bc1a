"""An independent tokenizer following https://www.w3.org/TR/css-syntax-3/ section 4, used as oracle."""
import re

NL = "\n"
WS = "\n\t "
DIG = "0123456789"
HEX = DIG + "abcdefABCDEF"


def preprocess(s):
    s = s.replace("\r\n", "\n").replace("\r", "\n").replace("\f", "\n")
    return re.sub("[\0\ud800-\udfff]", "\ufffd", s)


def ident_start(c):
    return c != "" and (c.isascii() and (c.isalpha() or c == "_") or c >= "\x80")


def ident_cp(c):
    return ident_start(c) or (c != "" and (c in DIG or c == "-"))


class Bad(Exception):
    """A parse error: the text is no valid stylesheet."""


class Tok:
    def __init__(self, s):
        self.s = preprocess(s)
        self.i = 0

    def p(self, k=0):
        j = self.i + k
        return self.s[j] if j < len(self.s) else ""

    def valid_escape(self, k=0):
        return self.p(k) == "\\" and self.p(k + 1) != "\n" and self.p(k + 1) != ""

    def would_start_ident(self, k=0):
        a = self.p(k)
        if a == "-":
            return ident_start(self.p(k + 1)) or self.p(k + 1) == "-" or self.valid_escape(k + 1)
        if ident_start(a):
            return True
        return a == "\\" and self.valid_escape(k)

    def would_start_number(self):
        a, b, c = self.p(), self.p(1), self.p(2)
        if a and a in "+-":
            return (b != "" and b in DIG) or (b == "." and c != "" and c in DIG)
        if a == ".":
            return b != "" and b in DIG
        return a != "" and a in DIG

    def escape(self):
        """after the backslash"""
        c = self.p()
        if c == "":
            raise Bad
        if c in HEX:
            h = ""
            while len(h) < 6 and self.p() != "" and self.p() in HEX:
                h += self.p()
                self.i += 1
            if self.p() != "" and self.p() in WS:
                self.i += 1
            v = int(h, 16)
            if v == 0 or 0xD800 <= v <= 0xDFFF or v > 0x10FFFF:
                return "\ufffd"
            return chr(v)
        self.i += 1
        return c

    def name(self):
        out = ""
        while True:
            c = self.p()
            if ident_cp(c):
                out += c
                self.i += 1
            elif self.valid_escape():
                self.i += 1
                out += self.escape()
            else:
                return out

    def number(self):
        m = re.compile(r"[+-]?(?:[0-9]*\.[0-9]+|[0-9]+)(?:[eE][+-]?[0-9]+)?").match(self.s, self.i)
        r = m.group()
        self.i = m.end()
        kind = "number" if re.search(r"[.eE]", r) else "integer"
        return (kind, float(r) if kind == "number" else int(r), r[0] if r[0] in "+-" else "")

    def string(self, q):
        out = ""
        while True:
            c = self.p()
            if c == "" or c == "\n":
                raise Bad
            self.i += 1
            if c == q:
                return out
            if c == "\\":
                if self.p() == "":
                    raise Bad
                if self.p() == "\n":
                    self.i += 1
                else:
                    out += self.escape()
            else:
                out += c

    def url(self):
        while self.p() != "" and self.p() in WS:
            self.i += 1
        out = ""
        while True:
            c = self.p()
            if c == "":
                raise Bad
            if c == ")":
                self.i += 1
                return ("url", out)
            if c in WS:
                while self.p() != "" and self.p() in WS:
                    self.i += 1
                if self.p() == ")":
                    self.i += 1
                    return ("url", out)
                raise Bad
            if c in "\"'(" or c < " " or c == "\x7f":
                raise Bad
            if c == "\\":
                if not self.valid_escape():
                    raise Bad
                self.i += 1
                out += self.escape()
                continue
            out += c
            self.i += 1

    def ident_like(self):
        n = self.name()
        if n.lower() == "url" and self.p() == "(":
            self.i += 1
            save = self.i
            while self.p() != "" and self.p() in WS:
                self.i += 1
            if self.p() != "" and self.p() in "\"'":
                ws = self.i > save
                self.i = save
                return ("function", n)
            return self.url()
        if self.p() == "(":
            self.i += 1
            return ("function", n)
        return ("ident", n)

    def tokens(self):
        out = []
        while self.i < len(self.s):
            c = self.p()
            if c == "/" and self.p(1) == "*":
                e = self.s.find("*/", self.i + 2)
                if e < 0:
                    raise Bad
                out.append(("comment", self.s[self.i + 2:e]))
                self.i = e + 2
            elif c in WS:
                while self.p() != "" and self.p() in WS:
                    self.i += 1
                out.append(("ws",))
            elif c in "\"'":
                self.i += 1
                out.append(("string", self.string(c)))
            elif c == "#":
                if ident_cp(self.p(1)) or self.valid_escape(1):
                    flag = "id" if self.would_start_ident(1) else "unrestricted"
                    self.i += 1
                    out.append(("hash", flag, self.name()))
                else:
                    self.i += 1
                    out.append(("delim", "#"))
            elif c in "+-." and self.would_start_number() or c in DIG:
                n = self.number()
                if self.would_start_ident():
                    out.append(("dimension",) + n + (self.name(),))
                elif self.p() == "%":
                    self.i += 1
                    out.append(("percentage",) + n)
                else:
                    out.append(("number",) + n)
            elif c == "-" and self.p(1) == "-" and self.p(2) == ">":
                self.i += 3
                out.append(("-->",))
            elif self.would_start_ident():
                out.append(self.ident_like())
            elif c == "<" and self.s[self.i:self.i + 4] == "<!--":
                self.i += 4
                out.append(("<!--",))
            elif c == "@" and self.would_start_ident(1):
                self.i += 1
                out.append(("at", self.name()))
            elif c == "\\":
                raise Bad
            elif c in "()[]{},:;":
                self.i += 1
                out.append((c,))
            else:
                self.i += 1
                out.append(("delim", c))
        return out


def tokens(s):
    """All tokens with comments, or None if the text has a parse error."""
    try:
        return Tok(s).tokens()
    except Bad:
        return None


def significant(toks):
    """Without comments, runs of white space collapsed."""
    out = []
    for t in toks:
        if t[0] == "comment":
            continue
        if t[0] == "ws" and out and out[-1][0] == "ws":
            continue
        out.append(t)
    return out
