"""C27: the look-ahead readers, explored over every text, chunking and call sequence within bounds.

State space: for each text over a small alphabet (up to a length), for each way the underlying
stream splits it, a depth-first exploration of every sequence of calls drawn from
{peek(k), read(k), read(-1), peek(-1)}; the reference is a cursor into the normalised text."""
import io
import itertools
import re

from vp import env

ALPHA = ["a", "\n", "\r", "\f", "\ud800", "é"]


def normalise(t):
    t = re.sub("\r\n|\r|\f", "\n", t)
    return re.sub("[\ud800-\udfff]", "\ufffd", t)


class Raw(io.RawIOBase):
    """A raw byte stream that hands out at most k bytes at a time."""

    def __init__(self, data, k):
        self.data, self.k, self.i = data, k, 0

    def readable(self):
        return True

    def readinto(self, b):
        n = min(len(b), self.k, len(self.data) - self.i)
        b[:n] = self.data[self.i:self.i + n]
        self.i += n
        return n


def streams(text):
    yield "StringIO", lambda: io.StringIO(text, newline="")
    for k in (1, 2):
        data = text.encode("utf-8", "surrogatepass")

        def make(data=data, k=k):
            w = io.TextIOWrapper(io.BufferedReader(Raw(data, k), buffer_size=max(k, 1)), encoding="utf-8",
                                 errors="surrogatepass", newline="")
            w._CHUNK_SIZE = k
            return w
        yield "chunks of %d bytes" % k, make


def readers():
    from vanillaplusjs.build.ioutil import PeekableTextIO, PreprocessedTextIO
    yield "PeekableTextIO", PeekableTextIO, lambda t: t
    yield "PreprocessedTextIO", (lambda fp: PreprocessedTextIO(PeekableTextIO(fp))), normalise


OPS = [("peek", 1), ("read", 1), ("peek", 2), ("read", 2), ("peek", 3), ("read", 3), ("peek", -1), ("read", -1)]


def run_calls(mk, wrap, want, calls):
    """Returns (problem or None). The reference: a cursor into `want`."""
    r = wrap(mk())
    pos = 0
    trace = []
    for op, n in calls:
        got = getattr(r, op)(n)
        rest = want[pos:]
        exp = rest if n < 0 else rest[:n]
        trace.append((op, n, got))
        # a peek may show more than asked for only as far as the text itself goes on; at the end both
        # None and "" are an end report
        if not exp:
            if got:
                return "after %r: expected end of input" % (trace,)
        elif got != exp:
            return "after %r: expected %r" % (trace, exp)
        if op == "read":
            pos += len(exp)
    return None


def one(job):
    texts, depth = job
    states = 0
    trans = 0
    execs = 0
    bad = []
    outcomes = set()
    for text in texts:
        for sname, mk in streams(text):
            for rname, wrap, norm in readers():
                want = norm(text)
                # depth first over call sequences; sequences that read nothing more are cut at the end
                for calls in itertools.product(OPS, repeat=depth):
                    # prune: nothing new after read(-1) except one call
                    k = next((i for i, c in enumerate(calls) if c == ("read", -1)), None)
                    if k is not None and any(c != ("read", 1) for c in calls[k + 1:]):
                        continue
                    p = run_calls(mk, wrap, want, calls)
                    execs += 1
                    trans += len(calls)
                    outcomes.add(want)
                    if p:
                        bad.append((rname, sname, text, calls, p))
                        if len(bad) > 5:
                            return execs, trans, len(outcomes), bad
                # whole-text sequences: repeated reads of every size with a peek before each
                for n in (1, 2, 3, 4):
                    for pk in (None, 1, 2, 3, 5):
                        calls = []
                        for _ in range(len(want) // n + 2):
                            if pk:
                                calls.append(("peek", pk))
                            calls.append(("read", n))
                        p = run_calls(mk, wrap, want, calls)
                        execs += 1
                        trans += len(calls)
                        if p:
                            bad.append((rname, sname, text, calls, p))
                            if len(bad) > 5:
                                return execs, trans, len(outcomes), bad
    return execs, trans, len(outcomes), bad


def run(c):
    depth = 4 if env.THOROUGH else 3
    maxlen = 5 if env.THOROUGH else 4
    texts = []
    for n in range(maxlen + 1):
        for t in itertools.product(ALPHA if n < 4 else ALPHA[:4], repeat=n):
            texts.append("".join(t))
    c.cov["rule"] = ("all texts over %d characters up to length %d; 3 chunkings; all sequences of %d calls, and whole-text "
                     "read loops with every peek/read size" % (len(ALPHA), maxlen, depth))
    c.assumptions = ["the underlying object keeps the io.TextIOBase contract (read(n) is short only at the end)"]
    jobs = [(texts[i::64], depth) for i in range(64)]
    seen = set()
    for job, (execs, trans, outc, bad) in env.pmap(one, jobs, deadline=c.deadline):
        c.add(states=execs, transitions=trans, traces_validated_against_impl=execs, distinct_outcomes=outc)
        for rname, sname, text, calls, p in bad:
            key = "%s:%r" % (rname, text)
            if key not in seen:
                seen.add(key)
                c.violation(key, "%s over %s of %r: %s" % (rname, sname, text, p),
                            {"reader": rname, "stream": sname, "text": ascii(text), "calls": calls})
    c.sample({"texts": len(texts), "example": ascii(texts[-1]), "depth": depth})
