"""Views of a published site used by several oracles."""
import base64
import hashlib
import io
import re
import urllib.parse

from . import env

_IMG = re.compile(r"^(.*)/(\d+)/(\d+x\d+\.\w+)$")
_REF = re.compile(rb"(/[^\s\"'`()<>?]+)\?v=([^\"'`()<>\s&]+)&(?:amp;)?pv=(\d+)")


def sha(data):
    return base64.urlsafe_b64encode(hashlib.sha256(data).digest()).decode()


def canonical(www):
    """The published tree up to the numbering of image targets: numbers are replaced by a digest of
    the files of the target, .hash files by whether they are right, versions by whether they are."""
    groups = {}
    for p, d in www.items():
        m = _IMG.match(p)
        if m and m.group(1).startswith("img"):
            groups.setdefault((m.group(1), m.group(2)), []).append((m.group(3), hashlib.sha256(d).hexdigest()))
    names = {k: "#" + hashlib.sha256(repr(sorted(v)).encode()).hexdigest()[:10] for k, v in groups.items()}
    out = {}
    for p, d in www.items():
        m = _IMG.match(p)
        if m and (m.group(1), m.group(2)) in names:
            q = "%s/%s/%s" % (m.group(1), names[(m.group(1), m.group(2))], m.group(3))
            out[q] = d
            continue
        if p.endswith(".hash"):
            t = www.get(p[:-5])
            if t is not None:
                out[p] = b"right" if d == sha(t).encode() else b"WRONG " + d
                continue
        if p.endswith((".html", ".js", ".css")):
            for (pre, num), nm in names.items():
                d = d.replace(("/%s/%s/" % (pre, num)).encode(), ("/%s/%s/" % (pre, nm)).encode())

            def fix(mm):
                t = www.get(urllib.parse.unquote(mm.group(1).decode("utf-8", "replace"))[1:])
                v = urllib.parse.unquote(mm.group(2).decode())
                if t is not None and v == sha(t):
                    return mm.group(1) + b"?v=RIGHT&pv=" + mm.group(3)
                return mm.group(0)
            d = _REF.sub(fix, d)
        out[p] = d
    return out


_PNG = {}


def png(w, h, colour=(200, 30, 30), fmt="PNG"):
    """A small deterministic picture whose pixels encode their position."""
    k = (w, h, colour, fmt)
    if k not in _PNG:
        from PIL import Image
        im = Image.new("RGB", (w, h))
        px = im.load()
        for y in range(h):
            for x in range(w):
                px[x, y] = ((colour[0] + x * 7) % 256, (colour[1] + y * 5) % 256, (colour[2] + x + y) % 256)
        b = io.BytesIO()
        im.save(b, format=fmt)
        _PNG[k] = b.getvalue()
    return _PNG[k]


def artifacts(tree):
    """Kept artifacts up to the numbering of the targets of one picture: picture -> the sorted files of its targets."""
    out = {}
    for f, d in tree.items():
        m = re.match(r"(.*)/(\d+)/(.+)$", f)
        if d is None:
            continue
        if m is None:
            out.setdefault(f, d)
            continue
        d = d.replace(("%s/%s/" % m.group(1, 2)).encode(), ("%s/#/" % m.group(1)).encode())
        out.setdefault(m.group(1), {}).setdefault(m.group(2), {})[m.group(3)] = d
    return {k: v if isinstance(v, bytes) else sorted(sorted(t.items()) for t in v.values()) for k, v in out.items()}
