"""C15: image commands publish complete pictures with correct sizes and choices.

State space: (a) every combination of source size, requested size, crop percentage and minimum crop of a
grid for the crop function; (b) real builds of every combination of source size, requested size, crop
arguments, step, maximum and export settings of a grid, with every spelling of the command; (c) every command
of an alphabet that asks for something impossible; (d) every ordered pair of project states (picture, command,
build mode), built incrementally.
Oracle: a model of the promised sizes, crop rectangles and encodings, judged on the decoded published files;
the pixels of the sources encode their coordinates."""
import fractions
import inspect
import io
import itertools
import json
import re
from urllib.parse import unquote

from vp import env, htmldom

F = fractions.Fraction
PNG = {"c0": {"compress_level": 0}, "c9": {"compress_level": 9}, "c1": {"compress_level": 1}}


def png_exports(spec):
    """spec: [(name, level, preference, min area, max area)]"""
    return {n: {"min_area_px2": lo, "max_area_px2": hi, "preference": pref, "formatter_kwargs": {"compress_level": lv}} for n, lv, pref, lo, hi in spec}


WEBP = {"exports": {"lossless": {"min_area_px2": None, "max_area_px2": None, "preference": 8, "formatter_kwargs": {"quality": 100, "method": 0, "lossless": True}}}, "minimum_unit_size_bytes": 85000}


def settings(exports, unit=0, step="0.5", maximum=2, webp=None, default="png"):
    f = {"png": {"exports": png_exports(exports), "minimum_unit_size_bytes": unit}}
    if webp:
        f["webp"] = dict(WEBP, exports={k: dict(v, **(webp if isinstance(webp, dict) else {})) for k, v in WEBP["exports"].items()})
    return {"formats": f, "default_format": default, "maximum_resolution": maximum, "resolution_step": step}


# --------------------------------------------------------------------------- the model
def usable(w, h, crop):
    return w - crop.get("pre_left_crop", 0) - crop.get("pre_right_crop", 0), h - crop.get("pre_top_crop", 0) - crop.get("pre_bottom_crop", 0)


def sizes(conf, uw, uh, w, h):
    out = []
    r = F(str(conf["resolution_step"]))
    k = F(1)
    while w * k <= uw and h * k <= uh and k <= conf["maximum_resolution"]:
        s = (int(w * k), int(h * k))
        if not out or out[-1] != s:
            out.append(s)
        k += r
    return out


def rects(sw, sh, dw, dh, px, py):
    """Every acceptable integer rectangle (x, y, w, h) for the ideal cover fit."""
    px, py = F(px), F(py)

    def ints(v):
        return {v.numerator // v.denominator, -(-v.numerator // v.denominator)}
    if F(sw, sh) > F(dw, dh):
        return {(x, 0, w, sh) for w in ints(F(dw * sh, dh)) if 0 < w <= sw for x in ints((sw - w) * px) if 0 <= x <= sw - w}
    if F(sw, sh) < F(dw, dh):
        return {(0, y, sw, h) for h in ints(F(dh * sw, dw)) if 0 < h <= sh for y in ints((sh - h) * py) if 0 <= y <= sh - h}
    return {(0, 0, sw, sh)}


def crop_rects(w, h, dw, dh, crop):
    uw, uh = usable(w, h, crop)
    l, t = crop.get("pre_left_crop", 0), crop.get("pre_top_crop", 0)
    return {(x + l, y + t, a, b) for x, y, a, b in rects(uw, uh, dw, dh, crop.get("crop_left_percentage", 0.5), crop.get("crop_top_percentage", 0.5))}


def applicable(conf, fmt, size):
    a = size[0] * size[1]
    return [n for n, e in conf["formats"][fmt]["exports"].items() if (e["min_area_px2"] is None or a >= e["min_area_px2"]) and (e["max_area_px2"] is None or a <= e["max_area_px2"])]


_SRC = {}


def source(w, h, kind=0):
    """A picture whose pixels encode their coordinates; kinds differ in blue."""
    k = (w, h, kind)
    if k not in _SRC:
        from PIL import Image
        im = Image.new("RGB", (w, h))
        px = im.load()
        for y in range(h):
            for x in range(w):
                px[x, y] = (x * 255 // max(1, w - 1), y * 255 // max(1, h - 1), 40 + 60 * kind)
        b = io.BytesIO()
        im.save(b, format="PNG")
        _SRC[k] = b.getvalue()
    return _SRC[k]


def shows(im, rect, w, h):
    """None if the decoded picture shows the rectangle of source(w, h), else how it differs."""
    x0, y0, rw, rh = rect
    ow, oh = im.size
    worst = 0
    for ch, o, span, n in ((0, x0, rw, w), (1, y0, rh, h)):
        if n == 1:
            continue
        scale = F(span, ow if ch == 0 else oh)
        cnt = ow if ch == 0 else oh
        errs = []
        for i in range(cnt):
            vals = [im.getpixel((i, j) if ch == 0 else (j, i))[ch] for j in range(oh if ch == 0 else ow)]
            if max(vals) - min(vals) > 2:
                return 99.0
            ideal = o + (i + 0.5) * float(scale) - 0.5
            errs.append(vals[0] * (n - 1) / 255.0 - ideal)
        q = (n - 1) / 255.0
        mean = sum(errs) / cnt
        mx = max(abs(e) for e in errs)
        worst = max(worst, abs(mean) / (0.35 + q), mx / (0.5 * float(scale) + 0.5 + q))
    return worst


def picture(page):
    """[(tag, attributes)] of the single picture of the marked paragraph, in order"""
    toks = htmldom.doc(page)
    out, inside = [], None
    for t in toks:
        if t[0] == "Start" and t[1] == "picture":
            inside = []
        elif t[0] == "EndTa" and t[1] == "picture":
            out.append(inside)
            inside = None
        elif inside is not None and t[0] == "Start":
            inside.append((t[1], dict(t[2:])))
        elif inside is not None and t[0] == "text" and t[1].strip():
            inside.append(("text", t[1]))
    return out


def srcset(v):
    return [tuple(x.split(" ")) for x in v.split(", ")]


def judge_set(www, conf, fmt, want, got, src, cmd):
    """got: [(url, width, height or None)] of one format; want: the sizes"""
    from PIL import Image
    bad = []
    w, h, kind = src
    rw, rh, crop, lazy = cmd
    if [g[1] for g in got] != [s[0] for s in want]:
        return ["the %s files have the widths %r instead of %r" % (fmt, [g[1] for g in got], [s[0] for s in want])]
    if len({g[0] for g in got}) != len(got):
        return ["the same file is listed twice: %r" % (got,)]
    for (url, _, gh), size in zip(got, want):
        data = www.get(unquote(url)[1:])
        if data is None:
            bad.append("%s does not exist" % url)
            continue
        try:
            im = Image.open(io.BytesIO(data))
            im.load()
        except Exception as e:
            bad.append("%s does not decode: %s" % (url, e))
            continue
        if im.format.lower() != fmt or im.size != size or (gh is not None and gh != size[1]):
            bad.append("%s is a %s of %r instead of a %s of %r" % (url, im.format, im.size, fmt, size))
            continue
        im = im.convert("RGB")
        if {im.getpixel((i, j))[2] // 30 for i in range(size[0]) for j in range(size[1])} != {(40 + 60 * kind) // 30}:
            bad.append("%s shows another picture" % url)
            continue
        rs = crop_rects(w, h, size[0], size[1], crop)
        best = min(shows(im, r, w, h) for r in rs)
        if best > 1:
            bad.append("%s does not show %r of the %dx%d picture (off by %.2f)" % (url, sorted(rs), w, h, best))
            continue
        if fmt == "png":
            scores = {}
            f = conf["formats"][fmt]
            for n in applicable(conf, fmt, size):
                b = io.BytesIO()
                im.save(b, format=fmt, **f["exports"][n]["formatter_kwargs"])
                scores[n] = (F(max(len(b.getvalue()), f["minimum_unit_size_bytes"]), f["exports"][n]["preference"]), b.getvalue())
            m = min(s for s, d in scores.values())
            if data not in [d for s, d in scores.values() if s == m]:
                bad.append("%s is encoded as %s though the scores are %s" % (url, [n for n, (s, d) in scores.items() if d == data], {n: float(s) for n, (s, d) in scores.items()}))
    return bad


def expected(conf, src, cmd):
    """{format: sizes} or None if the command cannot be satisfied"""
    w, h, kind = src
    rw, rh, crop, lazy = cmd
    uw, uh = usable(w, h, crop)
    if not (0 < rw <= uw and 0 < rh <= uh):
        return None
    all_ = sizes(conf, uw, uh, rw, rh)
    per = {}
    for f in conf["formats"]:
        s = [x for x in all_ if applicable(conf, f, x)]
        if s:
            per[f] = s
    if conf["default_format"] not in per or per[conf["default_format"]][:1] != all_[:1]:
        return None
    return per


def judge(www, conf, pic, src, cmd):
    per = expected(conf, src, cmd)
    if [t for t, a in pic] != ["source"] * (len(per) - 1) + ["img"]:
        return ["the picture contains %r for the formats %r" % ([t for t, a in pic], sorted(per))]
    img = pic[-1][1]
    bad = []
    if img.get("width") != str(cmd[0]) or img.get("height") != str(cmd[1]):
        bad.append("the img is %sx%s instead of %dx%d" % (img.get("width"), img.get("height"), cmd[0], cmd[1]))
    if (img.get("loading") == "lazy") != cmd[3] or img.get("loading") not in (None, "lazy", "eager"):
        bad.append("the img loads %r" % img.get("loading"))
    d = conf["default_format"]
    sets = {d: srcset(img["srcset"])}
    if img["src"] != sets[d][0][0]:
        bad.append("the src is %s, the smallest file is %s" % (img["src"], sets[d][0][0]))
    for t, a in pic[:-1]:
        s = srcset(a["srcset"])
        f = s[0][0].rsplit(".", 1)[-1]
        if f in sets:
            bad.append("two sources of the format %s" % f)
        sets[f] = s
    if set(sets) != set(per):
        return bad + ["the formats are %r instead of %r" % (sorted(sets), sorted(per))]
    for f, s in sets.items():
        got = []
        for e in s:
            if len(e) != 2 or not re.fullmatch(r"\d+w", e[1]):
                return bad + ["unexpected candidate %r" % (e,)]
            got.append((e[0], int(e[1][:-1]), None))
        bad += judge_set(www, conf, f, per[f], got, src, cmd)
    return bad


# --------------------------------------------------------------------------- (a) the crop function
def cover_grid(dims):
    """Every source, request and crop of the grid for one source size."""
    from vanillaplusjs.build.html.manips.images.cover_fit import cover_fit
    n, bad = 0, []
    sw, sh, pre, pcts = dims
    lim_w, lim_h = usable(sw, sh, pre)
    for dw in range(1, lim_w + 1):
        for dh in range(1, lim_h + 1):
            for px, py in pcts:
                n += 1
                kw = dict(pre)
                kw.update(crop_left_percentage=px, crop_top_percentage=py)
                try:
                    got = tuple(cover_fit(source_width=sw, source_height=sh, dest_width=dw, dest_height=dh, **kw))
                except Exception as e:
                    got = repr(e)
                if got not in crop_rects(sw, sh, dw, dh, kw):
                    bad.append((json.dumps(["cover", sw, sh, dw, dh, kw]), "the crop of %dx%d for %dx%d with %r is %r" % (sw, sh, dw, dh, kw, got)))
    return n, bad[:5]


# --------------------------------------------------------------------------- (b) builds
def spell(path, cmd, form):
    w, h, crop, lazy = cmd
    j = json.dumps(crop)
    end = [] if lazy else ["eager"]
    if form == 0:
        return "[IMAGE: %s]" % " ".join([path, str(w), str(h)] + ((["cover"] + ([j] if crop else []) + end) if crop or end else []))
    if form == 1:
        return "  [ IMAGE :   %s  ] " % "   ".join([path, str(w), str(h), "cover", json.dumps(crop, indent=None, separators=(" , ", " : "))] + ([["lazy"], ["eager"]][not lazy]))
    if form == 2:
        return "[IMAGE:\t%s]" % "\t".join([path, str(w), str(h), "cover", json.dumps(crop, separators=(",", ":"))] + ([["lazy "], ["eager "]][not lazy]))
    return "\n[IMAGE: %s]\n" % " ".join([path, str(w), str(h), "cover", "{ " + j[1:-1] + " }"] + end)


FORMS = 4


def page(text):
    return "<!DOCTYPE html><html><head><title>t</title></head><body><p>a</p>%s<p>b</p></body></html>" % text


def grid(job):
    """One configuration, several (source, command) pairs, each in its own page."""
    conf, dev, form, items = job
    p = env.Project("c15", config=env.default_config(images=conf))
    src = {}
    for i, (s, cmd) in enumerate(items):
        name = "img/p%dx%dk%d" % s + ("", "#1", "%2f", "?y=1")[form] + ".png"
        src["src/public/" + name] = source(*s)
        sub, path = [("a/b", "../../" + name), ("a", "/" + name), ("a", "../" + name), ("a/b/c", "/./a/../" + name)][(i + form) % 4]
        src["src/public/%s/x%d.html" % (sub, i)] = page("<!--%s-->" % spell(path, cmd, form))
    p.set_sources(src)
    p.clear_generated()
    o = p.build(dev=dev, symlinks=dev, timeout=120)
    if not o.ok:
        if len(items) > 1:
            a, b = grid((conf, dev, form, items[:len(items) // 2])), grid((conf, dev, form, items[len(items) // 2:]))
            return a[0] + b[0], a[1] + b[1]
        if expected(conf, *items[0]) is None:
            return 1, [] if o.kind == "exc" else [(json.dumps([conf, dev, form, items[0]]), "a command which cannot be satisfied is not refused (%s)" % o.kind)]
        return 1, [(json.dumps([conf, dev, form, items[0]]), "the build fails: " + o.detail[-300:])]
    www = p.www()
    bad = []
    used = set()
    for i, (s, cmd) in enumerate(items):
        key = json.dumps([conf, dev, form, (s, cmd)])
        if expected(conf, s, cmd) is None:
            bad.append((key, "the build succeeds although the command cannot be satisfied"))
            continue
        html = [d for f, d in www.items() if f.endswith("/x%d.html" % i)]
        pics = picture(html[0])
        if len(pics) != 1:
            bad.append((key, "the page contains %d pictures" % len(pics)))
            continue
        try:
            bad += [(key, w) for w in judge(www, conf, pics[0], s, cmd)]
        except (KeyError, IndexError, ValueError) as e:
            bad.append((key, "the picture is malformed (%r): %r" % (e, pics[0])))
        for t, a in pics[0]:
            used |= {unquote(u[0])[1:] for u in srcset(a["srcset"])} if isinstance(a, dict) and "srcset" in a else set()
    for f in www:
        if re.match(r"img/p\d+x\d+k\d[^/]*/", f) and f not in used:
            bad.append((json.dumps([conf, dev, form, [list(x) for x in items]]), "%s is published without being used" % f))
    return len(items), bad[:6]


# --------------------------------------------------------------------------- (c) impossible requests
def impossible():
    ok = "/img/p.png"
    for args in (["21 10"], ["10 21"], ["0 10"], ["10 0"], ["-1 10"], ["10 -1"], ["10.5 10"], ["x 10"], ["10"], [""]):
        yield "%s %s" % (ok, args[0])
    for crop in ({"pre_left_crop": 11}, {"pre_top_crop": 11}, {"pre_left_crop": 6, "pre_right_crop": 5}, {"pre_top_crop": 6, "pre_bottom_crop": 5}, {"pre_left_crop": -1}, {"pre_bottom_crop": -3},
                 {"pre_left_crop": 1.5}, {"pre_left_crop": "1"}, {"crop_left_percentage": 1.01}, {"crop_left_percentage": -0.01}, {"crop_top_percentage": 2}, {"crop_top_percentage": "x"}, {"unknown": 1}, {"pre_top_crop": None},
                 {"pre_left_crop": 20}, {"pre_left_crop": 1000}):
        yield "%s 10 10 cover %s" % (ok, json.dumps(crop))
    yield ok + " 10 10 contain"
    yield ok + " 10 10 cover {"
    yield ok + " 10 10 cover {}}"
    yield ok + " 10 10 cover []"
    yield ok + " 10 10 cover {\"a\": }"
    yield ok + " 10 10 cover {} sometimes"
    for path in ("/img/none.png", "/../p.png", "../../p.png", "/img", "/img/", "/img/t.txt", "/x.html", "../x.png", "/../../vanillaplusjs.json"):
        yield path + " 10 10"


def refuse(args):
    p = env.Project("c15r", config=env.default_config(images=settings([("a", 9, 1, None, None)])))
    p.set_sources({"src/public/img/p.png": source(20, 20), "src/p.png": source(20, 20), "src/public/img/t.txt": "no", "src/public/x.html": page("<!--[IMAGE: %s]-->" % args)})
    p.clear_generated()
    o = p.build(timeout=60)
    return 1, ([] if o.kind == "exc" else [(json.dumps(["refuse", args]), "[IMAGE: %s] is not refused (%s)" % (args, o.kind))])


# --------------------------------------------------------------------------- (d) histories
HCMD = [(10, 10, {}, True), (10, 10, {"crop_left_percentage": 0}, False), (16, 10, {}, True), (10, 10, {"pre_top_crop": 4}, True)]
HSRC = [(30, 20, 0), (30, 20, 1), (20, 30, 0), (44, 21, 0)]


def history_states():
    """A state: (picture, commands of page a, commands of page b, dev)"""
    for s in range(len(HSRC)):
        for a, b in (((0,), ()), ((0,), (0,)), ((1,), (0,)), ((2, 0), (3,)), ((), (1, 3)), ((3, 0, 3), ())):
            for dev in (0, 1):
                yield s, a, b, dev


HCONF = settings([("c0", 0, 3, None, None), ("c9", 9, 1, None, 240)], unit=0, step="0.5", maximum=2, webp=True)


def history(jobs):
    p = env.Project("c15h", config=env.default_config(images=HCONF))
    n, bad = 0, []

    def put(st):
        s, a, b, dev = st
        p.set_sources({"src/public/img/p.png": source(*HSRC[s]), **{"src/public/%s.html" % nm: page("".join("<!--%s-->" % spell("/img/p.png", HCMD[c], k % FORMS) for k, c in enumerate(cs))) for nm, cs in (("a", a), ("b", b))}})
        return p.build(dev=bool(dev), symlinks=bool(dev), timeout=60)

    def check(st, path):
        s, a, b, dev = st
        www = p.www()
        used = set()
        for nm, cs in (("a", a), ("b", b)):
            pics = picture(www[nm + ".html"])
            if len(pics) != len(cs):
                bad.append((json.dumps(path), "%s.html has %d pictures instead of %d" % (nm, len(pics), len(cs))))
                continue
            for pic, c in zip(pics, cs):
                bad.extend((json.dumps(path), w) for w in judge(www, HCONF, pic, HSRC[s], HCMD[c]))
                used |= {unquote(u[0])[1:] for t, at in pic for u in srcset(at["srcset"])}
        extra = [f for f in www if f.startswith("img/p/") and f not in used]
        if extra:
            bad.append((json.dumps(path), "%r are left over" % extra))
    for path in jobs:
        p.clear_generated()
        for i, st in enumerate(path):
            o = put(st)
            n += 1
            if not o.ok:
                bad.append((json.dumps(path[:i + 1]), "the build fails: " + o.detail[-300:]))
                break
            if i == len(path) - 1:
                check(st, path)
    return n, bad[:6]


def reconfigured(jobs):
    """Builds that keep the artifacts of a build with other settings."""
    n, bad = 0, []
    for (mode, path) in jobs:
        p = env.Project("c15s", config=env.default_config(images=path[0][0]))
        p.clear_generated()
        for k, (conf, src, cmds) in enumerate(path):
            p.write_config(env.default_config(images=conf))
            if k and mode == "no out":
                env.wipe(p.path("out"))
            p.set_sources({"src/public/img/p.png": source(*src), "src/public/a.html": page("".join("<!--%s-->" % spell("/img/p.png", c, 0) for c in cmds) + ("x" * k if mode == "edited" else ""))})
            o = p.build(timeout=60)
            n += 1
            if k == len(path) - 1 and any(expected(conf, src, x) is None for x in cmds):
                if o.kind != "exc":
                    bad.append((json.dumps([mode, path]), "after a change of the settings (%s): a command which cannot be satisfied is not refused (%s)" % (mode, o.kind)))
                break
            if not o.ok:
                bad.append((json.dumps([mode, path]), "with other settings (%s), build %d fails: %s" % (mode, k, o.detail[-300:])))
                break
        else:
            www = p.www()
            pics = picture(www["a.html"])
            used = {unquote(u[0])[1:] for pic in pics for t, at in pic for u in srcset(at["srcset"])}
            why = [w for pic, c in zip(pics, cmds) for w in judge(www, conf, pic, src, c)]
            if len(pics) != len(cmds):
                why.append("%d pictures instead of %d" % (len(pics), len(cmds)))
            extra = [f for f in www if f.startswith("img/p/") and f not in used]
            if extra:
                why.append("%r are left over" % extra)
            bad += [(json.dumps([mode, path]), "after a change of the settings (%s): %s" % (mode, w)) for w in why]
    return n, bad[:6]


def setting_states():
    e = [[("c0", 0, 3, None, None), ("c9", 9, 1, None, 240)], [("c0", 0, 1, None, None), ("c9", 9, 3, None, 240)], [("c9", 9, 1, None, None)], [("c1", 1, 1, None, None)], [("c9", 9, 3, None, None), ("c0", 0, 3, None, None)]]
    base = dict(unit=0, step="0.5", maximum=2)
    out = [settings(x, **base) for x in e]
    out += [settings(e[0], **dict(base, **o)) for o in ({"unit": 300}, {"step": 1}, {"step": "0.25"}, {"maximum": 1}, {"maximum": 3}, {"webp": True}, {"webp": {"max_area_px2": 120}})]
    out += [settings(e[0], webp=True, default="webp", **base)]
    return out


def near_states(thorough):
    """Settings which differ little, numerically, from the base ones, so that a short summary of them could be the same."""
    def near(lo, hi, pref):
        return settings([("a", 9, pref, lo, hi)], unit=85000, step="1", maximum=2)
    base = near(10, 49, 3)
    if thorough:
        for lo, hi, pref in [(10 + a, 49 + b, 3) for a in range(-3, 4) for b in range(-64, 65)] + [(10, 49 + a, 3 + b) for a in range(-40, 41) for b in range(-2, 3)] + [(10 + a, 49, 3 + b) for a in range(-9, 40) for b in range(-2, 3)]:
            if lo <= hi and (lo, hi, pref) != (10, 49, 3):
                yield base, near(lo, hi, pref)
    else:
        for lo, hi in [(9, 80), (11, 18), (9, 81), (10, 80), (11, 80), (8, 111), (12, 80), (10, 19), (21, 49), (7, 142), (9, 79), (None, None), (10, None), (9, 49)]:
            yield base, near(lo, hi, 3)


EXPORTS = [
    [("a", 9, 1, None, None)],
    [("c0", 0, 3, None, None), ("c9", 9, 2, None, None)],
    [("c9", 9, 2, None, None), ("c0", 0, 3, None, None), ("c1", 1, 2, None, None)],
    [("c0", 0, 1, None, 150), ("c9", 9, 1, 151, None)],
    [("c9", 9, 1, 100, 300), ("c0", 0, 9, 50, None), ("c1", 1, 5, None, 120)],
    [("c9", 9, 1, None, 80)],
    [("big", 9, 1, 200, None)],
]


def confs():
    for e in EXPORTS:
        for unit in (0, 200, 85000):
            yield settings(e, unit)
    for step, mx in itertools.product(("0.25", 1, "0.3", 2, 0.5, "1.5"), (1, 2, 3)):
        yield settings(EXPORTS[0], 0, step, mx)
    for w in (True, {"min_area_px2": 120}, {"max_area_px2": 120}, {"min_area_px2": 10 ** 7}):
        yield settings(EXPORTS[3], 0, webp=w)
        yield settings(EXPORTS[0], 0, webp=w, step=1, maximum=3)
    yield settings(EXPORTS[0], 0, webp=True, default="webp")
    yield settings(EXPORTS[3], 0, webp={"min_area_px2": 120}, default="webp")


CROPS = [{}, {"crop_left_percentage": 0}, {"crop_left_percentage": 1, "crop_top_percentage": 1}, {"crop_left_percentage": 0.25, "crop_top_percentage": 0.8}, {"pre_left_crop": 3}, {"pre_top_crop": 2, "pre_right_crop": 4},
         {"pre_left_crop": 5, "pre_right_crop": 1, "pre_top_crop": 1, "pre_bottom_crop": 3, "crop_left_percentage": 0, "crop_top_percentage": 0.1}, {"pre_bottom_crop": 6, "crop_top_percentage": 1}]


def run(c):
    thorough = env.THOROUGH
    n = 0
    # (a)
    try:
        from vanillaplusjs.build.html.manips.images.cover_fit import cover_fit
        par = set(inspect.signature(cover_fit).parameters)
        have = {"source_width", "source_height", "dest_width", "dest_height", "crop_left_percentage", "crop_top_percentage", "pre_top_crop", "pre_left_crop", "pre_bottom_crop", "pre_right_crop"} <= par
    except ImportError:
        have = False
    if have:
        N = 40 if thorough else 26
        pct = [(a, a) for a in (0, 0.25, 0.5, 1)] + [(0.1, 0.9), (1 / 3, 0.7)]
        pres = [{}, {"pre_left_crop": 1}, {"pre_top_crop": 2, "pre_right_crop": 1}, {"pre_left_crop": 2, "pre_top_crop": 1, "pre_bottom_crop": 3, "pre_right_crop": 4}]
        jobs = [(w, h, pre, pct) for pre in pres for w in range(1, N + 1) for h in range(1, N + 1) if pre == {} or (w > 6 and h > 6 and (thorough or (w % 3 == 0 and h % 2 == 0)))]
        for (job), (k, bad) in env.pmap(cover_grid, jobs, deadline=c.deadline):
            n += k
            for key, why in bad:
                c.violation(key, why, {"job": job})
        c.add(crop_rectangles=n)
    else:
        c.cap("the crop function has another shape; it is only judged through builds")
    # (b)
    dims = [(30, 20), (20, 30), (24, 24), (13, 29)] if not thorough else [(w, h) for w in (7, 13, 20, 24, 30, 41) for h in (9, 20, 24, 29, 30)]
    reqs = [(10, 10), (7, 12), (20, 13), (1, 5), (13, 1), (12, 20), (3, 3), (1, 1), (20, 20), (13, 29), (30, 20), (24, 24)] if not thorough else [(w, h) for w in (1, 3, 7, 10, 13, 20, 24, 30) for h in (1, 3, 5, 10, 12, 20, 24)]
    items = []
    for (w, h), (a, b), (ci, crop) in itertools.product(dims, reqs, enumerate(CROPS)):
        uw, uh = usable(w, h, crop)
        if a <= uw and b <= uh:
            items.append(((w, h, 0), (a, b, crop, (len(items) + ci) % 3 > 0)))
    jobs = []
    for k, conf in enumerate(confs()):
        use = items if thorough else items[(k * 5) % 7::7]
        good = [i for i in use if expected(conf, *i)]
        none = [i for i in use if not expected(conf, *i)]
        for x in range(0, len(good), 24):
            jobs.append((conf, (x // 24 + k) % 3 == 0, (x // 24) % FORMS, good[x:x + 24]))
        for i in none[:: 1 if thorough else 12]:
            jobs.append((conf, False, k % FORMS, [i]))
    full = settings(EXPORTS[4], 0, webp=True)
    for x in range(0, len(items), 24):
        use = [i for i in items[x:x + 24] if expected(full, *i)]
        jobs += [(full, bool(x % 48), f, use) for f in (range(FORMS) if thorough else (x // 24 % FORMS,)) if use]
    m = 0
    done = 0
    for job, (k, bad) in env.pmap(grid, jobs, chunk=1, deadline=c.deadline):
        m += k
        done += 1
        for key, why in bad:
            c.violation(key, why, {"job": job})
    if done < len(jobs):
        c.cap("%d of %d groups of pictures" % (done, len(jobs)))
    c.add(pictures_built=m, configurations=len(list(confs())))
    # (c)
    for args, (k, bad) in env.pmap(refuse, list(impossible()), deadline=c.deadline):
        c.add(impossible_commands=k)
        for key, why in bad:
            c.violation(key, why, {"args": args})
    # (d)
    st = list(history_states())
    paths = [(a, b) for a in st for b in st if a != b]
    if not thorough:
        paths = [q for q in paths if (q[0][0] != q[1][0]) + (q[0][1:3] != q[1][1:3]) + (q[0][3] != q[1][3]) <= 1]
    else:
        paths += [(a, b, a) for a in st for b in st if a != b and a[3] == b[3] == 0]
    chunks = [paths[i:i + 12] for i in range(0, len(paths), 12)]
    done = 0
    for ch, (k, bad) in env.pmap(history, chunks, chunk=1, deadline=c.deadline):
        done += 1
        c.add(incremental_builds=k)
        for key, why in bad:
            c.violation(key, why, {"history": json.loads(key)})
    if done < len(chunks):
        c.cap("%d of %d groups of histories" % (done, len(chunks)))
    # (e)
    sc = setting_states()
    runs = []
    for (i, a), (j, b) in itertools.product(enumerate(sc), repeat=2):
        if i == j:
            continue
        for mode in ("no out", "edited", "same"):
            for v in range(3 if thorough else 1):
                cmds = [(HCMD[0],), (HCMD[1],), (HCMD[2], HCMD[0])][(v + i + j) % 3]
                runs.append((mode, [(a, HSRC[0], cmds), (b, HSRC[0], cmds)]))
                if thorough:
                    runs.append((mode, [(a, HSRC[0], cmds), (b, HSRC[0], cmds), (a, HSRC[0], cmds)]))
            if thorough:
                runs.append((mode, [(a, HSRC[0], cmds), (b, HSRC[2], cmds)]))
    for a, b in near_states(thorough):
        for x, y in ((a, b), (b, a)):
            if expected(x, HSRC[0], (5, 4, {}, True)) is not None:
                runs += [(mode, [(x, HSRC[0], ((5, 4, {}, True),)), (y, HSRC[0], ((5, 4, {}, True),))]) for mode in ("no out", "same")]
    done = 0
    for ch, (k, bad) in env.pmap(reconfigured, [runs[x::len(runs) // 8 + 1] for x in range(len(runs) // 8 + 1)], chunk=1, deadline=c.deadline):
        done += len(ch)
        c.add(reconfigured_builds=k)
        for key, why in bad:
            c.violation(key, why, {"settings": json.loads(key)})
    if done < len(runs):
        c.cap("%d of %d changes of the settings" % (done, len(runs)))
    c.add(states=n + m + len(st) + len(sc), transitions=m + len(paths) + len(runs))
    c.assumptions += ["sources are RGB pictures without orientation tags", "encoders are deterministic, so that the candidates of an encoding choice can be recomputed from the decoded (losslessly encoded) file",
                      "a size that is not a whole number is rounded down, and of the sizes that coincide only one is listed"]
