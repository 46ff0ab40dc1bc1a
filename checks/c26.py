"""C26: image glue modules and their placeholders stay in step with the JSON.

Part one: breadth-first search over all histories of edits of the JSON, the image, the file next to the JSON
and an importer, with builds in between, with and without generated placeholders, against a reference model.
Part two: every JSON of a bounded grammar (every value of every field, alone and in pairs), which must either
be published completely or fail the build.
Part three: every name of such a file over a small alphabet, side by side in one folder."""
import io
import itertools
import json
from urllib.parse import unquote

from checks.c15 import applicable, expected, settings, sizes, source, usable
from vp import bfs, env, jsast, site

PUB = "src/public/"
CONF = settings([("c0", 0, 3, None, None), ("c9", 9, 2, None, 60)], webp={"min_area_px2": 30}, step="0.5", maximum=2)
IMG = {"v1": (12, 10, 0), "v2": (16, 9, 1), "small": (3, 3, 2)}
ENTRY = {"path": "/img/a#%41.png", "width": 5, "height": 4}
JSONS = {
    "A": json.dumps({"k": ENTRY}),
    "B": json.dumps({"k": dict(ENTRY, width=6, crop_style="cover", crop_arguments={"pre_left_crop": 2}, lazy=False)}),
    "two": json.dumps({"k": ENTRY, "other one": dict(ENTRY, height=6)}),
    "empty": "{}",
    "broken": '{"k": ',
    "big": json.dumps({"k": dict(ENTRY, width=13)}),
}
USER = "export const mine = 1;\nexport default {};\n"
CROP = {"pre_top_crop": 0, "pre_left_crop": 0, "pre_right_crop": 0, "pre_bottom_crop": 0, "crop_left_percentage": 0.5, "crop_top_percentage": 0.5}


def valid(data, img):
    """The entries {name: (width, height, crop)} if the data can be satisfied, else None."""
    out = {}
    if not isinstance(data, dict):
        return None
    for name, e in data.items():
        if not isinstance(e, dict) or not isinstance(e.get("path"), str) or img is None or e["path"] not in ("/img/a#%41.png",):
            return None
        w, h, crop = e.get("width"), e.get("height"), e.get("crop_arguments", {})
        if type(w) is not int or type(h) is not int or e.get("crop_style", "cover") != "cover" or not isinstance(crop, dict):
            return None
        for k, v in crop.items():
            if k.startswith("pre_") and k in CROP:
                if type(v) is not int or v < 0:
                    return None
            elif k in CROP:
                if type(v) not in (int, float) or not 0 <= v <= 1:
                    return None
            else:
                return None
        if expected(CONF, img, (w, h, crop, True)) is None:
            return None
        out[name] = (w, h, crop)
    return out


def judge(www, entries, img, path="js/x.images.js"):
    from PIL import Image
    text = www.get(path)
    if text is None:
        return ["%s is not published" % path]
    bad = []
    got, = jsast.values([text.decode("utf-8", "replace")])
    if isinstance(got, str):
        return ["%s: %s" % (path, got)]
    if list(got) != ["default"] or not isinstance(got["default"], dict):
        return ["%s exports %r" % (path, list(got))]
    got = got["default"]
    if set(got) != set(entries):
        return ["the module lists %r instead of %r" % (sorted(got), sorted(entries))]
    for name, (w, h, crop) in entries.items():
        g = got[name]
        if list(g) != ["target"] or set(g["target"]) != {"settings", "outputs"}:
            bad.append("%r has an unexpected shape: %r" % (name, g))
            continue
        s, o = g["target"]["settings"], g["target"]["outputs"]
        if s != {"width": w, "height": h, "crop": "cover", "crop_settings": dict(CROP, **crop)}:
            bad.append("%r has the settings %r" % (name, s))
        per = expected(CONF, img, (w, h, crop, True))
        if set(o) != set(per):
            bad.append("%r has the formats %r instead of %r" % (name, sorted(o), sorted(per)))
            continue
        for f, outs in o.items():
            if [(x["width"], x["height"]) for x in outs] != per[f]:
                bad.append("%r has %s files of %r instead of %r" % (name, f, [(x["width"], x["height"]) for x in outs], per[f]))
            for x in outs:
                data = www.get(unquote(x["url"])[1:])
                if data is None or x["url"][0] != "/":
                    bad.append("%r lists %s, which does not exist" % (name, x["url"]))
                    continue
                im = Image.open(io.BytesIO(data))
                if (im.format.lower(), im.size) != (f, (x["width"], x["height"])) or im.convert("RGB").getpixel((0, 0))[2] // 30 != (40 + 60 * img[2]) // 30:
                    bad.append("%r: %s is a %s of %r (blue %r)" % (name, x["url"], im.format, im.size, im.convert("RGB").getpixel((0, 0))))
                if x["choice"] not in applicable(CONF, f, (x["width"], x["height"])):
                    bad.append("%r: %s was encoded as %s" % (name, x["url"], x["choice"]))
    if www.get(path + ".hash") != site.sha(text).encode():
        bad.append("the hash file of %s is wrong" % path)
    return bad


# --------------------------------------------------------------------------- histories
OPS = [("json", k) for k in JSONS] + [("json", None), ("img", "v1"), ("img", "v2"), ("img", None), ("sib", "user"), ("sib", None), ("use", 1), ("use", 0), ("build", False), ("build", True)]


def step(job, auto):
    snap, model, op = job
    p = env.Project("c26_%d" % auto, config=env.default_config(images=CONF, auto_generate_images_js_placeholders=auto))
    bad = []
    if op is None:
        model = dict(json="A", img="v1", use=1)
        p.set_sources({PUB + "js/x.images.json": JSONS["A"], PUB + "img/a#%41.png": source(*IMG["v1"]), PUB + "js/use.js": "import x from '/js/x.images.js'; x;"})
        return [], p.snapshot(), bfs.canon(p), model
    p.restore(snap)
    model = dict(model)
    k, v = op
    sib = p.tree("src").get("public/js/x.images.js")
    if k == "sib":
        if (v and sib == USER.encode()) or (not v and sib is None):
            return None
        if v:
            p.put(PUB + "js/x.images.js", USER)
        else:
            p.delete(PUB + "js/x.images.js")
    elif k == "build":
        before = p.tree("src")
        o = p.build(dev=v, symlinks=v)
        after = p.tree("src")
        img = IMG.get(model["img"])
        try:
            data = json.loads(JSONS[model["json"]]) if model["json"] else {}
        except ValueError:
            data = None
        entries = valid(data, img)
        changed = {f for f in set(before) | set(after) if before.get(f, 0) != after.get(f, 0)}
        if changed - ({"public/js/x.images.js"} if model["json"] and auto and sib is None else set()):
            bad.append(("src", "the build changes %r" % sorted(changed)))
        if entries is None:
            if o.kind != "exc":
                bad.append(("invalid", "the build does not fail (%s)" % o.kind))
        elif model["use"] and not model["json"]:
            pass        # an import without a target; judged by other properties
        elif not o.ok:
            bad.append(("fails", "the build fails: " + o.detail[-300:]))
        else:
            www = p.www()
            if model["json"]:
                bad += [("module", w) for w in judge(www, entries, img)]
                new = after.get("public/js/x.images.js")
                if sib is None and auto and not (new and b"export default" in new):
                    bad.append(("placeholder", "the placeholder is %r" % new))
                if model["use"]:
                    m = "/js/x.images.js?v=%s&pv=" % site.sha(www.get("js/x.images.js", b"")).replace("=", "%3D")
                    if m not in www["js/use.js"].decode():
                        bad.append(("version", "the importer is %r" % www["js/use.js"]))
            else:
                if any(f.startswith("js/x.images") for f in www):
                    bad.append(("stale", "a module is published without its JSON"))
            used = set()
            if any(f.startswith("js/x.images.json") for f in www):
                bad.append(("json", "the JSON is published"))
            if model["json"] and not bad:
                got, = jsast.values([www["js/x.images.js"].decode()])
                used = {unquote(x["url"])[1:] for g in got["default"].values() for outs in g["target"]["outputs"].values() for x in outs}
            left = [f for f in www if f.startswith("img/a#%41/") and f not in used]
            if left and not bad:
                bad.append(("left", "%r are left over" % left))
    else:
        if model[k] == v:
            return None
        model[k] = v
        rel, cont = {"json": (PUB + "js/x.images.json", JSONS.get(v)), "img": (PUB + "img/a#%41.png", source(*IMG[v]) if k == "img" and v else None),
                     "use": (PUB + "js/use.js", "import x from '/js/x.images.js'; x;" if v else "1;")}[k]
        if cont is None:
            p.delete(rel)
        else:
            p.put(rel, cont)
    return bad, p.snapshot(), bfs.canon(p), model


def step_auto(job):
    return step(job, True)


def step_plain(job):
    return step(job, False)


# --------------------------------------------------------------------------- grammar
NAMES = ["a", "", "a b", "é", "\U0001F600", "a'b", 'a"b', "a\\b", "\u2028", "</script>", "constructor", "1", "\n", "\x7f", "default", "${x}`", "*/"]
WIDTHS = [1, 5, 12, 13, 0, -1, 5.0, 5.5, "5", None, True, [], 10 ** 9]
HEIGHTS = [1, 4, 10, 11, 0, -1, 4.0, "4", None, False, {}]
PATHS = ["/img/a#%41.png", "img/a#%41.png", "/img/b.png", "/img", "/img/t.txt", "/../a#%41.png", "", "/", 5, None, "//img/none.png", "/js/x0.images.json"]
STYLES = ["cover", "contain", None, "", 1]
CROPS = [{}, {"pre_left_crop": 7}, {"pre_left_crop": 8}, {"pre_top_crop": 6}, {"pre_top_crop": 7}, {"pre_right_crop": 3, "pre_left_crop": 4}, {"pre_right_crop": 4, "pre_left_crop": 4}, {"pre_bottom_crop": 2, "pre_top_crop": 5},
         {"pre_left_crop": -1}, {"pre_left_crop": 1.0}, {"pre_left_crop": "1"}, {"pre_top_crop": True}, {"crop_left_percentage": 0}, {"crop_left_percentage": 1}, {"crop_left_percentage": 0.3, "crop_top_percentage": 0.9},
         {"crop_left_percentage": 1.1}, {"crop_top_percentage": -0.1}, {"crop_top_percentage": "0.5"}, {"other": 1}, [], None, "x", 0]
LAZY = [True, False]
FIELDS = {"path": PATHS, "width": WIDTHS, "height": HEIGHTS, "crop_style": STYLES, "crop_arguments": CROPS, "lazy": LAZY}
GONE = object()


def entries(pairs):
    base = dict(ENTRY)
    yield base
    for k in base:
        e = dict(base)
        del e[k]
        yield e
    for k, vs in FIELDS.items():
        for v in vs:
            yield dict(base, **{k: v})
    for a, b in itertools.combinations(FIELDS, 2):
        for u, v in itertools.product(FIELDS[a], FIELDS[b]):
            if pairs or {a, b} == {"width", "crop_arguments"} or {a, b} == {"height", "crop_arguments"}:
                yield dict(base, **{a: u, b: v})


def texts():
    for n in NAMES:
        yield json.dumps({n: ENTRY}), {n: ENTRY}
        yield json.dumps({n: ENTRY, "z": dict(ENTRY, width=3)}, ensure_ascii="\u2028" == n, indent=3), {n: ENTRY, "z": dict(ENTRY, width=3)}
    yield '{"a": %s, "a": %s}' % (json.dumps(dict(ENTRY, width=99)), json.dumps(ENTRY)), {"a": ENTRY}
    yield json.dumps({}), {}
    for t in ("", "[]", "null", "1", '"x"', "{", "{a: 1}", "[{}]", '{"a": []}', '{"a": null}', '{"a": "/img/a#%41.png"}', '{"a": {}},', "// c\n{}", "\x00{}", '{"a": {"path": "/img/a#%41.png", "width": 5, "height": 4,}}', "{'a': 1}", "{}{}"):
        yield t, None


def grammar(items):
    """items: [(text, data)]; the valid ones share a build, each of the others has its own"""
    p = env.Project("c26g", config=env.default_config(images=CONF))
    base = {PUB + "img/a#%41.png": source(*IMG["v1"]), PUB + "img/t.txt": "no", "src/a#%41.png": source(*IMG["v1"])}
    bad = []
    good = []
    for i, (t, d) in enumerate(items):
        e = valid(d, IMG["v1"]) if d is not None else None
        if e is not None:
            good.append((i, t, e))
            continue
        p.clear_generated()
        p.set_sources(dict(base, **{PUB + "js/x0.images.json": t}))
        o = p.build(timeout=60)
        if o.kind != "exc":
            bad.append((t, "%s does not fail the build (%s)" % (t[:300], o.kind)))

    def together(g):
        p.clear_generated()
        p.set_sources(dict(base, **{PUB + "js/d%d/x.images.json" % i: t for i, t, e in g}))
        o = p.build(timeout=120)
        if not o.ok:
            if len(g) == 1:
                bad.append((g[0][1], "%s fails the build: %s" % (g[0][1][:300], o.detail[-300:])))
            else:
                together(g[:len(g) // 2])
                together(g[len(g) // 2:])
            return
        www = p.www()
        for i, t, e in g:
            bad.extend((t, w) for w in judge(www, e, IMG["v1"], "js/d%d/x.images.js" % i))
    if good:
        together(good)
    return len(items), bad[:8]


# --------------------------------------------------------------------------- names
def names_job(stems):
    """every stem in a folder of its own name and all of them side by side"""
    p = env.Project("c26n", config=env.default_config(images=CONF))
    src = {PUB + "img/a#%41.png": source(*IMG["v1"])}
    want = {}
    for i, stem in enumerate(stems):
        e = {"k%d" % i: dict(ENTRY, width=1 + i % 12)}
        for d in ("", "js/", "d/" + stem + "/"):
            if d == "d/" + stem + "/" and stem.strip(".") == "":
                continue
            src[PUB + d + stem + ".images.json"] = json.dumps(e)
            want[d + stem + ".images.js"] = valid(e, IMG["v1"])
    p.set_sources(src)
    o = p.build(timeout=200)
    if not o.ok:
        return len(want), [("names", "%r: the build fails: %s" % (stems, o.detail[-300:]))]
    www = p.www()
    bad = [(path, "%s: %s" % (path, w)) for path, e in want.items() for w in judge(www, e, IMG["v1"], path)]
    extra = {f for f in www if ".images.js" in f} - set(want) - {f + ".hash" for f in want}
    if extra:
        bad.append(("extra", "also published: %r" % sorted(extra)[:5]))
    p.reset()
    return len(want), bad[:8]


def run(c):
    stems = ["".join(t) for n in (1, 2, 3) for t in itertools.product("a.#" + ("B -" if env.THOROUGH else ""), repeat=n)] + ["images", "a.images", "a.images.js", "\u00e9", "a b", "%41", "a?", "a&amp;", "-", "images.json", "a.json", "a.min.images"]
    stems = [s for s in stems if s not in (".", "..")]
    for job, (n, bad) in env.pmap(names_job, [stems[i::8] for i in range(8)] + [stems[i * 8:i * 8 + 8] for i in range(-(-len(stems) // 8))], chunk=1, deadline=c.deadline):
        c.add(documents=n, states=n, transitions=n)
        for key, why in bad:
            c.violation(key, why, {"stems": job, "why": why})
    items = list(texts()) + [(json.dumps({"k": e}), {"k": e}) for e in entries(env.THOROUGH)]
    items.sort(key=lambda it: it[1] is None or valid(it[1], IMG["v1"]) is None)
    good = [i for i in items if i[1] is not None and valid(i[1], IMG["v1"]) is not None]
    other = [i for i in items if not (i[1] is not None and valid(i[1], IMG["v1"]) is not None)]
    chunks = [good[i:i + 40] for i in range(0, len(good), 40)] + [other[i:i + 20] for i in range(0, len(other), 20)]
    n = 0
    for ch, (k, bad) in env.pmap(grammar, chunks, chunk=1, deadline=c.deadline):
        n += k
        for key, why in bad:
            c.violation(key, why, {"json": key})
    c.add(documents=n, states=n, transitions=n)
    if n < len(items):
        c.cap("%d of %d documents" % (n, len(items)))
    depth = None if env.THOROUGH else 5
    bfs.search(c, "placeholders", step_auto, OPS, maxdepth=depth, cap=60000)
    bfs.search(c, "no placeholders", step_plain, OPS, maxdepth=depth if depth is None else depth - 1, cap=60000)
    c.assumptions += ["images named __proto__ are not used", "an import whose module has no source is judged by C10"]
