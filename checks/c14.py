"""C14: icon commands generate exactly the promised classes and icon files.

State space: every icon command of a grammar (initial colour, colour list, size list, button form) over
every palette of a list, under several button configurations; every combination of svg fragments; every
ordered pair of project states (quick) or longer chain (thorough) built incrementally.  Oracle: a model of
the command, judged on the published stylesheet by an independent tokenizer."""
import itertools
import json
import re

from vp import csstok, env, site

HEX = {"#333": "333333", "#333333": "333333", "#AbC": "AABBCC", "#000": "000000", "red": "FF0000", "RED": "FF0000", "#C0C0C0": "C0C0C0", "rebeccablue": None, "var(--x)": None, "#12345": None, "#1234": None, "#fff": "FFFFFF",
       "navy": "000080", "rgb(1,2,3)": None, "white": "FFFFFF", "#ABCDEF": "ABCDEF", "red blue": None}
# palettes: list of declarations of :root, in order
PALETTES = [
    [("col-primary", "#333"), ("icon-size-medium", "1rem")],
    [("col-primary", "#333"), ("col-primary-dark", "#000"), ("col-disabled", "#C0C0C0"), ("icon-size-medium", "1rem"), ("icon-size-small", "0.75rem")],
    [("icon-size-small", "0.75rem"), ("col-disabled", "red"), ("col-primary-dark", "#AbC"), ("col-alt", "white"), ("icon-size-2x", "2rem"), ("col-primary", "#333333"), ("icon-size-medium", "1rem")],
    [("col-alt", "#333"), ("col-bad", "rebeccablue"), ("col-worse", "var(--x)"), ("col-primary-dark", "#12345"), ("icon-size-medium", "calc(1rem + (2px))"), ("col-primary", "RED")],
    [("col-primary", "#333"), ("x", "{a:b;c}"), ("col-alt", "#fff"), ("col-primary", "navy"), ("icon-size-medium", "1rem"), ("icon-size-medium", "2rem"), ("icon-size-a1", "3px")],
    [("col-primary", "#333")],
    [("icon-size-medium", "1rem")],
    [("col-primary", "#333"), ("col-primary-dark", "#333"), ("col-disabled", "#333"), ("col-alt", "rgb(1,2,3)"), ("icon-size-small", "0"), ("icon-size-medium", "var(--y)")],
]
NOISE = [("", ""), ("/* :root{--col-zzz:#111} */@media print{:root{--col-zzz:#111;--icon-size-zzz:1px}}\n.a:hover{--col-zzz:red}\n", "\n.b{--icon-size-zzz:1px}\n"), ("@import url(x.css);a:root-x{b:c}\n", "@media x{}\n")]
CONFIGS = [None, {}, {"default_button": None}, {"default_button": {"active_color": "alt"}}, {"default_button": {"active_color": "nope"}, "button_by_identifier": {"b": {"hover_color": "alt"}}},
           {"default_button": None, "button_by_identifier": {"b": {"active_color": "primary", "hover_color": "primary", "disabled_color": "primary"}, "c": {"active_color": "alt"}}}, {"button_by_identifier": {"two": {}, "x-y": {"disabled_color": "primary"}}}]
COLORS = ["all-colors", [], ["primary"], ["primary", "primary-dark"], ["alt", "primary"], ["nope"], ["nope", "primary-dark", "primary-dark"], ["disabled", "bad"]]
SIZES = ["all-sizes", ["medium"], ["small", "medium"], ["nope"], ["2x", "nope", "small", "small"], []]
BUTTONS = ["", "default", "btn", "no-btn", {}, {"default": ["primary", "primary-dark", "disabled"]}, {"b": ["primary", "alt", "primary"]}, {"default": ["alt", "alt", "primary"], "b-c": ["primary", "primary", "primary"], "d": ["nope", "primary", "primary"]},
           {"default": ["primary", "nope", "primary"]}, {"e": ["primary", "primary", "nope"], "f": ["primary-dark", "primary", "disabled"]}]
INITIAL = ["primary", "alt", "nope"]


def commands():
    yield from itertools.product(INITIAL, COLORS, SIZES, BUTTONS)


FORMS = 5


def command(name, cmd, form=0):
    ini, cols, sizes, btn = cmd
    p = [name, ini] + [x if isinstance(x, str) else json.dumps(x) for x in (cols, sizes, btn)]
    if form == 0:
        return "/*! PREPROCESSOR: icon %s */" % " ".join(x for x in p if x)
    if form == 1:
        return "/*!PREPROCESSOR:  icon   %s*/" % "\n  ".join(x for x in p if x)
    if form == 2:
        return "/* ! PREPROCESSOR : icon\t%s\n*/" % "  ".join(x.replace('"', "'") for x in p if x)
    if form == 3:
        return "/*!\nPREPROCESSOR: icon // the icon\n %s // done\n */" % " // next\n".join(x.replace(",", " , ").replace(":", " : ").replace("[", "[ ").replace("]", " ]") for x in p if x)
    return "/*! PREPROCESSOR: icon %s */" % " ".join(x.replace(", ", ",").replace("]", ",]").replace("[,]", "[]").replace("}", ",}").replace("{,}", "{}") for x in p if x)


def settings(palette):
    colors, sizes = {}, []
    for n, v in palette:
        if n.startswith("col-") and HEX.get(v):
            colors[n[4:]] = HEX[v]
        elif n.startswith("icon-size-"):
            if n[10:] not in sizes:
                sizes.append(n[10:])
    return colors, sizes


def buttons(conf):
    """(default button or None, {identifier: colours})"""
    base = ["primary", "primary-dark", "disabled"]
    keys = ["active_color", "hover_color", "disabled_color"]
    conf = conf or {}
    d = conf.get("default_button", {})
    default = None if d is None else [d.get(k, b) for k, b in zip(keys, base)]
    by = {}
    for i, s in conf.get("button_by_identifier", {}).items():
        v = [s.get(k, b) for k, b in zip(keys, default or [None] * 3)]
        if None not in v:
            by[i] = v
    return default, by


def expected(name, cmd, palette, conf):
    """None if the command is left alone, else (rules {selector: declarations}, colour files {colour: hex}, initial hex)"""
    colors, sizes = settings(palette)
    ini, cols, szs, btn = cmd
    if ini not in colors:
        return None
    use = [c for c in colors if cols == "all-colors" or c in cols]
    us = [s for s in sizes if szs == "all-sizes" or s in szs]
    if not use or not us:
        return None
    if btn in ("", "default", "btn"):
        default, by = buttons(conf)
    elif btn == "no-btn":
        default, by = None, {}
    else:
        default, by = btn.get("default"), {k: v for k, v in btn.items() if k != "default"}
    good = lambda b: b is not None and all(c in colors for c in b)
    all_b = ([("", default)] if good(default) else []) + [("-" + k, v) for k, v in by.items() if good(v)]
    files = set(use)
    rules = {}
    pic = lambda s, c: [("background", "no-repeat center center"), ("display", "inline-block"), ("vertical-align", "middle"), ("content", "\"\""), ("width", "var(--icon-size-%s)" % s), ("height", "var(--icon-size-%s)" % s),
                        ("background-size", "100% 100%"), ("background-image", img(c))]
    img = lambda c: "url(\"/img/icons/%s/%s.svg\")" % (name, c)
    for s in us:
        for c in use:
            rules[".icon-%s-%s-%s" % (name, s, c)] = pic(s, c)
        for suf, (a, h, d) in all_b:
            b = ".icon-btn-%s-%s%s" % (name, s, suf)
            files |= {a, h, d}
            rules[b] = [("-webkit-appearance", "none"), ("appearance", "none"), ("background", "transparent"), ("border", "none"), ("border-radius", "0"), ("box-shadow", "none"), ("outline", "none"), ("padding", "0"), ("margin", "0"),
                        ("text-align", "center"), ("display", "inline-block"), ("cursor", "pointer")]
            rules[b + ":disabled"] = [("cursor", "not-allowed")]
            rules[b + " .icon-btn--icon"] = pic(s, a)
            rules[b + ":hover .icon-btn--icon"] = [("background-image", img(h))]
            rules[b + ":disabled .icon-btn--icon"] = [("background-image", img(d))]
    return rules, {c: colors[c] for c in files}, colors[ini]


def text(toks):
    out = []
    for t in toks:
        if t[0] == "ws":
            out.append(" ")
        elif t[0] == "string":
            out.append(json.dumps(t[1]))
        elif t[0] in ("number", "dimension", "percentage"):
            out.append("%g%s%s" % (float(t[2]), "%" if t[0] == "percentage" else "", t[4] if t[0] == "dimension" else ""))
        elif t[0] == "function":
            out.append(t[1] + "(")
        elif t[0] == "url":
            out.append("url(\"%s\")" % t[1])
        elif t[0] == "hash":
            out.append("#" + t[-1] if len(t) == 2 else "#" + t[1])
        elif t[0] == "at":
            out.append("@" + t[1])
        else:
            out.append(t[1] if len(t) > 1 else t[0])
    return "".join(out).strip()


def rules_of(css):
    """top-level qualified rules: [(selector, [(property, value)])]"""
    toks = csstok.significant(csstok.tokens(css))
    out, pre, depth, body = [], [], 0, []
    for t in toks:
        if depth == 0:
            if t[0] == "{":
                depth = 1
                body = []
            elif t[0] == ";" and pre and pre[0][0] not in ("ident", "."):
                pre = []
            else:
                if pre or t[0] != "ws":
                    pre.append(t)
            continue
        if t[0] in ("{", "(", "function"):
            depth += 1
        elif t[0] in ("}", ")"):
            depth -= 1
            if depth == 0:
                out.append((text(pre), declarations(body)))
                pre = []
                continue
        body.append(t)
    return out


def declarations(body):
    out, cur, depth = [], [], 0
    for t in body + [(";",)]:
        if t[0] == ";" and depth == 0:
            s = text(cur)
            if s:
                k, _, v = s.partition(":")
                out.append((k.strip(), v.strip()))
            cur = []
            continue
        depth += t[0] in ("{", "(", "function")
        depth -= t[0] in ("}", ")")
        cur.append(t)
    return out


def strip_version(v):
    return re.sub(r"\?v=[^\"]*", "", v)


SVG = [('<path stroke="#{}"/>', True), ("<path fill='#{}' class='a'/>", True), ('<path style="fill:#{};stroke: #{}"/>', True), ('<text>#{}</text>', False), ('<use href="#a{}"/>', False), ('<path fill="url(#{})"/>', False),
       ('<path fill="#{}0"/>', False), ('<path fill="#7{}"/>', False), ('<rect width="12"\n fill="#{}"/>', True), ('<stop stop-color="#{}" offset="1"/>', True), ('<path fill="none"/>', False), ('<path fill="#fedcba"/>', False),
       ('<!-- {} -->', False)]
HEAD = '<svg width="12" xmlns="http://www.w3.org/2000/svg">\n'


def spell(hexv):
    s = {hexv, hexv.lower(), "".join(a.lower() if i % 2 else a for i, a in enumerate(hexv))}
    if all(hexv[i] == hexv[i + 1] for i in (0, 2, 4)):
        s |= {hexv[::2], hexv[::2].lower()}
    return sorted(s)


def svg(pieces, spelled):
    return HEAD + "\n".join(SVG[k][0].replace("{}", spelled) for k in pieces) + "\n</svg>\n"


def recolored(pieces, spelled, to):
    return HEAD + "\n".join(SVG[k][0].replace("{}", to if SVG[k][1] else spelled) for k in pieces) + "\n</svg>\n"


def norm(s):
    return re.sub("#[0-9a-fA-F]{6}(?![0-9a-fA-F])", lambda m: m.group().upper(), s)


def root(palette, noise):
    return noise[0] + ":root {\n" + "".join("    --%s: %s;\n" % d for d in palette) + "}\n" + noise[1]


def judge(www, css, src, cmds, palette, conf, svgs):
    """Problems of the published stylesheet `css`, built from text `src` plus the commands [(name, cmd)]."""
    bad = []
    want_rules, want_files = {}, {}
    left = []
    for name, cmd in cmds:
        e = expected(name, cmd, palette, conf)
        if e is None:
            left.append((name, cmd))
            continue
        want_rules.update(e[0])
        for col, hx in e[1].items():
            want_files["img/icons/%s/%s.svg" % (name, col)] = svgs[name](e[2], hx)
    got = rules_of(www[css].decode("utf-8", "replace"))
    mine = [(s, d) for s, d in got if s.startswith(".icon-")]
    rest = [(s, d) for s, d in got if not s.startswith(".icon-")]
    if rest != rules_of(src):
        bad.append(("rest", "the other rules are %r instead of %r" % (rest, rules_of(src))))
    names = [s for s, d in mine]
    for s in set(want_rules) - set(names):
        bad.append((s, "the class %s is missing" % s))
    for s in set(names) - set(want_rules):
        bad.append((s, "the class %s is not wanted" % s))
    if len(set(names)) != len(names):
        bad.append(("twice", "classes are generated twice: %r" % [n for n in names if names.count(n) > 1][:3]))
    pos = {s: i for i, s in enumerate(names)}
    for s, d in mine:
        if s in want_rules:
            if sorted((k, strip_version(v)) for k, v in d) != sorted(want_rules[s]):
                bad.append((s, "%s has %r instead of %r" % (s, d, want_rules[s])))
            for k, v in d:
                m = re.match(r'url\("(/img[^?]*)\?v=([^&]*)&pv=', v)
                if k == "background-image":
                    f = m and m.group(1)[1:]
                    if not m or f not in www or site.sha(www[f]).replace("=", "%3D") != m.group(2):
                        bad.append((s, "%s refers to %s, which is %s" % (s, v, "no current version of a published file")))
            if s.endswith(":hover .icon-btn--icon") and not (pos[s.replace(":hover", "")] < pos[s] < pos.get(s.replace(":hover", ":disabled"), -1)):
                bad.append((s, "the states of %s are in the wrong order" % s))
    for f, w in want_files.items():
        if f not in www:
            bad.append((f, "%s is missing" % f))
        elif norm(www[f].decode()) != norm(w):
            bad.append((f, "%s is %r instead of %r" % (f, www[f], w)))
    for name, cmd in cmds:
        extra = sorted(f for f in www if f.startswith("img/icons/%s/" % name) and f not in want_files and not f.endswith(".hash"))
        if extra:
            bad.append((name, "unwanted files %r" % extra))
    for f in www:
        if f.startswith("img/icons/") and f.endswith(".svg") and www.get(f + ".hash") != site.sha(www[f]).encode():
            bad.append((f, "the hash file of %s is wrong" % f))
    return bad


def grammar(job):
    pal, conf, noise, form, where, cmds = job
    p = env.Project("c14", config=env.default_config(**({"icons": conf} if conf is not None else {})))
    colors, sizes = settings(pal)
    pieces = [0, 2, 6, 11]
    src = {}
    named = []
    svgs = {}
    for i, cmd in enumerate(cmds):
        name = ["i%d", "a-b%d", "I_%d"][i % 3] % i
        named.append((name, cmd))
        sp = spell(colors.get(cmd[0], "123456"))
        sp = sp[i % len(sp)]
        src["src/public/img/icons/%s.svg" % name] = svg(pieces, sp)
        svgs[name] = lambda ini, hx, sp=sp: recolored(pieces, sp, hx)
    main = root(pal, noise)
    body = "\n".join(command(n, cm, form) for n, cm in named) + "\n.last{a:b}\n"
    css = "css/main.css" if where == "main" else "css/other.css"
    base = {"main": {"css/main.css": main + body}, "other": {"css/main.css": main, "css/other.css": body}}[where]
    for f, t in base.items():
        src["src/public/" + f] = t
    p.set_sources(src)
    p.clear_generated()
    o = p.build(timeout=60)
    if not o.ok:
        if len(cmds) > 1:
            out, n = [], 0
            for half in (cmds[:len(cmds) // 2], cmds[len(cmds) // 2:]):
                m, b = grammar((pal, conf, noise, form, where, half))
                out += b
                n += m
                if len(out) > 5:
                    break
            return n, out
        return 1, [(json.dumps([pal, conf, cmds[0], form, where]), "the build fails: " + o.detail[-400:])]
    plain = (main if where == "main" else "") + "\n.last{a:b}\n"
    bad = []
    for key, why in judge(p.www(), css, plain, named, pal, conf, svgs):
        nm = re.search(r"(i\d+|a-b\d+|I_\d+)", key)
        cm = dict(named).get(nm.group(1)) if nm else None
        bad.append((json.dumps([pal, conf, cm, form, where]), why))
    return len(cmds), bad[:8]


def recolor(combos):
    """Every combination of svg pieces, with every spelling of the initial colour."""
    bad = []
    p = env.Project("c14r")
    pal = [("col-primary", None), ("col-alt", "#ABCDEF"), ("icon-size-medium", "1rem")]
    for hx in ("#333", "#AbC", "#C0C0C0"):
        pal[0] = ("col-primary", hx)
        full = HEX[hx]
        items = [(k, sp) for k in combos for sp in spell(full)]
        named = [("i%d" % i, ("primary", "all-colors", "all-sizes", "no-btn")) for i in range(len(items))]
        svgs = {n: (lambda ini, to, k=k, sp=sp: recolored(k, sp, to)) for (n, c), (k, sp) in zip(named, items)}
        src = {"src/public/img/icons/%s.svg" % n: svg(*it) for (n, c), it in zip(named, items)}
        src["src/public/css/main.css"] = root(pal, NOISE[0]) + "\n".join(command(n, cm) for n, cm in named)
        p.set_sources(src)
        p.clear_generated()
        o = p.build(timeout=100)
        if not o.ok:
            bad.append(("recolor %s" % hx, "the build fails: " + o.detail[-300:]))
            continue
        for key, why in judge(p.www(), "css/main.css", root(pal, NOISE[0]), named, pal, None, svgs):
            bad.append(("recolor %s" % why[:300], why))
    return len(combos) * 11, bad[:8]


# project states for histories: (palette, command, css file with the command, svg, other command)
def states():
    base = dict(pal=1, cmd=("primary", "all-colors", "all-sizes", ""), where="other", svg="333", second=None, noise=0)
    out = [base]
    for k, vs in {"pal": [0, 2, 3, 5], "cmd": [("primary", ["primary"], "all-sizes", ""), ("primary", "all-colors", ["small"], "no-btn"), ("nope", "all-colors", "all-sizes", ""), ("primary", ["primary-dark"], "all-sizes", {"b": ["primary", "primary", "primary-dark"]}), None],
                  "where": ["main"], "svg": ["333333", "343434"], "second": [("primary", ["primary-dark"], ["medium"], "no-btn"), ("primary", "all-colors", "all-sizes", "")], "noise": [1]}.items():
        for v in vs:
            out.append(dict(base, **{k: v}))
    out.append(dict(base, second=("primary", "all-colors", "all-sizes", "no-btn"), cmd=None))
    out.append(dict(base, pal=2, svg="343434"))
    return out


def put_state(p, st):
    pal = PALETTES[st["pal"]]
    main = root(pal, NOISE[st["noise"]])
    cm = command("x", st["cmd"]) if st["cmd"] else ""
    src = {"src/public/img/icons/x.svg": svg([0, 2], st["svg"]), "src/public/css/main.css": main + (cm if st["where"] == "main" else "")}
    if st["where"] == "other":
        src["src/public/css/other.css"] = ".o{a:b}\n" + cm
    if st["second"]:
        src["src/public/css/z.css"] = ".z{a:b}\n" + command("x", st["second"])
    src["src/public/index.html"] = '<!DOCTYPE html><html><head><title>t</title><link rel="stylesheet" href="/css/main.css"></head><body></body></html>'
    p.set_sources(src)


def judge_state(www, st):
    pal = PALETTES[st["pal"]]
    main = root(pal, NOISE[st["noise"]])
    colors, _ = settings(pal)
    svgs = {"x": lambda ini, hx: recolored([0, 2], st["svg"], hx) if ini == ("333333" if st["svg"] in ("333", "333333") else st["svg"]) else svg([0, 2], st["svg"])}
    out = []
    cmds = {"css/main.css": (main, st["cmd"] if st["where"] == "main" else None)}
    if st["where"] == "other":
        cmds["css/other.css"] = (".o{a:b}\n", st["cmd"])
    if st["second"]:
        cmds["css/z.css"] = (".z{a:b}\n", st["second"])
    files = set()
    for css, (plain, cm) in cmds.items():
        if cm:
            e = expected("x", cm, pal, None)
            if e:
                files |= {"img/icons/x/%s.svg" % c for c in e[1]}
    for css, (plain, cm) in cmds.items():
        for k, w in judge(www, css, plain, [("x", cm)] if cm else [], pal, None, svgs):
            if not w.startswith("unwanted files"):
                out.append((css + " " + k, w))
    got = {f for f in www if f.startswith("img/icons/x/") and not f.endswith(".hash")}
    if got != files:
        out.append(("files", "the icon files are %r instead of %r" % (sorted(got), sorted(files))))
    return out


def histories(job):
    depth, first = job
    ss = states()
    p = env.Project("c14h")
    bad = []
    n = 0

    def go(path):
        nonlocal n
        put_state(p, ss[path[-1]])
        o = p.build(timeout=40)
        n += 1
        key = " -> ".join(json.dumps(ss[i]) for i in path)
        if not o.ok:
            bad.append((key, "the build fails: " + o.detail[-400:]))
        else:
            for k, w in judge_state(p.www(), ss[path[-1]]):
                bad.append((key, w))
        if len(path) < depth and len(bad) < 10:
            snap = p.snapshot()
            for i in range(len(ss)):
                if i != path[-1]:
                    p.restore(snap)
                    go(path + (i,))
    p.clear_generated()
    go((first,))
    return n, bad[:10]


def run_job(j):
    import gc
    gc.enable()
    return {"grammar": grammar, "recolor": recolor, "history": histories}[j[0]](j[1])


def run(c):
    c.assumptions = ["the svg spells its colour as hexadecimal attribute values; no two commands give one icon different initial colours"]
    cmds = list(commands())
    per = 48
    jobs = []
    combos = [t for n in (1, 2, 3 if env.THOROUGH else 2) for t in itertools.product(range(len(SVG)), repeat=n)]
    jobs += [("recolor", combos[i:i + 16]) for i in range(0, len(combos), 16)]
    depth = 3 if env.THOROUGH else 2
    jobs += [("history", (depth, i)) for i in range(len(states()))]
    k = 0
    for pal in PALETTES:
        for conf in CONFIGS:
            for ni, noise in enumerate(NOISE):
                for where in ("main", "other"):
                    if not env.THOROUGH and (ni + (where == "main") + CONFIGS.index(conf)) % 3:
                        continue
                    for i in range(0, len(cmds), per):
                        jobs.append(("grammar", (pal, conf, noise, k % FORMS, where, cmds[i:i + per])))
                        k += 1
    c.cov["rule"] = "%d commands x %d palettes x %d button configurations x surroundings, 5 spellings; %d svg fragment combinations; all histories of length %d over %d states" % (len(cmds), len(PALETTES), len(CONFIGS), len(combos), depth, len(states()))
    m = 0
    for j, (n, bad) in env.pmap(run_job, jobs, deadline=c.deadline):
        m += 1
        c.add(states=n, transitions=n, traces_validated_against_impl=n)
        if j[0] == "grammar":
            c.sample(command("x", j[1][5][m % len(j[1][5])], j[1][3]), 6)
        for s, why in bad:
            c.violation(s, "%s: %s" % (s, why), {"case": s, "why": why})
    if m < len(jobs):
        c.cap("time budget reached after %d of %d groups" % (m, len(jobs)))
