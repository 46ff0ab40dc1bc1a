"""C17: the constants module always matches configuration and mode.

Part one: every way a key can be given in shared / dev / prod, with every kind of value, in both modes.
Part two: breadth-first search over all histories of builds in either mode, configuration changes
(values, environment, constants file), creation and removal of the constants source and an importer, and
unrelated sources that make the build fail while scanning or while building, with a reference model."""
import itertools
import json

from vp import bfs, env, jsast, site

VALUES = ["", "x", "a'b", 'a"b', "a'b\"c", "a\\b", "\\n", "a\nb", "a\r\nb", "\t\0\x01\x7f", "\u2028\u2029", "\u00e9\u0301", "\U0001F600", "\ud800", "</script>", "<!--", "${x}`", "*/", "/*", "//",
          "env:/x", "https://a/b?c&d=e", 0, 1, -1, 2 ** 53 + 1, 10 ** 30, 1.5, -0.0, 1e-7, 1e300, True, False, None, [], {}, [1, [2, {"a": None}]], {"a b": 1, "c'": "d\n", "1": 2, "\u2028": 3}, " x ", "\\u0041",
          "\ufeff", "a\\", "'", '"', "\\'", "\x85", "use strict"]
NAMES = ["A", "a1", "_", "$x", "A_B", "API_URL", "\u00e9", "x" * 50]


def cfg(shared, dev, prod, relpath="src/public/js/constants.js"):
    return env.default_config(js_constants={"relpath": relpath, "shared": shared, "dev": dev, "prod": prod})


def effective(jc, dev, envv):
    d = dict(jc["shared"])
    d.update(jc["dev" if dev else "prod"])
    return {k: json.dumps(envv.get(v[6:]) if isinstance(v, str) and v.startswith("env://") else v) for k, v in d.items()}


def values(job):
    configs = job
    p = env.Project("c17v")
    bad = []
    n = 0
    for jc in configs:
        for dev in (False, True):
            p.clear_generated()
            p.write_config(cfg(jc["shared"], jc["dev"], jc["prod"]))
            p.set_sources({"src/public/js/constants.js": "export const X = 1;\nbroken(("})
            o = p.build(dev=dev, env={"EV": "from 'env'\n", "EW": ""})
            n += 1
            if not o.ok:
                bad.append((repr((jc, dev)), "the build fails: " + o.detail[-300:]))
                continue
            www = p.www()
            try:
                text = www["js/constants.js"].decode()
            except UnicodeDecodeError as e:
                bad.append((repr((jc, dev)), str(e)))
                continue
            why, = jsast.exports([(text, effective(jc, dev, {"EV": "from 'env'\n", "EW": ""}))])
            if why is None and www["js/constants.js.hash"] != site.sha(www["js/constants.js"]).encode():
                why = "the hash file is wrong"
            if why:
                bad.append((repr((jc, dev)), why))
    return n, bad


def configs():
    for v in VALUES:
        yield {"shared": {"A": v}, "dev": {}, "prod": {"B": v}}
        yield {"shared": {"A": v}, "dev": {"A": "d"}, "prod": {}}
    for n in NAMES:
        yield {"shared": {n: 1}, "dev": {n: 2, "Q": 3}, "prod": {"P": 4}}
    for pres in itertools.product((0, 1), repeat=3):
        for pres2 in itertools.product((0, 1), repeat=3):
            d = {}
            for i, s in enumerate(("shared", "dev", "prod")):
                d[s] = {}
                if pres[i]:
                    d[s]["A"] = s
                if pres2[i]:
                    d[s]["B"] = i
            yield d
    for v in ("env://EV", "env://EW"):
        yield {"shared": {"A": v}, "dev": {}, "prod": {"A": 1}}
        yield {"shared": {"A": 1}, "dev": {"A": v}, "prod": {"B": v}}


# --------------------------------------------------------------------------- part two
CONFIGS = {
    "base": cfg({"S": "s", "O": 0}, {"O": "dev", "D": 1}, {"O": "prod"}),
    "values": cfg({"S": "s2", "O": 0}, {"O": "dev", "D": 1}, {"O": "prod"}),
    "devonly": cfg({"S": "s", "O": 0}, {"O": "dev", "D": 2}, {"O": "prod"}),
    "env": cfg({"S": "env://EV", "O": 0}, {"O": "dev", "D": 1}, {"O": "prod"}),
    "other": cfg({"S": "s", "O": 0}, {"O": "dev", "D": 1}, {"O": "prod"}, "src/public/js/other.js"),
    "empty": cfg({}, {}, {}),
}
OWN = {"constants.js": "export const OWN = 'constants';\n", "other.js": "export const OWN = 'other';\n"}
OPS_QUICK = ["prod", "dev", "prod:EV=2", "cfg:base", "cfg:values", "cfg:env", "cfg:other", "constants.js", "importer", "scanfail", "buildfail"]
OPS_THOROUGH = OPS_QUICK + ["dev:EV=2", "cfg:devonly", "cfg:empty", "other.js"]
# model: (config, sources frozenset)


def sources(have):
    s = {"src/public/index.html": "<!DOCTYPE html><html><head><title>t</title></head><body></body></html>", "src/public/z.png": "z"}
    for f in ("constants.js", "other.js"):
        if f in have:
            s["src/public/js/" + f] = OWN[f]
    if "importer" in have:
        s["src/public/js/app.js"] = 'import * as k from "/js/constants.js";'
        s["src/public/app.html"] = '<!DOCTYPE html><html><head><title>t</title><script src="/js/app.js"></script></head><body></body></html>'
    if "scanfail" in have:
        s["src/public/bad.html"] = "<!DOCTYPE html><html><head><title>t</title></head><body><!--[TEMPLATE: [\"/nope.html\"]]--></body></html>"
    if "buildfail" in have:
        s["src/public/js/a.js"] = s["src/public/js/zz.js"] = 'import "/js/constants.js";'
        s["src/public/bad.css"] = "a{b:url('/missing.png')}"
    return s


def step(job):
    snap, model, op = job
    p = step.p
    if p is None:
        p = step.p = env.Project("c17h")
    if op is None:
        p.clear_generated()
        p.write_config(CONFIGS["base"])
        p.set_sources(sources(("constants.js",)))
        return [], p.snapshot(), bfs.canon(p), ("base", ("constants.js",))
    p.restore(snap)
    conf, have = model
    if op.startswith("cfg:"):
        if op[4:] == conf:
            return None
        conf = op[4:]
        p.write_config(CONFIGS[conf])
        return [], p.snapshot(), bfs.canon(p), (conf, have)
    if not op.startswith(("prod", "dev")):
        have = tuple(sorted(set(have) ^ {op}))
        p.set_sources(sources(have))
        return [], p.snapshot(), bfs.canon(p), (conf, have)
    dev = op.startswith("dev")
    envv = {"EV": op.split("=")[1] if "=" in op else "1"}
    o = p.build(dev=dev, env=envv)
    bad = []
    ok = "scanfail" not in have and "buildfail" not in have and ("importer" not in have or "constants.js" in have)
    if o.ok != ok:
        bad.append(("outcome", "the build %s: %s" % ("fails" if ok else "succeeds although the sources are broken", o.detail[-500:])))
    elif ok:
        www = p.www()
        jc = CONFIGS[conf]["js_constants"]
        for f in ("constants.js", "other.js"):
            got = www.get("js/" + f)
            if (got is not None) != (f in have):
                bad.append((f, "js/%s is %s" % (f, "missing" if got is None else "published although it has no source")))
                continue
            if got is None:
                if "js/%s.hash" % f in www:
                    bad.append((f, "js/%s.hash is published although there is no source" % f))
                continue
            want = effective(jc, dev, envv) if jc["relpath"].endswith("/" + f) else {"OWN": json.dumps(f[:-3])}
            why, = jsast.exports([(got.decode(), want)])
            if why is None and www.get("js/%s.hash" % f) != site.sha(got).encode():
                why = "the hash file is wrong"
            if why:
                bad.append((f, "js/%s: %s" % (f, why)))
        if "importer" in have and not bad:
            if site.sha(www["js/constants.js"]).replace("=", "%3D").encode() not in www["js/app.js"]:
                bad.append(("importer", "the importer carries %r, the constants have the hash %s" % (www["js/app.js"], site.sha(www["js/constants.js"]))))
            elif site.sha(www["js/app.js"]).replace("=", "%3D").encode() not in www["app.html"]:
                bad.append(("importer", "the page of the importer carries a superseded version"))
    return bad, p.snapshot(), bfs.canon(p), (conf, have)


step.p = None


def run(c):
    c.assumptions = ["key names are valid identifiers; nested keys called __proto__ are left out"]
    cs = list(configs())
    c.cov["rule"] = ("%d configurations x 2 modes (every presence of two keys in shared/dev/prod, %d values, %d names); breadth-first search over all histories of %d operations" % (
        len(cs), len(VALUES), len(NAMES), len(OPS_THOROUGH if env.THOROUGH else OPS_QUICK)))
    for job, (n, bad) in env.pmap(values, [cs[i::8] for i in range(8)]):
        c.add(states=n, transitions=n, traces_validated_against_impl=n)
        c.sample(job[0], 2)
        for s, why in bad:
            c.violation(s, "%s: %s" % (s, why), {"configuration": s, "why": why})
    bfs.search(c, "histories", step, OPS_THOROUGH if env.THOROUGH else OPS_QUICK, cap=40000 if env.THOROUGH else 6000)
