"""C31: commands act on exactly the folder they are given, from anywhere, and report failure.

State space: every command line of the lists (build, clean and init with every combination of their options, the
answers to clean's question, run without anything to serve, invalid command lines) x every way of naming the
project (the current folder or --folder, relative to several folders, absolute, with a trailing slash, through a
link, from a folder which cannot be written to and from within another project) x states of the project (never
built, built, broken source, configuration missing, outdated, invalid or of another type, no sources).  Oracle:
the published site of a direct build; everything outside of what the command is for, in the project and around
it, stays as it was; the exit status is zero exactly if the command did what it is for."""
import io
import itertools
import json
import os
import stat
import sys

from vp import env, site

PUB = "src/public/"
OK = {PUB + "index.html": "<!DOCTYPE html><html><head><title>t</title><link rel=stylesheet href=/css/a.css></head><body><!--[IMAGE: /img/p.png 4 4]--><script>x=1</script></body></html>",
      PUB + "css/a.css": ".a{b:c}", PUB + "css/main.css": ":root{}", PUB + "img/p.png": site.png(8, 8), PUB + "a.txt": "text", PUB + "js/g.images.json": '{"k": {"path": "/img/p.png", "width": 4, "height": 4}}',
      PUB + "js/c.js": "import {A} from '/js/constants.js'; A;", PUB + "js/constants.js": "// constants", "src/partials/p.html": "<b>partial</b>",
      PUB + "js/d.js": "import {A} from './constants.js'; import '../sub/e.js'; A;", PUB + "sub/e.js": "import '../js/c.js';", PUB + "sub/i.svg": "<svg/>",
      PUB + "sub/r.html": "<!DOCTYPE html><html><head><title>t</title><script src=/js/d.js></script></head><body><!--[IMAGE: ../img/p.png 4 4]--><!--[TEMPLATE: [\"../../partials/p.html\"]]--></body></html>"}
BROKEN = dict(OK, **{PUB + "index.html": "<!--[TEMPLATE: [\"/none.html\", {}]]-->"})
CONSTS = {"relpath": PUB + "js/constants.js", "shared": {}, "dev": {"A": "dev"}, "prod": {"A": "prod"}}
PLACES = [("root", None), ("root", "."), ("root", "./"), ("parent", "proj"), ("parent", "proj/"), ("parent", "./other/../proj"), ("other", "../proj"), ("other", "ABS"), ("public", "../.."), ("top", "ABS"), ("top", "ABS/"),
          ("readonly", "ABS"), ("readonly", "../proj"), ("parent", "link"), ("link", None), ("out", "..")]
STATES = ["new", "built", "dev built", "broken", "built, broken", "no config", "built, no config", "old config", "config is a list", "config is no json", "no src", "empty"]
FEW = [("root", None), ("other", "../proj"), ("readonly", "ABS"), ("parent", "link")]


def config():
    return env.default_config(js_constants=CONSTS)


def commands():
    for dev in ([], ["--dev"]):
        for sy in ([], ["--symlinks"], ["--no-symlinks"]):
            yield ["build"] + dev + sy, None
    yield ["build", "--symlinks", "--dev", "--delay-files", "src/public/a.txt", "src/public/none"], None
    for a in (["--placeholders"], ["--no-placeholders"]):
        yield ["clean"] + a, None
    for t in ("y\n", "n\n", "Y\n", "yes\nn\n", "\ny\n", "N\n", ""):
        yield ["clean"], t
    yield ["init"], None
    yield ["init", "--host", "h.example"], None
    yield ["run"], None
    for bad in (["build", "--none"], ["build", "extra"], ["clean", "--all"], ["serve"], [], ["init", "--placeholders"], ["run", "--port", "x"], ["dev", "--debounce", "x"], ["build", "-h"], ["-h"]):
        yield bad, None


def invoke(cwd, argv, answers):
    from vp import hooks
    from vanillaplusjs import main as m
    os.chdir(cwd)
    sys.argv = ["vanillaplusjs"] + argv
    sys.stdin = io.StringIO(answers or "")
    sys.stdout = sys.stderr = io.StringIO()
    hooks.SLEEP = lambda s: None
    try:
        m.main()
    except SystemExit as e:
        return 0 if e.code is None else e.code if isinstance(e.code, int) else 1
    return 0


def listing(top):
    out = {}
    for dp, dn, fn in os.walk(top):
        for n in dn + fn:
            q = os.path.join(dp, n)
            st = os.lstat(q)
            r = os.path.relpath(q, top)
            if stat.S_ISLNK(st.st_mode):
                out[r] = ("link", os.readlink(q))
            elif stat.S_ISDIR(st.st_mode):
                out[r] = ("dir", stat.S_IMODE(st.st_mode))
            else:
                with open(q, "rb") as f:
                    out[r] = ("file", stat.S_IMODE(st.st_mode), f.read())
    return out


WANT = {}


def wanted(dev):
    if dev not in WANT:
        p = env.Project("c31w", config=config())
        p.set_sources(OK)
        o = p.build(dev=dev)
        if not o.ok:
            raise Exception("the project does not build: " + o.detail[-300:])
        WANT[dev] = p.www()
    return WANT[dev]


def setup(p, state):
    p.reset()
    p.write_config(config())
    for d, s in (("other", OK),):
        r = os.path.join(p.base, d)
        os.makedirs(r + "/src/public")
        with open(r + "/vanillaplusjs.json", "w") as f:
            json.dump(config(), f)
        with open(r + "/src/public/index.html", "w") as f:
            f.write("<p>other")
    os.makedirs(os.path.join(p.base, "readonly"))
    os.chmod(os.path.join(p.base, "readonly"), 0o555)
    os.symlink(p.root, os.path.join(p.base, "link"))
    p.put("notes.txt", "mine")
    p.put("outside/x.images.js", "mine")
    p.set_sources(dict(OK, **{"notes.txt": "mine", "outside/x.images.js": "mine"}))
    if "built" in state:
        o = p.build(dev=state == "dev built")
        if not o.ok:
            raise Exception("the project does not build: " + o.detail[-300:])
    if "broken" in state:
        p.put(PUB + "index.html", BROKEN[PUB + "index.html"])
    c = p.path("vanillaplusjs.json")
    if "no config" in state or state == "empty":
        os.unlink(c)
    if state == "no src" or state == "empty":
        env.wipe(p.path("src"))
        p.src = {}
    text = {"old config": json.dumps(dict(config(), version="0")), "config is a list": "[]", "config is no json": "{"}.get(state)
    if text is not None:
        with open(c, "w") as f:
            f.write(text)


def job(j):
    state, items = j
    p = env.Project("c31")
    bad = []
    for argv, answers, (where, folder) in items:
        ro = os.path.join(p.base, "readonly")
        if os.path.isdir(ro):
            os.chmod(ro, 0o755)
        setup(p, state)
        if where == "out" and not os.path.isdir(p.path("out")) or where == "public" and not os.path.isdir(p.path("src/public")):
            continue
        root = {"root": p.root, "parent": p.base, "other": p.base + "/other", "public": p.path("src/public"), "top": "/", "readonly": p.base + "/readonly", "link": p.base + "/link", "out": p.path("out")}[where]
        full = argv + (["--folder", folder.replace("ABS", p.root)] if folder is not None else [])
        what = "%s, in %s: %s%s" % (state, where, " ".join(argv + (["--folder", folder] if folder else [])), "" if answers is None else " answered %r" % answers)
        before = listing(p.base)
        o = env.isolated(invoke, root, full, answers, timeout=60)
        rc = o.value if o.ok else None if o.kind == "exc" else o.kind
        after = listing(p.base)
        for f in set(before) | set(after):      # around the project, nothing ever changes
            if not (f + "/").startswith("proj/") and before.get(f) != after.get(f):
                bad.append((what, "%s: %s is %s" % (what, f, "created" if f not in before else "removed" if f not in after else "changed")))
        b = {f[5:]: v for f, v in before.items() if f.startswith("proj/")}
        a = {f[5:]: v for f, v in after.items() if f.startswith("proj/")}
        g = lambda t: {f: v for f, v in t.items() if f.split("/")[0] not in ("out", "artifacts")}
        ph = PUB + "js/g.images.js"
        cmd = argv[0] if argv else ""
        valid = cmd in ("build", "clean", "init", "run") and "-h" not in argv and (argv, answers) in VALID
        ok = valid
        usable = "config" not in state and state != "empty"
        allowed = set()
        if not valid:
            if rc != (0 if "-h" in argv else 2):
                bad.append((what, "%s: ends with %r %s" % (what, rc, o.detail and o.detail[-200:])))
            if a != b:
                bad.append((what, "%s: changes %r" % (what, sorted(f for f in set(a) | set(b) if a.get(f) != b.get(f))[:3])))
            continue
        if cmd == "build":
            ok = usable and "broken" not in state and state != "no src"
            allowed = {ph} if usable and state != "no src" else set()
            if ok and rc == 0:
                dev = "--dev" in argv
                got, want = p.www(), wanted(dev)
                if "built" in state:
                    got, want = site.canonical(got), site.canonical(want)
                d = env.diff_trees(got, want)
                if d:
                    bad.append((what, "%s: publishes %s" % (what, d)))
                link = os.path.islink(p.path("out/www/a.txt"))
                if state == "new" and where not in ("readonly", "top") and link != ("--no-symlinks" not in argv) or state == "new" and "--symlinks" in argv and not link:
                    bad.append((what, "%s: publishes %s" % (what, "a link" if link else "a copy")))
                if ph not in a:
                    bad.append((what, "%s: there is no placeholder" % what))
        elif cmd == "clean":
            ok = "no config" not in state and state != "empty"
            question = "--placeholders" not in argv and "--no-placeholders" not in argv
            yes = "--placeholders" in argv or bool(question and answers and [x for x in answers.lower().split("\n") if x in ("y", "n")][:1] == ["y"])
            if question and not answers and ph in b:
                ok = False      # no answer
            if ok and rc == 0:
                left = [f for f in a if f.split("/")[0] in ("out", "artifacts")]
                if left:
                    bad.append((what, "%s: leaves %r" % (what, left[:3])))
                if yes and ph in a:
                    bad.append((what, "%s: leaves the placeholder" % what))
                if yes:
                    allowed = {ph}
            if not ok and a != b:
                bad.append((what, "%s: fails, but changes %r" % (what, sorted(f for f in set(a) | set(b) if a.get(f) != b.get(f))[:3])))
        elif cmd == "init":
            allowed = {f for f in ("vanillaplusjs.json", "src", "src/public", "src/public/img", "src/public/js", "src/partials", PUB + "index.html") if f not in b}
            for f in allowed:
                if f not in a:
                    bad.append((what, "%s: %s is missing" % (what, f)))
            if "vanillaplusjs.json" in allowed and rc == 0 and json.loads(a["vanillaplusjs.json"][2])["host"] != ("h.example" if "--host" in argv else None):
                bad.append((what, "%s: the host is %r" % (what, a["vanillaplusjs.json"][2])))
            if {f: v for f, v in a.items() if f not in g(a)} != {f: v for f, v in b.items() if f not in g(b)}:
                bad.append((what, "%s: changes generated files" % what))
        elif cmd == "run":
            if "built" in state and "no config" not in state:
                continue
            ok = False
            if a != b:
                bad.append((what, "%s: changes files" % what))
        ga, gb = g(a), g(b)
        for f in set(ga) | set(gb):
            if f not in allowed and ga.get(f) != gb.get(f):
                bad.append((what, "%s: %s is %s" % (what, f, "created" if f not in gb else "removed" if f not in ga else "changed")))
        if ok != (rc == 0):
            bad.append((what, "%s: ends with %r although it should %s: %s" % (what, rc, "work" if ok else "fail", o.detail and o.detail[-200:])))
    ro = os.path.join(p.base, "readonly")
    if os.path.isdir(ro):
        os.chmod(ro, 0o755)
    return len(items), bad[:20]


VALID = [(c, a) for c, a in commands() if c and (c[0] == "build" and not set(c) & {"--none", "extra", "-h"} or c[0] == "clean" and "--all" not in c or c[0] == "init" and "--placeholders" not in c or c == ["run"])]


def run(c):
    c.assumptions = ["run with a built site serves it (C29), dev builds and serves (C06, C29)"]
    jobs = []
    cmds = list(commands())
    for state in STATES:
        places = PLACES if state in ("new", "built") or env.THOROUGH else FEW
        items = [(cmd, a, pl) for cmd, a in cmds for pl in places if not (cmd == ["run"] and "built" in state and "no config" not in state) and (cmd and cmd[0] in ("build", "clean", "init", "run") or pl == ("root", None))]
        jobs += [(state, items[i:i + 20]) for i in range(0, len(items), 20)]
    c.cov["rule"] = "%d command lines, %d ways of naming the project, %d states of the project" % (len(cmds), len(PLACES), len(STATES))
    m = 0
    for j, (n, bad) in env.pmap(job, jobs, deadline=c.deadline):
        m += 1
        c.add(states=n, transitions=n, traces_validated_against_impl=n)
        c.sample("%s: %r" % (j[0], j[1][0]), 6)
        for f, why in bad:
            c.violation(f, why, {"case": f, "why": why})
    if m < len(jobs):
        c.cap("time budget reached after %d of %d groups" % (m, len(jobs)))
