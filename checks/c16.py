"""C16: concurrent pages using the same image share one target safely.

State space: for pages and glue files that ask for the same or different crops of the same pictures, from empty
and from populated artifacts, every interleaving of the file-system steps of the scanning and of the building
workers up to a bound on deviations from the default schedule, and every order of whole workers; each schedule
is a build of the real code. Every schedule must succeed, publish what a clean build does (up to the numbering
of targets) with every reference resolved, have exactly one target per distinct request, leave satisfied
targets' files untouched, and leave no temporary files; the next build must publish the same again."""
from checks import sched
from checks.sched import PUB, sweep
from checks.universes import page
from vp import env, explore, site

I = "<!--[IMAGE: %s %d %d]-->"
A = site.png(8, 8)
B = site.png(6, 8, (1, 2, 3))


def glue(**k):
    import json
    return json.dumps({n: dict(path=p, width=w, height=h) for n, (p, w, h) in k.items()})


def universes():
    a4, a3 = I % ("/img/a.png", 4, 4), I % ("/img/a.png", 3, 4)
    base = {PUB + "img/a.png": A}
    same = {**base, PUB + "a.html": page(a4), PUB + "b.html": page(a4)}
    diff = {**base, PUB + "a.html": page(a4), PUB + "b.html": page(a3)}
    both = {**base, PUB + "a.html": page(a4 + a3), PUB + "b.html": page(a3 + a4)}
    g = {**base, PUB + "a.html": page(a4), PUB + "js/g.images.json": glue(x=("/img/a.png", 4, 4), y=("/img/a.png", 3, 4))}
    g2 = {**base, PUB + "js/f.images.json": glue(x=("/img/a.png", 4, 4)), PUB + "js/g.images.json": glue(x=("/img/a.png", 4, 4))}
    stem = {**base, PUB + "img/a.jpeg": site.png(8, 8, (9, 9, 99), "JPEG"), PUB + "a.html": page(a4), PUB + "b.html": page(I % ("/img/a.jpeg", 4, 4))}
    three = {**base, PUB + "a.html": page(a4), PUB + "b.html": page(a4 + a3), PUB + "c.html": page(a3)}
    part = {**base, "src/partials/p.html": a4, PUB + "a.html": page('<!--[TEMPLATE: ["/p.html", {}]]-->'), PUB + "b.html": page('<!--[TEMPLATE: ["/p.html", {}]]-->' + a3)}
    out = [
        dict(name="same", asg=same, targets=1),
        dict(name="different", asg=diff, targets=2),
        dict(name="both", asg=both, targets=2),
        dict(name="glue", asg=g, targets=2),
        dict(name="two glues", asg=g2, targets=1),
        dict(name="same stem", asg=stem, targets=2),
        dict(name="three", asg=three, targets=2),
        dict(name="template", asg=part, targets=2),
        dict(name="one more page", prior=[{**base, PUB + "a.html": page(a4)}], asg=same, targets=1, reused=True),
        dict(name="two more pages", prior=[{**base, PUB + "a.html": page(a4)}], asg=three, targets=2, reused=True),
        dict(name="a page less", prior=[both], asg={**base, PUB + "a.html": page(a3 + " "), PUB + "c.html": page(a3)}, targets=1),
        dict(name="swapped", prior=[diff], asg={**base, PUB + "a.html": page(a3), PUB + "b.html": page(a4)}, targets=2, reused=True),
        dict(name="other picture", prior=[both], asg={**both, PUB + "img/a.png": B}, targets=2),
        dict(name="other picture and page", prior=[same], asg={**diff, PUB + "img/a.png": B}, targets=2),
        dict(name="unrelated edit", prior=[both], asg={**both, PUB + "a.html": page("<p></p>" + a4 + a3)}, targets=2, reused=True),
    ]
    for u in out:
        u["images"] = True
        u["then"] = u["asg"]
    return out


def run(c):
    us = universes()
    T = env.THOROUGH
    jobs = [(u, "atomic", 4000 if T else 250) for u in us] + [(u, "stepped", 12000 if T else 900) for u in us]
    sweep(c, jobs[::-1], workers=3)
    c.assumptions += ["a worker's file-system steps are atomic, and the operating system's file locks work"]
