"""Many independent small inputs through one real project build.

Items that make the build fail are isolated by halving, so each item gets its own verdict."""
from . import env


def build_many(items, common=None, config=None, dev=False, symlinks=False, name="batch", timeout=None, pick=None):
    """items: list of {rel: content} (disjoint paths).  Returns a list, per item, of
    ("ok", www) - the published tree of the build the item was part of, or ("fail", detail)."""
    p = env.Project(name, config=config or env.default_config())
    res = [None] * len(items)

    def go(idx):
        if not idx:
            return
        want = dict(common or {})
        for i in idx:
            want.update(items[i])
        p.set_sources(want)
        p.clear_generated()
        o = p.build(dev=dev, symlinks=symlinks, timeout=timeout or (20 + 0.2 * len(idx)))
        if o.ok:
            w = p.www()
            for i in idx:
                res[i] = ("ok", w)
        elif len(idx) == 1:
            res[idx[0]] = ("fail", "%s: %s" % (o.kind, o.detail[-700:]))
        else:
            h = len(idx) // 2
            go(idx[:h])
            go(idx[h:])
    go(list(range(len(items))))
    p.set_sources({})
    p.clear_generated()
    return res
